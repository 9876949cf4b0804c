#!/usr/bin/env python3
# Writes the per-operation contracts of the retrying end into contracts/client_ops.gv.
ops=[ # name, args [(name,type)], number of results beside the error
("OpenStream",[("opts","[]*options.OpenStreamOptions")],1),
("AcceptStream",[],1),
("Call",[("ctx","context.Context"),("method","string"),("req","geminio.Request"),("opts","[]*options.CallOptions")],1),
("CallAsync",[("ctx","context.Context"),("method","string"),("req","geminio.Request"),("ch","chan *geminio.Call"),("opts","[]*options.CallOptions")],1),
("Register",[("ctx","context.Context"),("method","string"),("rpc","geminio.RPC")],0),
("Hijack",[("rpc","geminio.HijackRPC"),("opts","[]*options.HijackOptions")],0),
("Publish",[("ctx","context.Context"),("msg","geminio.Message"),("opts","[]*options.PublishOptions")],0),
("PublishAsync",[("ctx","context.Context"),("msg","geminio.Message"),("ch","chan *geminio.Publish"),("opts","[]*options.PublishOptions")],1),
("Receive",[("ctx","context.Context")],1),
("Read",[("buf","[]byte")],1),
("Write",[("buf","[]byte")],1),
]
out=["# Generated by tools/gen_client.py: the operations of the retrying end (C21).\n"]
# an end that was stored is a whole one (client.new below)
GIVEN='  given all("AtomicLoad", l, sameptr(l.recv, &re.end) && cast(l.res, "*client.clientEnd") != nil ==> cast(l.res, "*client.clientEnd").End != nil)'
def eq(a,b,t):
    return f"sameslice({a}, {b})" if t.startswith("[]") else f"sameptr({a}, {b})" if t.startswith("chan") else f"{a} == {b}"
for n,args,k in ops:
    rn="register" if n=="Register" else n
    al="".join(f", {a}" for a,_ in args)
    same=lambda e:"".join(f" && {eq(f'{e}.a{i}',a,t)}" for i,(a,t) in enumerate(args))
    ev=f"End.{n}"
    r="r, err" if k else "err"
    ok=lambda e: f"r == {e}.r0 && err == nil" if k else "err == nil"
    er=lambda e: f"{e}.r1" if k else f"{e}.res"
    rec=f"RetryEnd.{rn}" if rn==n else "RetryEnd.register|RetryEnd.Register"
    L=[f"lemma retry.{n.lower()} [C21 C23] {{","  flags locks",
       "  rely client.RetryEnd.end nonnil cell:int32 any",
       f"  opaque client.RetryEnd.reinit {'client.RetryEnd.register' if rn!=n else 'client.RetryEnd.'+n}" + (" options.MergeHijackOptions" if n=="Hijack" else ""),
       "  var re *client.RetryEnd",GIVEN]
    if rn!=n: L[3]="  opaque client.RetryEnd.reinit client.RetryEnd.register"
    L+= [f"  var {a} {t}" for a,t in args]
    L+= ["  requires okre(re)"]
    call=f"  call {r} = client.RetryEnd.{rn}(re{al}"+(", true" if rn!=n else "")+")"
    L+= [call,
     f'  assert one: cnt("End.*", e, true) <= 1 && all("End.*", e, sameptr(e.recv, e.recv)) ' if False else
     f'  assert one: cnt("{ev}", e, true) <= 1 && all("{ev}", e, oncur(e, re){same("e")})',
     f'  assert closed: none("{ev}", e, true) ==> err == io.EOF && some("AtomicLoad", l, sameptr(l.recv, re.ok) && l.res != 1) && none("{rec}|RetryEnd.reinit", e, true)',
     f'  assert healthy: all("{ev}", e, {er("e")} == nil ==> {ok("e")} && none("{rec}|RetryEnd.reinit", x, true))',
     f'  assert fails: all("{ev}", e, {er("e")} != nil && {er("e")} != io.EOF ==> err == {er("e")} && none("{rec}|RetryEnd.reinit", x, true))',
     f'  assert retries: all("{ev}", e, {er("e")} == io.EOF ==> cnt("RetryEnd.reinit", x, x.recv == re && x.a0.End == e.recv) == 1 || err == io.EOF && some("AtomicLoad", l, sameptr(l.recv, re.ok) && e.i < l.i && l.res != 1)) && cnt("RetryEnd.reinit", x, true) <= 1 && all("RetryEnd.reinit", x, some("{ev}", e, {er("e")} == io.EOF && e.i < x.i))',
     f'  assert gives: all("RetryEnd.reinit", x, x.res != nil ==> err == x.res && none("{rec}", e, true))',
     f'  assert again: all("RetryEnd.reinit", x, x.res == nil ==> cnt("{rec}", e, e.recv == re{same("e")} && '+ (f"r == e.r0 && err == e.r1" if k else "err == e.res") +f' && x.i < e.i) == 1) && cnt("{rec}", e, true) <= 1 && all("{rec}", e, some("RetryEnd.reinit", x, true))']
    if n=="Register":
        L+= [f'  assert remembers: cnt("MapSet", m, true) == cnt("{ev}", e, {er("e")} == nil) && all("MapSet", m, sameptr(m.recv, re.rpcs) && m.a0 == method && re.rpcs[method] == rpc && wheld(m, re.rpcMtx)) && none("MapDel", m, true)']
    if n=="Hijack":
        L+= [f'  assert remembers: all("{ev}", e, {er("e")} == nil ==> re.hijackRPC == rpc && cnt("options.MergeHijackOptions", m, sameslice(m.a0, opts) && re.hijackRPCOpts == m.res) == 1)',
             f'  assert forgets: err != nil && none("{rec}", e, true) ==> re.hijackRPC == old(re.hijackRPC) && re.hijackRPCOpts == old(re.hijackRPCOpts)']
    L+= ["  reach end","}\n"]
    out.append("\n".join(L))
    if rn!=n:
        out.append(f"""lemma retry.{n.lower()}.entry [C21] {{
  opaque client.RetryEnd.register
  var re *client.RetryEnd
"""+"\n".join(f"  var {a} {t}" for a,t in args)+f"""
  requires okre(re)
  call err = client.RetryEnd.{n}(re{al})
  assert same: cnt("RetryEnd.register", e, e.recv == re{same("e")} && err == e.res) == 1 && cnt("RetryEnd.register", e, true) == 1
  reach end
}}
""")
# plain delegations: name, args, result expression type, guarded by ok
plain=[("ListStreams",[],1,"nil"),("NewRequest",[("data","[]byte"),("opts","[]*options.NewRequestOptions")],0,""),
("NewMessage",[("data","[]byte"),("opts","[]*options.NewMessageOptions")],0,""),
("SetDeadline",[("t","time.Time")],1,"io.EOF"),("SetReadDeadline",[("t","time.Time")],1,"io.EOF"),("SetWriteDeadline",[("t","time.Time")],1,"io.EOF"),
("LocalAddr",[],0,""),("RemoteAddr",[],0,""),("StreamID",[],0,""),("ClientID",[],0,""),("Meta",[],0,""),("Side",[],0,""),("Peer",[],0,"")]
for n,args,g,z in plain:
    al="".join(f", {a}" for a,_ in args)
    same="".join(f" && {eq(f'e.a{i}',a,t)}" for i,(a,t) in enumerate(args))
    req=" && sameslice(r, e.res)" if n in("ListStreams","Meta") else " && r == e.res"
    ev=f"End.{n}"
    L=[f"lemma retry.{n.lower()} [C21] {{","  flags locks","  rely client.RetryEnd.end nonnil cell:int32 any","  var re *client.RetryEnd",GIVEN]
    L+=[f"  var {a} {t}" for a,t in args]
    L+=["  requires okre(re) && re.end != nil",f"  call r = client.RetryEnd.{n}(re{al})",
     f'  assert delegates: cnt("{ev}", e, true) <= 1 && all("{ev}", e, oncur(e, re){same}{req})']
    if g: L+=[f'  assert closed: none("{ev}", e, true) ==> '+("len(r) == 0" if z=="nil" else f"r == {z}")+' && some("AtomicLoad", l, sameptr(l.recv, re.ok) && l.res != 1)']
    else: L+=[f'  assert always: cnt("{ev}", e, true) == 1']
    L+=["  reach end","}\n"]
    out.append("\n".join(L))
open('/verif/contracts/client_ops.gv','w').write("\n".join(out))
