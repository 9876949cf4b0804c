#!/usr/bin/env python3
"""Writes contracts/fields.gv: what the getters and setters of the values a user handles do, field by field."""
import os
out=['# generated by tools/gen_fields.py - getters and setters: the one field, as given, and nothing else']
def same(t,a,b): return f'sameslice({a}, {b})' if t.startswith('[]') or t=='slice' else f'{a} == {b}'
def typ(pkg,tn,fields,props,getters,setters,tag):
    P=' '.join(props)
    def rest(skip): return ' && '.join(same(t,f'o.{f}',f'old(o.{f})') for f,t in fields.items() if f not in skip)
    for m,f in getters.items():
        t=fields[f]
        out.append(f'''
lemma fields.{tag}.{m} [{P}] {{
  var o *{pkg}.{tn}
  requires o != nil
  call v = {pkg}.{tn}.{m}(o)
  assert is: {same(t,'v','o.'+f)} && {same(t,'v','old(o.'+f+')')}
  assert rest: {rest([])}
  reach end
}}''')
    for m,(params,sets) in setters.items():
        vs='\n'.join(f'  var {n} {t}' for n,t in params)
        asserts=' && '.join(same(fields[f],'o.'+f,e) if not e.startswith('!') else e[1:] for f,e in sets.items())
        out.append(f'''
lemma fields.{tag}.{m} [{P}] {{
  var o *{pkg}.{tn}
{vs}
  requires o != nil
  call {pkg}.{tn}.{m}({', '.join(['o']+[n for n,_ in params])})
  assert set: {asserts}
  assert rest: {rest(list(sets))}
  reach end
}}''')
B='[]byte'; U='uint64'; S='string'; D='time.Duration'
req=dict(method=S,data=B,custom=B,id=U,clientID=U,streamID=U,timeout=D)
def g(**kw): return kw
typ('application','request',req,['C11','C12'],g(ID='id',StreamID='streamID',ClientID='clientID',Method='method',Timeout='timeout',Data='data',Custom='custom'),
 {f'Set{n}':([('v',req[f])],{f:'v'}) for n,f in [('Timeout','timeout'),('Custom','custom'),('ClientID','clientID'),('StreamID','streamID')]},'request')
rsp=dict(err='error',method=S,data=B,custom=B,requestID=U,clientID=U,streamID=U)
typ('application','response',rsp,['C11','C12'],g(Error='err',ID='requestID',StreamID='streamID',ClientID='clientID',Method='method',Data='data',Custom='custom'),
 {f'Set{n}':([('v',rsp[f])],{f:'v'}) for n,f in [('Error','err'),('Data','data'),('Custom','custom'),('ClientID','clientID'),('StreamID','streamID')]},'response')
msg=dict(err='error',data=B,custom=B,id=U,clientID=U,streamID=U,topic=S,timeout=D,cnss='options.Cnss',sm='*application.stream')
typ('application','message',msg,['C14'],g(ID='id',StreamID='streamID',ClientID='clientID',Cnss='cnss',Timeout='timeout',Topic='topic',Data='data',Custom='custom'),
 {f'Set{n}':([('v',msg[f])],{f:'v'}) for n,f in [('Timeout','timeout'),('Custom','custom'),('Topic','topic'),('ClientID','clientID'),('StreamID','streamID')]},'message')
F='func(geminio.Stream)'
for side in ('client','server'):
    eo=dict(Timer='timer.Timer',TimerOwner='interface{}',PacketFactory='packet.PacketFactory',Log='log.Logger',
      Delegate=f'delegate.{side.title()}Delegate',ClientID='*uint64',RemoteMethods='[]string',RemoteMethodCheck='bool',
      LocalMethods='[]*geminio.MethodRPC',ReadBufferSize='int',WriteBufferSize='int')
    if side=='client': eo.update(delegate=eo['Delegate'],Meta=B)
    else: eo.update(AcceptStreamFunc=F,ClosedStreamFunc=F)
    st={f'Set{n}':([('v',eo[n])],{n:'v'}) for n in ('PacketFactory','Log','Delegate','Meta','AcceptStreamFunc','ClosedStreamFunc') if n in eo}
    st['SetTimer']=([('v',eo['Timer'])],dict(Timer='v',TimerOwner='!o.TimerOwner == nil'))
    st['SetClientID']=([('v',U)],dict(ClientID='!o.ClientID != nil && *o.ClientID == v && fresh(o.ClientID)'))
    st['SetWaitRemoteRPCs']=([('v','[]string')],dict(RemoteMethods='v'))
    st['SetRegisterLocalRPCs']=([('v','[]*geminio.MethodRPC')],dict(LocalMethods='v'))
    st['SetRemoteRPCCheck']=([],dict(RemoteMethodCheck='!o.RemoteMethodCheck'))
    st['SetBufferSize']=([('v','int'),('w','int')],dict(ReadBufferSize='v',WriteBufferSize='w'))
    if side=='client': st['setTimer']=([('v',eo['Timer']),('w','interface{}')],dict(Timer='v',TimerOwner='w'))
    typ(side,'EndOptions',eo,['C25'],{},st,side+'.EndOptions')
    unset=' && '.join({'bool':f'!o.{f}'}.get(t, f'len(o.{f}) == 0 && o.{f} == nil' if t.startswith('[]') else f'o.{f} == nil') for f,t in eo.items() if t!='int')
    out.append(f'''
lemma fields.{side}.NewEndOptions [C25] {{
  call o = {side}.NewEndOptions()
  assert unset: o != nil && fresh(o) && {unset} && o.ReadBufferSize == -1 && o.WriteBufferSize == -1
  reach end
}}''')
for fn,t,fs in [('Call','CallOptions',['Timeout']),('NewRequest','NewRequestOptions',['Custom']),('Hijack','HijackOptions',['Match','Pattern']),
  ('OpenStream','OpenStreamOptions',['Meta','Peer']),('Publish','PublishOptions',['Timeout']),('NewMessage','NewMessageOptions',['Custom','Cnss','Topic'])]:
    out.append(f'''
lemma fields.options.{fn} [C20] {{
  call o = options.{fn}()
  assert unset: o != nil && fresh(o) && {' && '.join(f'o.{f} == nil' for f in fs)}
  reach end
}}''')
open(os.path.join(os.path.dirname(__file__),'..','contracts','fields.gv'),'w').write('\n'.join(out)+'\n')
