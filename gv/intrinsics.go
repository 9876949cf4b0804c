package main

// Models of what lies outside the module: the Go runtime's and the standard library's functions the
// module calls, the state machine and waiter-hub dependencies, and byte sequences.

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// byte sequences and strings -------------------------------------------------------
// A string and the contents of a byte slice are named by a 32-bit sequence identifier; equal
// contents have equal identifiers (extensionality is instantiated with a witness per pair).

type seqReg struct {
	id *Term
	n  *Term
	at func(k *Term) *Term
}

func (st *State) strLen(s *Term) *Term {
	b := st.u.b
	if isC(s) {
		if s.V == 0 {
			return b.BV(0, 64)
		}
		strMu.Lock()
		v, ok := strRev[s.V]
		strMu.Unlock()
		if ok {
			return b.BV(uint64(len(v)), 64)
		}
	}
	for _, r := range st.seqs {
		if r.id == s {
			return r.n
		}
	}
	n := b.UF("strlen", 64, s)
	st.assumeOnce(b.And(b.Bin(OSle, b.BV(0, 64), n), b.Bin(OSlt, n, b.BV(1<<31, 64)), b.Eq(b.Eq(n, b.BV(0, 64)), b.Eq(s, b.BV(0, 32)))))
	return n
}

func (st *State) seqAt(q, k *Term) *Term {
	b := st.u.b
	for _, r := range st.seqs {
		if r.id == q {
			return r.at(k)
		}
	}
	if isC(q) && isC(k) {
		strMu.Lock()
		v, ok := strRev[q.V]
		strMu.Unlock()
		if ok && k.V < uint64(len(v)) {
			return b.BV(uint64(v[k.V]), 8)
		}
	}
	return b.UF("seqat", 8, q, k)
}

func (st *State) regStr(s *Term) {
	for _, r := range st.seqs {
		if r.id == s {
			return
		}
	}
	b := st.u.b
	n := st.strLen(s)
	st.addSeq(&seqReg{id: s, n: n, at: func(k *Term) *Term { return b.UF("seqat", 8, s, k) }})
}

func (st *State) addSeq(r *seqReg) {
	b := st.u.b
	for _, o := range st.seqs {
		w := b.Fresh("wit", 64)
		st.assume(b.Or(b.Eq(r.id, o.id), b.Ne(r.n, o.n), b.And(b.Bin(OUlt, w, r.n), b.Ne(r.at(w), o.at(w)))))
		st.assume(b.Implies(b.Eq(r.id, o.id), b.Eq(r.n, o.n)))
	}
	st.assumeOnce(b.Eq(b.Eq(r.n, b.BV(0, 64)), b.Eq(r.id, b.BV(0, 32))))
	st.seqs = append(st.seqs, r)
}

func (st *State) mkSeq(n *Term, at func(k *Term) *Term, hint string) *Term {
	b := st.u.b
	n = st.simp(n)
	if isC(n) && n.V == 0 {
		return b.BV(0, 32)
	}
	id := b.Fresh("seq:"+hint, 32)
	st.addSeq(&seqReg{id: id, n: n, at: at})
	return id
}

func (st *State) seqOfStr(s *Term) *Term { return s }
func (st *State) strOfSeq(s *Term) *Term { return s }

func (st *State) seqOf(s *SliceV) *Term {
	u := st.u
	st.minfo("arr:byte", 8, kScalar)
	h := st.mem["arr:byte"]
	key := fmt.Sprintf("seqof:%p:%d:%d:%d", h, s.Arr.id, s.Off.id, s.Len.id)
	if v, ok := st.ghost[key]; ok {
		return v.(*Term)
	}
	id := st.mkSeq(s.Len, func(k *Term) *Term {
		return u.readMem(h, "arr:byte", 8, kScalar, []*Term{s.Arr, u.b.Add(s.Off, k)})
	}, "bytes")
	st.ghost[key] = id
	return id
}

func (st *State) bytesOfStr(s *Term) *SliceV {
	b := st.u.b
	st.regStr(s)
	n := st.strLen(s)
	r := st.newRef()
	z := b.BV(0, 64)
	var at func(k *Term) *Term
	for _, q := range st.seqs {
		if q.id == s {
			at = q.at
		}
	}
	st.writeRange("arr:byte", 8, kScalar, r, z, n, at)
	return &SliceV{r, z, n, n}
}

// errors ---------------------------------------------------------------------------

type errStringT struct{}

var errTagOnce uint64

func errTag() uint64 {
	tagMu.Lock()
	defer tagMu.Unlock()
	if errTagOnce == 0 {
		errTagOnce = uint64(len(tagTab) + 1)
		tagTab["*errors.errorString"] = errTagOnce
	}
	return errTagOnce
}

func (u *Unit) globalErr(prefix string) *IfaceV {
	b := u.b
	n, ok := u.gerr[prefix]
	if !ok {
		n = uint64(0x70000000 + len(u.gerr))
		u.gerr[prefix] = n
	}
	return &IfaceV{b.BV(errTag(), 16), b.BV(n, 64)}
}

func (st *State) newErr(str *Term) *IfaceV {
	b := st.u.b
	r := st.newRef()
	iv := &IfaceV{b.BV(errTag(), 16), b.Zext(r, 64)}
	if str != nil {
		st.assume(b.Eq(st.errStr(iv), str))
	}
	return iv
}

func (st *State) errStr(iv *IfaceV) *Term {
	return st.u.b.UF("errstr", 32, iv.Tag, iv.Pay)
}

func (st *State) freshErr(name string) *IfaceV {
	b := st.u.b
	e := &IfaceV{b.Fresh(name+".tag", 16), b.Fresh(name+".pay", 64)}
	st.assume(b.Ne(e.Tag, b.BV(0, 16)))
	return e
}

func nilErr(b *B) *IfaceV { return &IfaceV{b.BV(0, 16), b.BV(0, 64)} }

// interface method intrinsics ------------------------------------------------------------

func (st *State) ifaceIntrinsic(c *target, iv *IfaceV, args []Val, pos token.Pos, k func(st *State, v Val)) bool {
	b := st.u.b
	tk := typeKey(c.recvT)
	m := c.method.Name()
	if strings.HasSuffix(tk, "log.Logger") {
		var r Val
		if rt := resType(c.sig); rt != nil {
			r = st.freshVal("log", rt, false)
		}
		k(st, r)
		return true
	}
	switch {
	case m == "Error" && c.sig.Params().Len() == 0 && c.sig.Results().Len() == 1 && isString(c.sig.Results().At(0).Type()):
		tag := st.simp(iv.Tag)
		if isC(tag) {
			if t := typeOfTag(tag.V); t != nil {
				return false
			}
		}
		st.nopanic("method call on nil interface", b.Ne(iv.Tag, b.BV(0, 16)))
		k(st, st.errStr(iv))
		return true
	case m == "Write" && (tk == "io.Writer" || tk == "net.Conn") && len(args) == 1:
		return st.ghostWrite(iv, args[0].(*SliceV), pos, k)
	case tk == "context.Context":
		st.nopanic("method call on nil interface", b.Ne(iv.Tag, b.BV(0, 16)))
		switch m {
		case "Deadline":
			dl := b.UF("ctxdl", 64, iv.Tag, iv.Pay)
			ok := b.UF("ctxhasdl", 0, iv.Tag, iv.Pay)
			k(st, &TupleV{[]Val{b.Ite(ok, dl, b.BV(zeroTime, 64)), ok}})
			return true
		case "Done":
			d := b.UF("ctxdone", 32, iv.Tag, iv.Pay)
			d.old = true
			k(st, d)
			return true
		case "Err":
			// nil until the context is done, from then on always the same error
			et := b.UF("ctxerr.tag", 16, iv.Tag, iv.Pay)
			ep := b.UF("ctxerr.pay", 64, iv.Tag, iv.Pay)
			st.assume(b.Ne(et, b.BV(0, 16)))
			dk := b.UF("ctxdone", 32, iv.Tag, iv.Pay).id
			done := b.Fresh("ctx.ended", 0)
			if was := st.ended[dk]; was != nil {
				st.assume(b.Implies(was, done))
				if isC(was) && was.V != 0 {
					done = b.True
				}
			}
			st.ended[dk] = done
			k(st, &IfaceV{b.Ite(done, et, b.BV(0, 16)), b.Ite(done, ep, b.BV(0, 64))})
			return true
		}
	}
	return false
}

func (st *State) ghostWrite(iv *IfaceV, data *SliceV, pos token.Pos, k func(st *State, v Val)) bool {
	b := st.u.b
	one := b.BV(1, 32)
	n := b.Fresh("written", 64)
	errv := &IfaceV{b.Fresh("werr.tag", 16), b.Fresh("werr.pay", 64)}
	if _, on := st.ghost["wpos"]; on {
		p := st.read("ghost.wpos", 64, kScalar, one)
		st.assume(b.And(b.Bin(OSle, b.BV(0, 64), n), b.Bin(OSle, n, data.Len)))
		st.assume(b.Implies(b.Eq(errv.Tag, b.BV(0, 16)), b.Eq(errv.Pay, b.BV(0, 64))))
		ba := st.read("ghost.wbase", 32, kScalar, one)
		bo := st.read("ghost.wboff", 64, kScalar, one)
		ok := st.read("ghost.wbad", 0, kScalar, one)
		first := b.Eq(p, b.BV(0, 64))
		good := b.Or(first, b.And(b.Eq(data.Arr, ba), b.Eq(data.Off, b.Add(bo, p))))
		st.write("ghost.wbad", 0, kScalar, b.Or(ok, b.And(b.Bin(OSlt, b.BV(0, 64), n), b.Not(good))), one)
		st.write("ghost.wbase", 32, kScalar, b.Ite(first, data.Arr, ba), one)
		st.write("ghost.wboff", 64, kScalar, b.Ite(first, data.Off, bo), one)
		st.write("ghost.wpos", 64, kScalar, b.Add(p, n), one)
		k(st, &TupleV{[]Val{n, errv}})
		return true
	}
	return false
}

// function intrinsics ---------------------------------------------------------------------

func sub(args []Val, i int) Val { return args[i] }

func (st *State) intrinsic(fn *ssa.Function, c *target, args []Val, pos token.Pos, k func(st *State, v Val)) bool {
	b := st.u.b
	full := fn.String()
	key := fnKey(fn)
	T := func(i int) *Term {
		switch x := args[i].(type) {
		case *Term:
			return x
		case *LocV:
			return st.reify(x)
		}
		unsup("intrinsic %s arg %d is %T", full, i, args[i])
		return nil
	}
	if fn.Pkg != nil && strings.Contains(fn.Pkg.Pkg.Path(), "armorigo/log") {
		var r Val
		if rt := resType(fn.Signature); rt != nil {
			r = st.freshVal("log", rt, false)
			st.resInv("log", r, rt)
		}
		k(st, r)
		return true
	}
	if key == "(*pkg/sync.Once).Do" || full == "(*sync.Once).Do" {
		if st.u.inlineOnce && key == "(*pkg/sync.Once).Do" {
			return false
		}
		st.onceDo(args[0], args[1], pos, k)
		return true
	}
	if st.u.p.inModule(fn) {
		return false
	}
	switch full {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		st.lockOp("Lock", args[0])
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		st.lockOp("Unlock", args[0])
	case "(*sync.RWMutex).RLock":
		st.lockOp("RLock", args[0])
	case "(*sync.RWMutex).RUnlock":
		st.lockOp("RUnlock", args[0])
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock":
		ok := b.Fresh("trylock", 0)
		lk := args[0]
		held := st.locks[st.lockKey(lk)] != 0
		alts := []alt{{b.Not(ok), func(st *State) {
			st.emit(&Event{Name: "TryFail", Recv: lk, Pos: pos})
			k(st, b.False)
		}}}
		if !held {
			alts = append([]alt{{ok, func(st *State) {
				st.emit(&Event{Name: "TryOK", Recv: lk, Pos: pos})
				st.lockOp("Lock", lk)
				k(st, b.True)
			}}}, alts...)
		}
		st.fork(alts)
		return true
	case "sync/atomic.LoadInt32", "sync/atomic.LoadUint32", "sync/atomic.LoadInt64", "sync/atomic.LoadUint64", "sync/atomic.LoadPointer":
		et := fn.Signature.Params().At(0).Type().(*types.Pointer).Elem()
		l := st.deref(args[0], et)
		l = &LocV{l.Prefix, l.Idx, et}
		st.relyChange(l, et)
		v := st.load(l)
		st.emit(&Event{Name: "AtomicLoad", Recv: l, Res: v, ResT: et, Pos: pos})
		st.relyStep(l, et)
		k(st, v)
		return true
	case "sync/atomic.StoreInt32", "sync/atomic.StoreUint32", "sync/atomic.StoreInt64", "sync/atomic.StoreUint64", "sync/atomic.StorePointer":
		et := fn.Signature.Params().At(0).Type().(*types.Pointer).Elem()
		l := st.deref(args[0], et)
		st.emit(&Event{Name: "AtomicStore", Recv: l, Args: []Val{args[1]}, Types: []types.Type{et}, Pos: pos})
		st.store(&LocV{l.Prefix, l.Idx, et}, args[1])
	case "sync/atomic.AddInt32", "sync/atomic.AddUint32", "sync/atomic.AddInt64", "sync/atomic.AddUint64":
		et := fn.Signature.Params().At(0).Type().(*types.Pointer).Elem()
		l := st.deref(args[0], et)
		nv := b.Add(st.load(l).(*Term), T(1))
		st.store(&LocV{l.Prefix, l.Idx, et}, nv)
		st.emit(&Event{Name: "AtomicAdd", Recv: l, Args: []Val{args[1]}, Types: []types.Type{et}, Res: nv, ResT: et, Pos: pos})
		st.relyStep(l, et)
		k(st, nv)
		return true
	case "sync/atomic.CompareAndSwapInt32", "sync/atomic.CompareAndSwapUint32", "sync/atomic.CompareAndSwapInt64", "sync/atomic.CompareAndSwapUint64", "sync/atomic.CompareAndSwapPointer":
		et := fn.Signature.Params().At(0).Type().(*types.Pointer).Elem()
		l := st.deref(args[0], et)
		l = &LocV{l.Prefix, l.Idx, et}
		st.relyChange(l, et)
		eq := b.Eq(st.load(l).(*Term), T(1))
		st.fork([]alt{
			{eq, func(st *State) {
				st.store(&LocV{l.Prefix, l.Idx, et}, args[2])
				st.emit(&Event{Name: "CAS", Recv: l, Args: []Val{args[1], args[2]}, Types: []types.Type{et, et}})
				k(st, b.True)
			}},
			{b.Not(eq), func(st *State) { k(st, b.False) }},
		})
		return true
	case "(encoding/binary.bigEndian).PutUint16", "(encoding/binary.bigEndian).PutUint32", "(encoding/binary.bigEndian).PutUint64",
		"(encoding/binary.littleEndian).PutUint16", "(encoding/binary.littleEndian).PutUint32", "(encoding/binary.littleEndian).PutUint64":
		n := map[string]int{"16": 2, "32": 4, "64": 8}[full[len(full)-2:]]
		s := args[1].(*SliceV)
		st.nopanic("index out of range", b.Bin(OSle, b.BV(uint64(n), 64), s.Len))
		v := T(2)
		for i := 0; i < n; i++ {
			j := i
			if strings.Contains(full, "littleEndian") {
				j = n - 1 - i
			}
			st.write("arr:byte", 8, kScalar, b.Extract(v, 8*(n-i)-1, 8*(n-i-1)), s.Arr, b.Add(s.Off, b.BV(uint64(j), 64)))
		}
	case "(encoding/binary.bigEndian).Uint16", "(encoding/binary.bigEndian).Uint32", "(encoding/binary.bigEndian).Uint64",
		"(encoding/binary.littleEndian).Uint16", "(encoding/binary.littleEndian).Uint32", "(encoding/binary.littleEndian).Uint64":
		n := map[string]int{"16": 2, "32": 4, "64": 8}[full[len(full)-2:]]
		s := args[1].(*SliceV)
		st.nopanic("index out of range", b.Bin(OSle, b.BV(uint64(n), 64), s.Len))
		var r *Term
		for i := 0; i < n; i++ {
			j := i
			if strings.Contains(full, "littleEndian") {
				j = n - 1 - i
			}
			x := st.read("arr:byte", 8, kScalar, s.Arr, b.Add(s.Off, b.BV(uint64(j), 64)))
			if r == nil {
				r = x
			} else {
				r = b.Concat(r, x)
			}
		}
		k(st, r)
		return true
	case "(encoding/binary.bigEndian).AppendUint16", "(encoding/binary.bigEndian).AppendUint32", "(encoding/binary.bigEndian).AppendUint64",
		"(encoding/binary.littleEndian).AppendUint16", "(encoding/binary.littleEndian).AppendUint32", "(encoding/binary.littleEndian).AppendUint64":
		n := map[string]int{"16": 2, "32": 4, "64": 8}[full[len(full)-2:]]
		v := T(2)
		r := st.newRef()
		for i := 0; i < n; i++ {
			j := i
			if strings.Contains(full, "littleEndian") {
				j = n - 1 - i
			}
			st.write("arr:byte", 8, kScalar, b.Extract(v, 8*(n-i)-1, 8*(n-i-1)), r, b.BV(uint64(j), 64))
		}
		w := b.BV(uint64(n), 64)
		st.appendN(types.Typ[types.Byte], args[1].(*SliceV), &SliceV{r, b.BV(0, 64), w, w}, w, k)
		return true
	case "encoding/json.Marshal":
		st.jsonMarshal(args[0].(*IfaceV), k)
		return true
	case "encoding/json.Unmarshal":
		st.jsonUnmarshal(args[0].(*SliceV), args[1].(*IfaceV), k)
		return true
	case "io.ReadFull":
		st.readFull(args[0].(*IfaceV), args[1].(*SliceV), pos, k)
		return true
	case "errors.New":
		k(st, st.newErr(T(0)))
		return true
	case "fmt.Errorf":
		t := st.sprintf(T(0), args[1], fn)
		k(st, st.newErr(t))
		return true
	case "errors.Is":
		x, y := args[0].(*IfaceV), args[1].(*IfaceV)
		k(st, b.Or(b.And(b.Eq(x.Tag, y.Tag), b.Eq(x.Pay, y.Pay)), b.UF("errors.Is", 0, x.Tag, x.Pay, y.Tag, y.Pay)))
		return true
	case "bytes.Equal":
		k(st, b.Eq(st.seqOf(args[0].(*SliceV)), st.seqOf(args[1].(*SliceV))))
		return true
	case "fmt.Sprintf":
		k(st, st.sprintf(T(0), args[1], fn))
		return true
	case "fmt.Sprint", "fmt.Sprintln":
		k(st, b.Fresh("sprintf", 32))
		return true
	case "strconv.FormatUint":
		k(st, b.UF("FormatUint", 32, T(0), T(1)))
		return true
	case "math.Pow":
		x, y := T(0), T(1)
		if isC(x) && isC(y) {
			k(st, b.BV(math.Float64bits(math.Pow(math.Float64frombits(x.V), math.Float64frombits(y.V))), 64))
		} else {
			k(st, b.UF("math.Pow", 64, x, y))
		}
		return true
	case "math.Log2":
		x := T(0)
		if isC(x) {
			k(st, b.BV(math.Float64bits(math.Log2(math.Float64frombits(x.V))), 64))
		} else {
			k(st, b.UF("math.Log2", 64, x))
		}
		return true
	// time
	case "time.Now":
		t := b.Fresh("now", 64)
		st.assume(b.And(b.Bin(OSlt, b.BV(0, 64), t), b.Bin(OSlt, t, b.BV(1<<62, 64))))
		st.emit(&Event{Name: "time.Now", Res: t, ResT: fn.Signature.Results().At(0).Type(), Pos: pos})
		k(st, t)
		return true
	case "(time.Time).IsZero":
		k(st, b.Eq(T(0), b.BV(zeroTime, 64)))
		return true
	case "(time.Time).After":
		k(st, b.Bin(OSlt, T(1), T(0)))
		return true
	case "(time.Time).Before":
		k(st, b.Bin(OSlt, T(0), T(1)))
		return true
	case "(time.Time).Equal":
		k(st, b.Eq(T(0), T(1)))
		return true
	case "(time.Time).Sub":
		k(st, st.timeSub(T(0), T(1)))
		return true
	case "(time.Time).Add":
		k(st, b.Add(T(0), T(1)))
		return true
	case "time.Until":
		t := b.Fresh("now", 64)
		st.assume(b.And(b.Bin(OSlt, b.BV(0, 64), t), b.Bin(OSlt, t, b.BV(1<<62, 64))))
		st.emit(&Event{Name: "time.Now", Res: t, ResT: fn.Signature.Params().At(0).Type(), Pos: pos})
		k(st, st.timeSub(T(0), t))
		return true
	case "time.Since":
		t := b.Fresh("now", 64)
		st.assume(b.And(b.Bin(OSlt, b.BV(0, 64), t), b.Bin(OSlt, t, b.BV(1<<62, 64))))
		st.emit(&Event{Name: "time.Now", Res: t, ResT: fn.Signature.Params().At(0).Type(), Pos: pos})
		k(st, st.timeSub(t, T(0)))
		return true
	case "(time.Time).Unix":
		k(st, st.unixOf(T(0)))
		return true
	case "(time.Time).UnixNano":
		k(st, T(0))
		return true
	// context
	case "context.Background", "context.TODO":
		iv := &IfaceV{b.BV(tagKey("context.emptyCtx"), 16), b.BV(0x71000000, 64)}
		st.assumeOnce(b.Not(b.UF("ctxhasdl", 0, iv.Tag, iv.Pay)))
		k(st, iv)
		return true
	case "context.WithDeadline", "context.WithTimeout", "context.WithCancel":
		p := args[0].(*IfaceV)
		st.nopanic("nil parent context", b.Ne(p.Tag, b.BV(0, 16)))
		r := st.newRef()
		iv := &IfaceV{b.BV(tagKey("context.derivedCtx"), 16), b.Zext(r, 64)}
		cancel := st.newRef()
		ph, pd := b.UF("ctxhasdl", 0, p.Tag, p.Pay), b.UF("ctxdl", 64, p.Tag, p.Pay)
		h, d := b.UF("ctxhasdl", 0, iv.Tag, iv.Pay), b.UF("ctxdl", 64, iv.Tag, iv.Pay)
		if full == "context.WithCancel" {
			st.assume(b.And(b.Eq(h, ph), b.Eq(d, pd)))
		} else {
			t := T(1)
			if full == "context.WithTimeout" {
				now := b.Fresh("now", 64)
				st.emit(&Event{Name: "time.Now", Res: now, ResT: types.Typ[types.Int64], Pos: pos})
				st.assume(b.And(b.Bin(OSlt, b.BV(0, 64), now), b.Bin(OSlt, now, b.BV(1<<62, 64))))
				t = b.Add(now, t)
			}
			st.assume(b.And(h, b.Eq(d, b.Ite(b.And(ph, b.Bin(OSlt, pd, t)), pd, t))))
		}
		res := &TupleV{[]Val{iv, cancel}}
		e := &Event{Name: "context.WithDeadline", Args: args, Res: res, ResT: fn.Signature.Results(), Pos: pos}
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			e.Types = append(e.Types, fn.Signature.Params().At(i).Type())
		}
		if full == "context.WithCancel" {
			e.Name = "context.WithCancel"
		}
		st.emit(e)
		k(st, res)
		return true
	case "(*sync.Map).Range":
		// bounded: at most three entries
		u := st.u
		u.bounded["sync.Map.Range: at most three entries"] = true
		m, f := args[0], args[1]
		ifc := types.NewInterfaceType(nil, nil)
		var step func(st *State, n int)
		st.emit(&Event{Name: "Map.Range", Recv: m, Pos: pos})
		step = func(st *State, n int) {
			alts := []alt{{b.True, func(st *State) {
				st.emit(&Event{Name: "RangeDone", Recv: m, Pos: pos})
				k(st, nil)
			}}}
			if n < 3 {
				alts = append(alts, alt{b.True, func(st *State) {
					key := st.freshVal("key", ifc, false)
					v := st.freshVal("value", ifc, false)
					st.emit(&Event{Name: "RangeNext", Recv: m, Args: []Val{key, v}, Types: []types.Type{ifc, ifc}, Pos: pos})
					sig := fn.Signature.Params().At(0).Type().Underlying().(*types.Signature)
					st.call(st.fnTarget(f, sig), []Val{key, v}, pos, func(st *State, r Val) {
						t := st.simp(r.(*Term))
						st.fork([]alt{
							{t, func(st *State) { step(st, n+1) }},
							{b.Not(t), func(st *State) { k(st, nil) }},
						})
					})
				}})
			}
			st.fork(alts)
		}
		step(st, 0)
		return true
	// lists
	case "container/list.New":
		k(st, st.newRef())
		return true
	case "(*container/list.List).PushBack", "(*container/list.List).PushFront":
		e := st.newRef()
		v := args[1]
		ifc := fn.Signature.Params().At(0).Type()
		st.store(&LocV{Prefix: "list.Element.Value", Idx: []*Term{e}, T: ifc}, v)
		st.write("list.of", 32, kScalar, T(0), e)
		st.emit(&Event{Name: "List.PushBack", Recv: args[0], Args: []Val{v}, Types: []types.Type{ifc}, Res: e, ResT: fn.Signature.Results().At(0).Type(), Pos: pos})
		k(st, e)
		return true
	case "(*container/list.List).Remove":
		e := T(1)
		ifc := fn.Signature.Results().At(0).Type()
		v := st.load(&LocV{Prefix: "list.Element.Value", Idx: []*Term{e}, T: ifc})
		of := st.read("list.of", 32, kScalar, e)
		was := b.Eq(of, T(0))
		st.emit(&Event{Name: "List.Remove", Recv: args[0], Args: []Val{e, v, was}, Types: []types.Type{fn.Signature.Params().At(0).Type(), ifc, types.Typ[types.Bool]}, Pos: pos})
		st.write("list.of", 32, kScalar, b.Ite(was, b.BV(0, 32), of), e)
		k(st, v)
		return true
	case "(*container/list.List).Front", "(*container/list.Element).Next":
		// Next of an element that is not in its list (any more) is nil
		e := b.Fresh("elem", 32)
		in, of := b.True, T(0)
		var ifc types.Type = types.NewInterfaceType(nil, nil)
		var v Val = &IfaceV{b.BV(0, 16), b.BV(0, 64)}
		name := "List.Front"
		if full != "(*container/list.List).Front" {
			name = "List.Next"
			st.assume(b.Ne(e, T(0)))
			of = st.read("list.of", 32, kScalar, T(0))
			in = b.Ne(of, b.BV(0, 32))
			v = st.load(&LocV{Prefix: "list.Element.Value", Idx: []*Term{T(0)}, T: ifc})
			st.assume(b.Implies(b.Not(in), b.Eq(e, b.BV(0, 32))))
		}
		st.emit(&Event{Name: name, Recv: args[0], Args: []Val{in, v}, Types: []types.Type{types.Typ[types.Bool], ifc}, Res: e, ResT: fn.Signature.Results().At(0).Type(), Pos: pos})
		st.assume(b.Implies(b.Ne(e, b.BV(0, 32)), b.Eq(st.read("list.of", 32, kScalar, e), of)))
		st.markDyn()
		k(st, e)
		return true
	case "(*container/list.List).Init":
		st.emit(&Event{Name: "List.Init", Recv: args[0], Pos: pos})
		k(st, args[0])
		return true
	// state machine
	case "github.com/singchia/yafsm.NewFSM":
		r := st.newRef()
		k(st, r)
		return true
	case "(*github.com/singchia/yafsm.FSM).AddState":
		s := st.newRef()
		st.write("fsm.stname", 32, kStr, T(1), s)
		k(st, s)
		return true
	case "(*github.com/singchia/yafsm.FSM).SetState":
		st.write("fsm.state", 32, kStr, T(1), T(0))
		k(st, st.newRef())
		return true
	case "(*github.com/singchia/yafsm.FSM).AddEvent":
		f := st.simp(T(0))
		if st.u.fsmMode {
			f = b.BV(0, 32)
		} else if !isC(f) {
			unsup("AddEvent on unknown state machine")
		}
		tr := fsmTrans{ev: T(1), from: st.read("fsm.stname", 32, kStr, T(2)), to: st.read("fsm.stname", 32, kStr, T(3))}
		vs := st.sliceElems(args[4].(*SliceV), fn.Signature.Params().At(3).Type().(*types.Slice).Elem(), st.mem)
		tr.hs = vs
		st.fsmT[f.V] = append(append([]fsmTrans(nil), st.fsmT[f.V]...), tr)
		k(st, &TupleV{[]Val{st.newRef(), nilErr(b)}})
		return true
	case "(*github.com/singchia/yafsm.FSM).State":
		k(st, st.read("fsm.state", 32, kStr, T(0)))
		return true
	case "(*github.com/singchia/yafsm.FSM).InStates":
		s := st.read("fsm.state", 32, kStr, T(0))
		var cs []*Term
		for _, v := range st.sliceElems(args[1].(*SliceV), types.Typ[types.String], st.mem) {
			cs = append(cs, b.Eq(s, v.(*Term)))
		}
		k(st, b.Or(cs...))
		return true
	case "(*github.com/singchia/yafsm.FSM).EmitEvent":
		st.emitFSM(T(0), T(1), k)
		return true
	case "(*github.com/singchia/yafsm.FSM).Close":
	case "strings.Contains":
		k(st, b.UF("strings.Contains", 0, T(0), T(1)))
		return true
	default:
		return false
	}
	k(st, nil)
	return true
}

func tagKey(k string) uint64 {
	tagMu.Lock()
	defer tagMu.Unlock()
	if v, ok := tagTab[k]; ok {
		return v
	}
	v := uint64(len(tagTab) + 1)
	tagTab[k] = v
	return v
}

// sprintf names the text of a formatted value: a function of the format and of the arguments, when
// these are plain values.
func (st *State) sprintf(format *Term, va Val, fn *ssa.Function) *Term {
	b := st.u.b
	f := st.simp(format)
	sl := va.(*SliceV)
	n := st.simp(sl.Len)
	var t *Term
	if isC(f) && isC(n) && n.V <= 8 {
		in := []*Term{f}
		ps := fn.Signature.Params()
		for _, v := range st.sliceElems(sl, ps.At(ps.Len()-1).Type().(*types.Slice).Elem(), st.mem) {
			iv := v.(*IfaceV)
			in = append(in, iv.Tag, iv.Pay)
		}
		t = b.UF(fmt.Sprintf("sprintf%d", n.V), 32, in...)
		st.u.note("formatted text depends on the format and the argument values only")
	} else {
		t = b.Fresh("sprintf", 32)
	}
	if isC(f) {
		if s, ok := strText(f.V); ok && s != "" && s[0] != '%' {
			st.assume(b.Ne(t, b.BV(0, 32)))
		}
	}
	return t
}

// sliceElems reads the elements of a slice of constant length.
func (st *State) sliceElems(s *SliceV, et types.Type, mem map[string]*MemLog) []Val {
	n := st.simp(s.Len)
	if !isC(n) {
		unsup("variadic call with unknown number of arguments")
	}
	var out []Val
	save := st.mem
	st.mem = mem
	for i := uint64(0); i < n.V; i++ {
		out = append(out, st.load(&LocV{Prefix: st.elemName(et), Idx: []*Term{s.Arr, st.u.b.Add(s.Off, st.u.b.BV(i, 64))}, T: et}))
	}
	st.mem = save
	return out
}

// rely values: others store any (or any non-nil) value between two atomic accesses
const (
	relyNonNil = ^uint64(0) - 1
	relyAny    = ^uint64(0)
)

func (st *State) relyChange(l *LocV, et types.Type) {
	n := st.u.rely[l.Prefix]
	if n < relyNonNil {
		return
	}
	v := st.freshVal("rely", et, false)
	if t, ok := v.(*Term); ok && n == relyNonNil {
		st.assume(st.u.b.Ne(t, st.u.b.BV(0, t.W)))
	}
	st.store(&LocV{l.Prefix, l.Idx, et}, v)
	st.u.note(fmt.Sprintf("other goroutines change %s only by atomic operations", l.Prefix))
}

// relyStep lets other goroutines advance a shared counter right after an atomic access to it.
func (st *State) relyStep(l *LocV, et types.Type) {
	n := st.u.rely[l.Prefix]
	if n == 0 || n >= relyNonNil {
		return
	}
	b := st.u.b
	old := st.load(l).(*Term)
	x := b.Fresh("rely", old.W)
	st.store(l, b.Add(old, b.Bin(OMul, x, b.BV(n, old.W))))
	st.u.note(fmt.Sprintf("other goroutines change %s only in steps of %d", l.Prefix, n))
}

// unixOf is the second of an instant; the clock is assumed to be in 1970..2106.
func (st *State) unixOf(t *Term) *Term {
	b := st.u.b
	s := b.UF("time.Unix", 64, t)
	st.assumeOnce(b.And(b.Bin(OSlt, b.BV(0, 64), s), b.Bin(OSlt, s, b.BV(1<<32, 64))))
	st.u.note("clock readings are between 1970 and 2106 (seconds fit 32 bits)")
	return s
}

func (st *State) onceDo(o, f Val, pos token.Pos, k func(st *State, v Val)) {
	b := st.u.b
	var l *LocV
	switch x := o.(type) {
	case *LocV:
		l = &LocV{Prefix: x.Prefix + ".once!done", Idx: x.Idx}
	case *Term:
		if y, ok := st.locs[x]; ok {
			l = &LocV{Prefix: y.Prefix + ".once!done", Idx: y.Idx}
		} else {
			l = &LocV{Prefix: "once!done", Idx: []*Term{x}}
		}
	}
	done := st.read(l.Prefix, 0, kScalar, l.Idx...)
	t := st.fnTarget(f, types.NewSignatureType(nil, nil, nil, nil, nil, false))
	st.fork([]alt{
		{b.Not(done), func(st *State) {
			st.write(l.Prefix, 0, kScalar, b.True, l.Idx...)
			st.emit(&Event{Name: "OnceRun", Recv: o, Pos: pos})
			st.call(t, nil, pos, func(st *State, v Val) { k(st, nil) })
		}},
		{done, func(st *State) {
			st.emit(&Event{Name: "OnceSkip", Recv: o, Pos: pos})
			k(st, nil)
		}},
	})
}

// state machine -------------------------------------------------------------------

func (st *State) fsmTable(f *Term) []fsmTrans {
	f = st.simp(f)
	if isC(f) {
		if t, ok := st.fsmT[f.V]; ok {
			return t
		}
	}
	if bd, ok := st.fsmOf[f]; ok {
		return st.bindTable(bd.tab, bd.owner.V, bd.owner.T)
	}
	if f.Op == OUF {
		name := f.N
		if i := strings.Index(name, "@"); i >= 0 {
			name = name[:i]
		}
		if tab := st.u.fsmTabs[name]; tab != nil {
			var owner Val
			if len(f.A) == 1 {
				owner = f.A[0]
			}
			return st.bindTable(tab, owner, nil)
		}
		unsup("no transition table for state machine %s", f.N)
	}
	unsup("unknown state machine %s", show(f))
	return nil
}

func (st *State) bindTable(tab []fsmEntry, owner Val, ot types.Type) []fsmTrans {
	b := st.u.b
	var out []fsmTrans
	for _, tr := range tab {
		n := fsmTrans{ev: b.BV(tr.ev, 32), from: b.BV(tr.from, 32), to: b.BV(tr.to, 32)}
		for _, h := range tr.hs {
			r := st.newRef()
			cl := &Closure{fn: h.fn}
			for _, fv := range h.fn.FreeVars {
				if ot != nil && !types.Identical(fv.Type(), ot) {
					p, ok := fv.Type().Underlying().(*types.Pointer)
					if !ok || !types.Identical(p.Elem(), ot) {
						unsup("a state machine handler captures a %s", fv.Type())
					}
					c := st.newRef()
					st.store(st.deref(c, ot), owner)
					cl.binds = append(cl.binds, c)
					continue
				}
				cl.binds = append(cl.binds, owner)
			}
			st.clos[r.V] = cl
			n.hs = append(n.hs, r)
		}
		out = append(out, n)
	}
	return out
}

func (st *State) emitFSM(f, ev *Term, k func(st *State, v Val)) {
	b := st.u.b
	tab := st.fsmTable(f)
	cur := st.simp(st.read("fsm.state", 32, kStr, f))
	ev = st.simp(ev)
	var alts []alt
	none := b.True
	known := b.False
	for _, tr := range tab {
		tr := tr
		evc := b.Eq(ev, tr.ev)
		if evc == b.False {
			continue
		}
		known = b.Or(known, evc)
		c := b.And(evc, b.Eq(cur, tr.from), none)
		none = b.And(none, b.Not(b.And(evc, b.Eq(cur, tr.from))))
		alts = append(alts, alt{c, func(st *State) {
			st.write("fsm.state", 32, kStr, tr.to, f)
			st.emit(&Event{Name: "FSM", Recv: f, Args: []Val{ev, cur, tr.to}, Types: []types.Type{types.Typ[types.String], types.Typ[types.String], types.Typ[types.String]}})
			st.runAll(tr.hs, func(st *State) { k(st, nilErr(b)) })
		}})
	}
	e1 := st.u.globalErr("global:yafsm.ErrIllegalStateForEvent")
	e2 := st.u.globalErr("global:yafsm.ErrEventNotExist")
	alts = append(alts, alt{none, func(st *State) {
		st.emit(&Event{Name: "FSMErr", Recv: f, Args: []Val{ev, cur}, Types: []types.Type{types.Typ[types.String], types.Typ[types.String]}})
		k(st, &IfaceV{e1.Tag, b.Ite(known, e1.Pay, e2.Pay)})
	}})
	st.fork(alts)
}

func (st *State) runAll(hs []Val, k func(st *State)) {
	if len(hs) == 0 {
		k(st)
		return
	}
	t := st.fnTarget(hs[0], types.NewSignatureType(nil, nil, nil, nil, nil, false))
	var args []Val
	if t.fn != nil {
		for _, p := range t.fn.Params {
			args = append(args, st.freshVal("fsmarg", p.Type(), false))
		}
	}
	st.call(t, args, token.NoPos, func(st *State, v Val) { st.runAll(hs[1:], k) })
}

// readers -------------------------------------------------------------------------

type ghostReader struct {
	at func(k *Term) *Term
	n  *Term
}

func (st *State) readFull(r *IfaceV, buf *SliceV, pos token.Pos, k func(st *State, v Val)) {
	b := st.u.b
	id := b.Extract(r.Pay, 31, 0)
	p := st.read("ghost.rpos", 64, kScalar, id)
	var at func(i *Term) *Term
	var n *Term
	if isC(id) {
		if g, ok := st.readers[id.V]; ok {
			at, n = g.at, g.n
		}
	}
	if at == nil {
		at = func(i *Term) *Term { return b.UF("rdbyte", 8, r.Tag, r.Pay, i) }
		n = b.UF("rdlen", 64, r.Tag, r.Pay)
		st.assumeOnce(b.And(b.Bin(OSle, b.BV(0, 64), n), b.Bin(OSlt, n, b.BV(maxLen, 64))))
	}
	st.assumeOnce(b.And(b.Bin(OSle, b.BV(0, 64), p), b.Bin(OSle, p, b.BV(maxLen, 64))))
	np := b.Add(p, buf.Len)
	ok := b.Bin(OSle, np, n)
	z := b.Eq(buf.Len, b.BV(0, 64))
	st.fork([]alt{
		{b.Or(z, ok), func(st *State) {
			st.writeRange("arr:byte", 8, kScalar, buf.Arr, buf.Off, buf.Len, func(i *Term) *Term { return at(b.Add(p, i)) })
			st.write("ghost.rpos", 64, kScalar, np, id)
			st.emit(&Event{Name: "io.ReadFull", Recv: r, Args: []Val{buf}, Types: []types.Type{types.NewSlice(types.Typ[types.Byte])}, Res: &TupleV{[]Val{buf.Len, nilErr(b)}}, Pos: pos})
			k(st, &TupleV{[]Val{buf.Len, nilErr(b)}})
		}},
		{b.And(b.Not(z), b.Not(ok)), func(st *State) {
			m := b.Fresh("short", 64)
			st.assume(b.And(b.Bin(OSle, b.BV(0, 64), m), b.Bin(OSlt, m, buf.Len)))
			st.havoc("arr:byte", buf.Arr)
			st.write("ghost.rpos", 64, kScalar, n, id)
			e := st.freshErr("readerr")
			st.emit(&Event{Name: "io.ReadFull", Recv: r, Args: []Val{buf}, Types: []types.Type{types.NewSlice(types.Typ[types.Byte])}, Res: &TupleV{[]Val{m, e}}, Pos: pos})
			k(st, &TupleV{[]Val{m, e}})
		}},
	})
}

// json ----------------------------------------------------------------------------

type jleaf struct {
	path  string
	t     types.Type
	get   func(v Val) Val
	idx   []int
	omit  bool
	bytes bool
}

func jleaves(t types.Type) []jleaf {
	var out []jleaf
	var rec func(t types.Type, path string, idx []int, omit bool)
	rec = func(t types.Type, path string, idx []int, omit bool) {
		idx = append([]int(nil), idx...)
		if isTime(t) {
			out = append(out, jleaf{path: path, t: t, idx: idx})
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				tag := reflect.StructTag(u.Tag(i)).Get("json")
				if !f.Exported() || tag == "-" {
					continue
				}
				rec(f.Type(), path+"."+f.Name(), append(idx, i), strings.Contains(tag, "omitempty"))
			}
		case *types.Basic:
			if u.Info()&types.IsFloat != 0 {
				unsup("json of %s", t)
			}
			out = append(out, jleaf{path: path, t: t, idx: idx, omit: omit})
		case *types.Slice:
			if !isByteSlice(t) {
				unsup("json of %s", t)
			}
			out = append(out, jleaf{path: path, t: t, idx: idx, omit: omit, bytes: true})
		default:
			unsup("json of %s", t)
		}
	}
	rec(t, "", nil, false)
	return out
}

func fieldPath(v Val, idx []int) Val {
	for _, i := range idx {
		v = v.(*StructV).F[i]
	}
	return v
}

func locPath(l *LocV, idx []int) *LocV {
	for _, i := range idx {
		f := l.T.Underlying().(*types.Struct).Field(i)
		l = &LocV{Prefix: l.Prefix + "." + f.Name(), Idx: l.Idx, T: f.Type()}
	}
	return l
}

func (st *State) jsonTarget(iv *IfaceV) (types.Type, Val, *LocV) {
	tag := st.simp(iv.Tag)
	if !isC(tag) || typeOfTag(tag.V) == nil {
		unsup("json of unknown type")
	}
	t := typeOfTag(tag.V)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		v := st.unbox(iv, t)
		st.nilCheck(v, "json")
		return p.Elem(), nil, st.deref(v, p.Elem())
	}
	return t, st.unbox(iv, t), nil
}

func (st *State) jsonMarshal(iv *IfaceV, k func(st *State, v Val)) {
	b := st.u.b
	t, v, l := st.jsonTarget(iv)
	if l != nil {
		v = st.load(&LocV{l.Prefix, l.Idx, t})
	}
	ls := jleaves(t)
	tk := typeKey(t)
	st.u.note("encoding/json: Unmarshal of Marshal(v) gives back the exported fields of v (text fields valid UTF-8, times as instants)")
	j := b.Fresh("json", 32)
	n := b.UF("strlen", 64, j)
	okc := b.Fresh("jsonok", 0)
	st.fork([]alt{
		{okc, func(st *State) {
			for _, lf := range ls {
				x := fieldPath(v, lf.idx)
				if lf.bytes {
					s := x.(*SliceV)
					q := st.seqOf(s)
					st.assume(b.Eq(b.UF("jdec:"+tk+lf.path, 32, j), q))
					nl := b.Eq(s.Arr, b.BV(0, 32))
					if lf.omit {
						nl = b.Eq(s.Len, b.BV(0, 64))
					}
					st.assume(b.Eq(b.UF("jnil:"+tk+lf.path, 0, j), nl))
				} else {
					xt := x.(*Term)
					st.assume(b.Eq(b.UF("jdec:"+tk+lf.path, xt.W, j), xt))
				}
			}
			st.assume(b.And(b.UF("jok:"+tk, 0, j), b.Bin(OSle, b.BV(2, 64), n), b.Bin(OSlt, n, b.BV(1<<31, 64))))
			st.addSeq(&seqReg{id: j, n: n, at: func(i *Term) *Term { return b.UF("seqat", 8, j, i) }})
			r := st.newRef()
			z := b.BV(0, 64)
			st.writeRange("arr:byte", 8, kScalar, r, z, n, func(i *Term) *Term { return b.UF("seqat", 8, j, i) })
			c := b.Fresh("cap", 64)
			st.assume(b.And(b.Bin(OSle, n, c), b.Bin(OSlt, c, b.BV(maxLen, 64))))
			k(st, &TupleV{[]Val{&SliceV{r, z, n, c}, nilErr(b)}})
		}},
		{b.Not(okc), func(st *State) {
			z := b.BV(0, 64)
			k(st, &TupleV{[]Val{&SliceV{b.BV(0, 32), z, z, z}, st.freshErr("jsonerr")}})
		}},
	})
}

func isZeroVal(st *State, v Val) bool {
	if s, ok := v.(*SliceV); ok {
		l := st.simp(s.Len)
		return isC(l) && l.V == 0
	}
	for _, t := range st.flatten(v) {
		t = st.simp(t)
		if !isC(t) || t.V != 0 {
			return false
		}
	}
	return true
}

func (st *State) jsonUnmarshal(data *SliceV, iv *IfaceV, k func(st *State, v Val)) {
	b := st.u.b
	t, _, l := st.jsonTarget(iv)
	if l == nil {
		unsup("json.Unmarshal into non-pointer")
	}
	ls := jleaves(t)
	tk := typeKey(t)
	q := st.seqOf(data)
	ok := b.UF("jok:"+tk, 0, q)
	st.fork([]alt{
		{ok, func(st *State) {
			st.assume(b.Bin(OSlt, b.BV(0, 64), data.Len)) // empty input is not valid JSON
			for _, lf := range ls {
				dst := locPath(&LocV{l.Prefix, l.Idx, t}, lf.idx)
				cur := st.load(dst)
				if !isZeroVal(st, cur) {
					st.store(dst, st.freshVal("jsonmix", lf.t, false))
					continue
				}
				if lf.bytes {
					d := b.UF("jdec:"+tk+lf.path, 32, q)
					nl := b.UF("jnil:"+tk+lf.path, 0, q)
					st.regStr(d)
					n := st.strLen(d)
					var at func(k *Term) *Term
					for _, r := range st.seqs {
						if r.id == d {
							at = r.at
						}
					}
					// a decoded byte field is shorter than the text it was decoded from
					st.assumeOnce(b.Bin(OSle, n, data.Len))
					r := st.newRef()
					z := b.BV(0, 64)
					st.writeRange("arr:byte", 8, kScalar, r, z, n, at)
					st.assume(b.Implies(nl, b.Eq(n, z)))
					st.store(dst, &SliceV{b.Ite(nl, b.BV(0, 32), r), z, n, n})
				} else {
					w := leaves(lf.t)[0].w
					st.store(dst, b.UF("jdec:"+tk+lf.path, w, q))
				}
			}
			k(st, nilErr(b))
		}},
		{b.Not(ok), func(st *State) {
			for _, lf := range ls {
				dst := locPath(&LocV{l.Prefix, l.Idx, t}, lf.idx)
				st.store(dst, st.freshVal("jsonerrval", lf.t, false))
			}
			k(st, st.freshErr("jsonerr"))
		}},
	})
}

// timeSub is the saturating difference of two times
func (st *State) timeSub(x, y *Term) *Term {
	b := st.u.b
	d := b.Sub(x, y)
	z := b.BV(0, 64)
	over := b.Ne(b.Bin(OSlt, x, y), b.Bin(OSlt, d, z))
	return b.Ite(over, b.Ite(b.Bin(OSlt, x, y), b.BV(1<<63, 64), b.BV(1<<63-1, 64)), d)
}
