package main

// Symbolic execution of the SSA form of /repo's functions. Every path of a unit is followed;
// loops are cut by inductive invariants (see loops.go), calls to module functions are
// followed into their bodies, everything outside the module is an intrinsic, or an event with
// unconstrained results.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Event struct {
	Name  string
	Recv  Val
	Args  []Val
	Types []types.Type
	Res   Val
	ResT  types.Type
	Fn    *ssa.Function
	Mem   map[string]*MemLog
	Locks map[string]int
	Pos   token.Pos
	Set   map[string]bool // LoopMark: names of events the loop may emit
	Idx   int
}

type Closure struct {
	fn    *ssa.Function
	binds []Val
}

type deferred struct {
	c    *target
	args []Val
}

type target struct {
	fn      *ssa.Function // static callee (module or external)
	binds   []Val
	builtin string
	name    string // event name for interface methods / unknown function values
	recv    Val
	recvT   types.Type
	sig     *types.Signature
	method  *types.Func
	fnval   *Term
}

type Frame struct {
	fn     *ssa.Function
	regs   map[ssa.Value]Val
	blk    *ssa.BasicBlock
	prev   *ssa.BasicBlock
	ip     int
	defers []*deferred
	onRet  func(st *State, v Val)
	visits map[int]int
	dyn    map[int]bool // headers whose condition was not constant
	lockIn map[string]int
	unwind bool // a function supplied by the user panicked
}

type fsmTrans struct {
	ev, from, to *Term
	hs           []Val
}

type cutActive struct {
	key    cutKey
	depth  int
	ser    int
	nf     uint64
	ci     *CutInfo
	locks  string
	evAt   int
	body   map[int]bool
	hdr    *ssa.BasicBlock
	entry  map[ssa.Value]Val
	candFn []func(st *State) *Term
}

type State struct {
	u         *Unit
	pc        []*Term
	subst     map[*Term]*Term
	mem       map[string]*MemLog
	memShared bool
	locs      map[*Term]*LocV
	ev        []*Event
	fr        []*Frame
	nfresh    uint64
	locks     map[string]int
	locking   bool   // a first acquisition is under way
	lockingK  string // of this lock
	mapAcc    *Term
	locAcc    *LocV
	mapWrite  bool
	inDuring  bool
	clos      map[uint64]*Closure
	fsmOf     map[*Term]fsmBind
	fsmT      map[uint64][]fsmTrans
	env       map[string]TV
	pre       map[string]*MemLog
	cuts      []*cutActive
	step      int // script index
	done      bool
	evBase    int
	ghost     map[string]Val
	once      map[string]bool
	activ     int
	assumed   map[*Term]bool
	seqs      []*seqReg
	readers   map[uint64]*ghostReader
	ended     map[int]*Term // whether a context was done when its error was last asked for
	lockBase  map[string]int
	trace     []string

	taint       string // a function outside what is modelled was called on this path
	speculative bool   // a branch is being tried for merging
}

type specFail struct{}

// mergeIf executes a branch that only assigns fields as conditional assignments, so that the
// path does not fork: the then (or else) block must be straight-line loads and stores.
func (st *State) mergeIf(blk *ssa.BasicBlock, c *Term) (ok bool) {
	b := st.u.b
	for k := 0; k < 2; k++ {
		body, join := blk.Succs[k], blk.Succs[1-k]
		if len(body.Preds) != 1 || len(body.Succs) != 1 || body.Succs[0] != join || st.u.loopsOf(st.top().fn)[body.Index] != nil {
			continue
		}
		if len(join.Instrs) > 0 {
			if _, phi := join.Instrs[0].(*ssa.Phi); phi {
				continue
			}
		}
		plain := true
		for i, in := range body.Instrs {
			switch y := in.(type) {
			case *ssa.FieldAddr, *ssa.Store, *ssa.DebugRef:
			case *ssa.UnOp:
				plain = plain && y.Op == token.MUL
			case *ssa.Jump:
				plain = plain && i == len(body.Instrs)-1
			default:
				plain = false
			}
		}
		if !plain {
			continue
		}
		cond := c
		if k == 1 {
			cond = b.Not(c)
		}
		n := st.clone()
		if !n.tryBlock(body, cond) {
			continue
		}
		type wr struct {
			name string
			l    *MemLog
		}
		var ws []wr
		good := true
		for name, l := range n.mem {
			base := st.mem[name]
			var rev []wr
			for p := l; p != base; p = p.prev {
				if p == nil || p.kind != mWrite {
					good = false
					break
				}
				rev = append(rev, wr{name, p})
			}
			for i := len(rev) - 1; i >= 0; i-- {
				ws = append(ws, rev[i])
			}
		}
		if !good {
			continue
		}
		sort.SliceStable(ws, func(i, j int) bool { return ws[i].name < ws[j].name })
		for _, w := range ws {
			mi := st.u.minfo[w.name]
			old := st.read(w.name, mi.w, mi.kind, w.l.idx...)
			st.write(w.name, mi.w, mi.kind, b.Ite(cond, w.l.val, old), w.l.idx...)
		}
		st.jump(blk, join)
		return true
	}
	return false
}

func (n *State) tryBlock(body *ssa.BasicBlock, cond *Term) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case specFail, pathEnd:
				ok = false
				return
			}
			panic(r)
		}
	}()
	n.speculative = true
	ne := len(n.ev)
	n.assume(cond)
	f := n.top()
	f.prev, f.blk, f.ip = f.blk, body, 0
	for f.ip < len(body.Instrs)-1 {
		n.instr()
		if n.done || n.top() != f {
			return false
		}
	}
	return len(n.ev) == ne
}

type restart struct{}
type pathEnd struct{}

func (st *State) clone() *State {
	n := *st
	n.pc = append([]*Term(nil), st.pc...)
	n.subst = make(map[*Term]*Term, len(st.subst)+4)
	for k, v := range st.subst {
		n.subst[k] = v
	}
	st.memShared = true
	n.memShared = true
	n.ev = append([]*Event(nil), st.ev...)
	n.fr = make([]*Frame, len(st.fr))
	for i, f := range st.fr {
		g := *f
		g.regs = make(map[ssa.Value]Val, len(f.regs)+4)
		for k, v := range f.regs {
			g.regs[k] = v
		}
		g.defers = append([]*deferred(nil), f.defers...)
		g.visits = copyM(f.visits)
		g.dyn = copyM(f.dyn)
		n.fr[i] = &g
	}
	n.locks = copyM(st.locks)
	n.clos = copyM(st.clos)
	n.fsmT = copyM(st.fsmT)
	n.env = copyM(st.env)
	n.ghost = copyM(st.ghost)
	n.once = copyM(st.once)
	n.assumed = copyM(st.assumed)
	n.cuts = append([]*cutActive(nil), st.cuts...)
	n.seqs = append([]*seqReg(nil), st.seqs...)
	n.readers = copyM(st.readers)
	n.ended = copyM(st.ended)
	n.trace = append([]string(nil), st.trace...)
	return &n
}

func copyM[K comparable, V any](m map[K]V) map[K]V {
	n := make(map[K]V, len(m)+2)
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (st *State) top() *Frame { return st.fr[len(st.fr)-1] }

func (st *State) b() *B { return st.u.b }

// facts ------------------------------------------------------------------------

func (st *State) simp(t *Term) *Term {
	if isC(t) || len(st.subst) == 0 {
		return t
	}
	for i := 0; i < 3; i++ {
		n := st.u.b.Subst(t, st.subst)
		if n == t {
			return t
		}
		t = n
		if isC(t) {
			return t
		}
	}
	return t
}

func (st *State) assumeOnce(t *Term) {
	if isC(t) && t.V != 0 {
		return
	}
	if st.assumed[t] {
		return
	}
	st.assumed[t] = true
	st.assume(t)
}

func (st *State) assume(t *Term) {
	if isC(t) {
		if t.V == 0 {
			panic(pathEnd{})
		}
		return
	}
	st.pc = append(st.pc, t)
	st.learn(t)
}

func (st *State) learn(t *Term) {
	b := st.u.b
	switch t.Op {
	case OAnd:
		for _, a := range t.A {
			st.learn(a)
		}
		return
	case ONot:
		if t.A[0].Op == OAnd {
			// disjunction: nothing to split
			st.subst[t.A[0]] = b.False
			return
		}
		st.subst[t.A[0]] = b.False
		if t.A[0].Op == OEq && t.A[0].A[0].W == 0 {
			x, y := t.A[0].A[0], t.A[0].A[1]
			_ = x
			_ = y
		}
		return
	case OEq:
		x, y := t.A[0], t.A[1]
		if isC(x) && !isC(y) {
			st.subst[y] = x
		} else if isC(y) && !isC(x) {
			st.subst[x] = y
		}
	}
	st.subst[t] = b.True
}

// decide gives True/False if the condition is determined on this path, else nil.
func (st *State) decide(c *Term) *Term {
	c = st.simp(c)
	if isC(c) {
		return c
	}
	return nil
}

// feasible asks the solver whether the path condition allows c.
func (st *State) feasible(c *Term) bool {
	c = st.simp(c)
	if isC(c) {
		return c.V != 0
	}
	r := st.u.query(append(append([]*Term(nil), st.pc...), c), st.u.feasMS)
	return r != "unsat"
}

type alt struct {
	cond *Term
	do   func(st *State)
}

// fork continues execution with every feasible alternative.
func (st *State) fork(alts []alt) {
	var live []alt
	for _, a := range alts {
		c := st.simp(a.cond)
		if isC(c) && c.V == 0 {
			continue
		}
		live = append(live, alt{c, a.do})
	}
	var ok []alt
	for _, a := range live {
		if isC(a.cond) || st.feasible(a.cond) {
			ok = append(ok, a)
		}
	}
	if len(ok) == 0 {
		st.done = true
		return
	}
	st.u.forks += len(ok) - 1
	for i := len(ok) - 1; i >= 1; i-- {
		a := ok[i]
		n := st.clone()
		n.runAlt(a)
		if !n.done {
			st.u.work = append(st.u.work, n)
		}
	}
	st.runAlt(ok[0])
}

func (st *State) runAlt(a alt) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(pathEnd); ok {
				st.done = true
				return
			}
			panic(r)
		}
	}()
	st.assume(a.cond)
	a.do(st)
}

// objects ----------------------------------------------------------------------

func (st *State) newRef() *Term {
	r := st.u.b.BV(freshBase+st.nfresh, 32)
	st.nfresh++
	return r
}

func (st *State) emit(e *Event) *Event {
	st.memShared = true
	e.Mem = st.mem
	e.Locks = copyM(st.locks)
	e.Idx = len(st.ev)
	st.ev = append(st.ev, e)
	if len(st.fr) > 0 {
		f := st.top()
		if e.Pos == token.NoPos && f.ip < len(f.blk.Instrs) {
			e.Pos = f.blk.Instrs[f.ip].Pos()
		}
	}
	st.noteEvent(e.Name)
	st.give(e)
	return e
}

// give assumes what the contract takes as given about an event.
func (st *State) give(e *Event) {
	if len(st.u.givens) > 0 && !st.u.giving {
		st.u.giving = true
		defer func() { st.u.giving = false }()
		for _, g := range st.u.givens {
			np := st.u.nopanic
			st.u.nopanic = false
			var t *Term
			if st.guard(func() { t = st.evalBool(g.expr, e.Idx, e.Idx+1) }) == "" && t != nil {
				st.assume(t)
			}
			st.u.nopanic = np
		}
	}
}

// running ------------------------------------------------------------------------

func (st *State) run() {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(pathEnd); ok {
				st.done = true
				return
			}
			panic(r)
		}
	}()
	for !st.done {
		if st.u.deadline.Before(time.Now()) {
			unsup("time limit for unit reached")
		}
		if len(st.fr) == 0 {
			st.scriptStep()
			continue
		}
		st.u.steps++
		if st.u.again && len(st.cuts) == 0 {
			panic(restart{})
		}
		if st.top().unwind {
			st.unwindStep()
			continue
		}
		st.instr()
	}
}

func (st *State) pushFrame(fn *ssa.Function, args, binds []Val, onRet func(st *State, v Val)) {
	if len(fn.Blocks) == 0 {
		unsup("no body for %s", fn)
	}
	if len(st.fr) > 60 {
		unsup("call depth at %s", fn)
	}
	f := &Frame{fn: fn, regs: map[ssa.Value]Val{}, blk: fn.Blocks[0], onRet: onRet, visits: map[int]int{}, dyn: map[int]bool{}}
	for i, p := range fn.Params {
		f.regs[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		f.regs[p] = binds[i]
	}
	st.u.inlined[fn.String()] = true
	st.fr = append(st.fr, f)
	st.enterBlock(fn.Blocks[0], nil)
}

func (st *State) set(v ssa.Value, x Val) { st.top().regs[v] = x }

func (st *State) val(v ssa.Value) Val {
	b := st.u.b
	switch x := v.(type) {
	case *ssa.Const:
		return st.constVal(x)
	case *ssa.Global:
		return st.globalLoc(x)
	case *ssa.Function:
		return b.BV(st.u.p.funcID(x), 32)
	}
	r, ok := st.top().regs[v]
	if !ok {
		unsup("no value for %s in %s", v.Name(), st.top().fn)
	}
	return r
}

func (st *State) globalLoc(x *ssa.Global) Val {
	et := x.Type().(*types.Pointer).Elem()
	return &LocV{Prefix: "global:" + x.Pkg.Pkg.Path() + "." + x.Name(), T: et}
}

func (st *State) constVal(c *ssa.Const) Val {
	b := st.u.b
	t := c.Type()
	if c.Value == nil {
		return st.zero(t)
	}
	return constOf(b, t, c.Value)
}

func constOf(b *B, t types.Type, v constant.Value) Val {
	bt, ok := t.Underlying().(*types.Basic)
	if !ok {
		unsup("const type %s", t)
	}
	switch {
	case bt.Info()&types.IsBoolean != 0:
		return b.Bool(constant.BoolVal(v))
	case bt.Info()&types.IsString != 0:
		return b.BV(internStr(constant.StringVal(v)), 32)
	case bt.Info()&types.IsInteger != 0:
		w := intWidth(bt)
		i := constant.ToInt(v)
		if n, ok := constant.Int64Val(i); ok {
			return b.BV(uint64(n), w)
		}
		n, _ := constant.Uint64Val(i)
		return b.BV(n, w)
	case bt.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(v)
		return b.BV(math.Float64bits(f), 64)
	}
	unsup("const %s", t)
	return nil
}

func (st *State) term(v ssa.Value) *Term {
	switch x := st.val(v).(type) {
	case *Term:
		return x
	case *LocV:
		return st.reify(x)
	default:
		unsup("term of %T (%s)", x, v)
	}
	return nil
}

// nopanicVC records an obligation that the condition holds and assumes it afterwards.
func (st *State) nopanic(what string, c *Term) {
	c = st.simp(c)
	if isC(c) && c.V != 0 {
		return
	}
	if st.speculative {
		panic(specFail{})
	}
	if st.u.nopanic {
		pos := ""
		if len(st.fr) > 0 {
			pos = st.u.pos(st.curPos())
		}
		st.u.oblige(st, "nopanic", what+" in "+shortFn(st.top().fn), c, pos)
	}
	if isC(c) && c.V == 0 {
		panic(pathEnd{})
	}
	st.assume(c)
}

// counts says whether the value is a loop's counter: of a range, or one that starts somewhere and goes up by one.
func counts(v ssa.Value) bool {
	if bo, ok := v.(*ssa.BinOp); ok {
		p, ok := bo.X.(*ssa.Phi)
		return ok && p.Comment == "rangeindex"
	}
	if p, ok := v.(*ssa.Phi); ok {
		for _, e := range p.Edges {
			if bo, ok := e.(*ssa.BinOp); ok && bo.Op == token.ADD && bo.X == ssa.Value(p) {
				return true
			}
		}
	}
	return false
}

func sameSl(x, y Val) bool {
	a, ok := x.(*SliceV)
	c, ok2 := y.(*SliceV)
	return ok && ok2 && a.Arr == c.Arr && a.Off == c.Off && a.Len == c.Len
}

// notClosed obliges that this path has not closed the channel before; what other goroutines close is up to the contracts of
// who closes what.
func (st *State) notClosed(what string, ch *Term) {
	for _, e := range st.ev {
		if e.Name == "CloseCh" {
			st.nopanic(what, st.u.b.Ne(ch, e.Recv.(*Term)))
		}
	}
}

func (st *State) curPos() token.Pos {
	for i := len(st.fr) - 1; i >= 0; i-- {
		f := st.fr[i]
		if f.ip < len(f.blk.Instrs) {
			if p := f.blk.Instrs[f.ip].Pos(); p != token.NoPos {
				return p
			}
		}
	}
	return token.NoPos
}

func shortFn(f *ssa.Function) string {
	return strings.ReplaceAll(f.String(), "github.com/singchia/geminio", "g")
}

func (st *State) nilCheck(v Val, what string) {
	if t, ok := v.(*Term); ok {
		if _, ok := st.locs[t]; ok {
			return
		}
		st.nopanic("nil dereference ("+what+")", st.b().Ne(t, st.b().BV(0, 32)))
	}
}

func (st *State) instr() {
	f := st.top()
	in := f.blk.Instrs[f.ip]
	b := st.u.b
	next := func() { f.ip++ }
	switch x := in.(type) {
	case *ssa.DebugRef:
		next()
	case *ssa.Alloc:
		et := x.Type().(*types.Pointer).Elem()
		r := st.newRef()
		_ = et
		st.set(x, r)
		next()
	case *ssa.FieldAddr:
		base := st.val(x.X)
		stt := x.X.Type().Underlying().(*types.Pointer).Elem()
		st.nilCheck(base, "field "+fieldName(stt, x.Field))
		l := st.deref(base, stt)
		u := stt.Underlying().(*types.Struct)
		fl := u.Field(x.Field)
		st.set(x, &LocV{Prefix: l.Prefix + "." + fl.Name(), Idx: l.Idx, T: fl.Type()})
		next()
	case *ssa.Field:
		s, ok := st.val(x.X).(*StructV)
		if !ok {
			unsup("field of %T", st.val(x.X))
		}
		st.set(x, s.F[x.Field])
		next()
	case *ssa.IndexAddr:
		st.indexAddr(x)
		next()
	case *ssa.Index:
		unsup("index of array value")
	case *ssa.UnOp:
		st.unop(x)
	case *ssa.BinOp:
		st.set(x, st.binop(x.Op, st.val(x.X), st.val(x.Y), x.X.Type(), x.Y.Type()))
		next()
	case *ssa.Store:
		addr := st.val(x.Addr)
		et := x.Addr.Type().Underlying().(*types.Pointer).Elem()
		st.nilCheck(addr, "store")
		l := st.deref(addr, et)
		st.locAccess(l, true)
		st.store(&LocV{Prefix: l.Prefix, Idx: l.Idx, T: et}, st.val(x.Val))
		next()
	case *ssa.ChangeType:
		st.set(x, st.val(x.X))
		next()
	case *ssa.ChangeInterface:
		st.set(x, st.val(x.X))
		next()
	case *ssa.Convert:
		next()
		st.convert(x)
	case *ssa.MakeInterface:
		st.set(x, st.makeIface(st.val(x.X), x.X.Type()))
		next()
	case *ssa.MakeClosure:
		r := st.newRef()
		cl := &Closure{fn: x.Fn.(*ssa.Function)}
		for _, bd := range x.Bindings {
			cl.binds = append(cl.binds, st.val(bd))
		}
		st.clos[r.V] = cl
		st.set(x, r)
		next()
	case *ssa.MakeMap:
		st.set(x, st.newRef())
		next()
	case *ssa.MakeChan:
		r := st.newRef()
		st.emit(&Event{Name: "MakeChan", Recv: r, Args: []Val{st.val(x.Size)}, Types: []types.Type{x.Size.Type()}})
		st.set(x, r)
		next()
	case *ssa.MakeSlice:
		n := b.Sext(st.term(x.Len), 64)
		c := b.Sext(st.term(x.Cap), 64)
		if bt, ok := x.Len.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsUnsigned != 0 {
			n = b.Zext(st.term(x.Len), 64)
			c = b.Zext(st.term(x.Cap), 64)
		}
		st.nopanic("makeslice length", b.And(b.Bin(OSle, b.BV(0, 64), n), b.Bin(OSle, n, c), b.Bin(OSlt, c, b.BV(maxLen, 64))))
		r := st.newRef()
		s := &SliceV{r, b.BV(0, 64), n, c}
		st.emit(&Event{Name: "MakeSlice", Recv: s, Args: []Val{n, c}, Types: []types.Type{types.Typ[types.Int], types.Typ[types.Int]}})
		st.set(x, s)
		next()
	case *ssa.Slice:
		st.slice(x)
		next()
	case *ssa.Lookup:
		st.lookup(x)
	case *ssa.MapUpdate:
		m := st.term(x.Map)
		mt := x.Map.Type().Underlying().(*types.Map)
		st.nopanic("assignment to nil map", b.Ne(m, b.BV(0, 32)))
		st.mapAccess(m, true)
		st.mapSet(m, mt, st.val(x.Key), st.val(x.Value))
		st.emit(&Event{Name: "MapSet", Recv: m, Args: []Val{st.val(x.Key), st.val(x.Value)}, Types: []types.Type{mt.Key(), mt.Elem()}, Pos: x.Pos()})
		next()
	case *ssa.Range:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			st.mapAccess(st.term(x.X), false)
		}
		st.set(x, &IterV{M: st.val(x.X), T: x.X.Type()})
		next()
	case *ssa.Next:
		st.nextIter(x)
	case *ssa.Extract:
		t, ok := st.val(x.Tuple).(*TupleV)
		if !ok {
			unsup("extract of %T", st.val(x.Tuple))
		}
		st.set(x, t.V[x.Index])
		next()
	case *ssa.TypeAssert:
		st.typeAssert(x)
	case *ssa.Call:
		c, args := st.resolve(&x.Call)
		f.ip++
		reg := x
		st.call(c, args, x.Pos(), func(st *State, v Val) {
			st.top().regs[reg] = v
		})
	case *ssa.Defer:
		c, args := st.resolve(&x.Call)
		f.defers = append(f.defers, &deferred{c, args})
		next()
	case *ssa.RunDefers:
		if len(f.defers) == 0 {
			next()
			return
		}
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		st.call(d.c, d.args, x.Pos(), func(st *State, v Val) {})
	case *ssa.Go:
		c, args := st.resolve(&x.Call)
		e := &Event{Name: "Go", Args: args, Fn: c.fn, Pos: x.Pos()}
		if c.fn != nil {
			fv := st.newRef()
			// wrap target and arguments so that the activation can be run later
			st.clos[fv.V] = &Closure{fn: c.fn, binds: append(append([]Val{goMark{}}, c.binds...), args...)}
			e.Recv = fv
			e.Args = args
			for _, p := range c.fn.Params {
				e.Types = append(e.Types, p.Type())
			}
			e.Set = map[string]bool{fnKey(c.fn): true}
		}
		st.emit(e)
		next()
		if st.u.goInline && c.fn != nil && len(c.fn.Blocks) > 0 {
			// run the goroutine where it is started: its own locks, its own return
			locks := st.locks
			st.locks = map[string]int{}
			st.pushFrame(c.fn, args, c.binds, func(st *State, v Val) {
				if st.u.lockVC {
					st.u.oblige(st, "lock", "no lock is held at return", st.u.b.Bool(lockStr(st.locks) == ""), lockStr(st.locks))
				}
				st.locks = copyM(locks)
			})
		}
	case *ssa.Panic:
		st.nopanic("explicit panic", b.False)
		panic(pathEnd{})
	case *ssa.Send:
		ch := st.term(x.Chan)
		st.notClosed("send on closed channel", ch)
		// outside a select it never returns
		st.nopanic("send on a nil channel", b.Ne(ch, b.BV(0, 32)))
		st.emit(&Event{Name: "Send", Recv: ch, Args: []Val{st.val(x.X)}, Types: []types.Type{x.X.Type()}})
		next()
	case *ssa.Select:
		st.selectInstr(x)
	case *ssa.If:
		c := st.simp(st.term(x.Cond))
		if !isC(c) && st.u.merge && st.mergeIf(f.blk, c) {
			return
		}
		if !isC(c) {
			st.markDyn()
		}
		blk := f.blk
		st.fork([]alt{
			{c, func(st *State) { st.jump(blk, blk.Succs[0]) }},
			{b.Not(c), func(st *State) { st.jump(blk, blk.Succs[1]) }},
		})
	case *ssa.Jump:
		st.jump(f.blk, f.blk.Succs[0])
	case *ssa.Return:
		var v Val
		switch len(x.Results) {
		case 0:
		case 1:
			v = st.val(x.Results[0])
		default:
			tv := &TupleV{}
			for _, r := range x.Results {
				tv.V = append(tv.V, st.val(r))
			}
			v = tv
		}
		st.ret(v)
	default:
		unsup("instruction %T", in)
	}
}

type goMark struct{}

func fnKey(f *ssa.Function) string {
	s := f.String()
	s = strings.ReplaceAll(s, "github.com/singchia/geminio/", "")
	return s
}

func fieldName(t types.Type, i int) string {
	return t.Underlying().(*types.Struct).Field(i).Name()
}

func (st *State) ret(v Val) {
	f := st.top()
	d := len(st.fr)
	for len(st.cuts) > 0 && st.cuts[len(st.cuts)-1].depth >= d {
		st.cuts = st.cuts[:len(st.cuts)-1]
	}
	st.fr = st.fr[:d-1]
	if f.onRet != nil {
		f.onRet(st, v)
	}
}

func (st *State) indexAddr(x *ssa.IndexAddr) {
	b := st.u.b
	i := st.intTerm64(x.Index)
	switch t := x.X.Type().Underlying().(type) {
	case *types.Slice:
		s := st.val(x.X).(*SliceV)
		st.nopanic("index out of range", b.Bin(OUlt, i, s.Len))
		st.set(x, &LocV{Prefix: "arr:" + typeKey(t.Elem()), Idx: []*Term{s.Arr, b.Add(s.Off, i)}, T: t.Elem()})
	case *types.Pointer:
		at := t.Elem().Underlying().(*types.Array)
		r, ok := st.val(x.X).(*Term)
		if !ok {
			unsup("array field")
		}
		st.nopanic("index out of range", b.Bin(OUlt, i, b.BV(uint64(at.Len()), 64)))
		st.set(x, &LocV{Prefix: "arr:" + typeKey(at.Elem()), Idx: []*Term{r, i}, T: at.Elem()})
	default:
		unsup("indexaddr %s", x.X.Type())
	}
}

func (st *State) intTerm64(v ssa.Value) *Term {
	t := st.term(v)
	if isSigned(v.Type()) {
		return st.u.b.Sext(t, 64)
	}
	return st.u.b.Zext(t, 64)
}

func (st *State) slice(x *ssa.Slice) {
	b := st.u.b
	z := b.BV(0, 64)
	lo := z
	if x.Low != nil {
		lo = st.intTerm64(x.Low)
	}
	switch t := x.X.Type().Underlying().(type) {
	case *types.Slice:
		s := st.val(x.X).(*SliceV)
		hi := s.Len
		if x.High != nil {
			hi = st.intTerm64(x.High)
		}
		c := s.Cap
		if x.Max != nil {
			c = st.intTerm64(x.Max)
		}
		st.nopanic("slice bounds out of range", b.And(b.Bin(OSle, z, lo), b.Bin(OSle, lo, hi), b.Bin(OSle, hi, s.Cap)))
		st.set(x, &SliceV{s.Arr, b.Add(s.Off, lo), b.Sub(hi, lo), b.Sub(c, lo)})
	case *types.Pointer:
		at, ok := t.Elem().Underlying().(*types.Array)
		if !ok {
			unsup("slice of %s", x.X.Type())
		}
		r, ok := st.val(x.X).(*Term)
		if !ok {
			unsup("slice of array field")
		}
		n := b.BV(uint64(at.Len()), 64)
		hi := n
		if x.High != nil {
			hi = st.intTerm64(x.High)
		}
		st.nopanic("slice bounds out of range", b.And(b.Bin(OSle, z, lo), b.Bin(OSle, lo, hi), b.Bin(OSle, hi, n)))
		st.set(x, &SliceV{r, lo, b.Sub(hi, lo), b.Sub(n, lo)})
	case *types.Basic:
		s := st.term(x.X)
		n := st.strLen(s)
		hi := n
		if x.High != nil {
			hi = st.intTerm64(x.High)
		}
		st.nopanic("slice bounds out of range", b.And(b.Bin(OSle, z, lo), b.Bin(OSle, lo, hi), b.Bin(OSle, hi, n)))
		off := lo
		q := st.seqOfStr(s)
		st.set(x, st.strOfSeq(st.mkSeq(b.Sub(hi, lo), func(k *Term) *Term { return st.seqAt(q, b.Add(k, off)) }, "substr")))
	default:
		unsup("slice of %s", x.X.Type())
	}
}

func (st *State) unop(x *ssa.UnOp) {
	b := st.u.b
	f := st.top()
	switch x.Op {
	case token.MUL:
		et := x.X.Type().Underlying().(*types.Pointer).Elem()
		v := st.val(x.X)
		if l, ok := v.(*LocV); ok && strings.HasPrefix(l.Prefix, "global:") {
			if types.Identical(et, types.Universe.Lookup("error").Type()) {
				st.set(x, st.u.globalErr(l.Prefix))
				f.ip++
				return
			}
		}
		st.nilCheck(v, "load")
		l := st.deref(v, et)
		st.locAccess(l, false)
		st.set(x, st.load(&LocV{Prefix: l.Prefix, Idx: l.Idx, T: et}))
		if l.Prefix == "list.Element.Value" {
			st.emit(&Event{Name: "List.Value", Recv: l.Idx[0], Args: []Val{st.val(x)}, Types: []types.Type{et}, Pos: x.Pos()})
		}
		// the element a range over a slice stands at
		if ia, ok := x.X.(*ssa.IndexAddr); ok {
			if _, ok := ia.X.Type().Underlying().(*types.Slice); ok {
				if counts(ia.Index) {
					sl, at := st.val(ia.X), st.val(ia.Index)
					seen := false
					for i := len(st.ev) - 1; i >= 0 && st.ev[i].Name != "LoopMark"; i-- {
						if e := st.ev[i]; e.Name == "SliceElem" && e.Args[0] == at && sameSl(e.Recv, sl) {
							seen = true
						}
					}
					if !seen {
						st.emit(&Event{Name: "SliceElem", Recv: st.val(ia.X), Args: []Val{st.val(ia.Index), st.val(x)}, Types: []types.Type{types.Typ[types.Int], et}, Pos: x.Pos()})
					}
				}
			}
		}
	case token.NOT:
		st.set(x, b.Not(st.term(x.X)))
	case token.SUB:
		if isFloat(x.X.Type()) {
			st.set(x, b.UF("fneg", 64, st.term(x.X)))
		} else {
			st.set(x, b.Neg(st.term(x.X)))
		}
	case token.XOR:
		t := st.term(x.X)
		st.set(x, b.Bin(OBXor, t, b.BV(mask(t.W), t.W)))
	case token.ARROW:
		ch := st.term(x.X)
		et := x.X.Type().Underlying().(*types.Chan).Elem()
		st.nopanic("receive from a nil channel", b.Ne(ch, b.BV(0, 32)))
		f.ip++
		if !x.CommaOk {
			// value delivered, or zero value of a closed channel
			st.fork(st.recvAlts(ch, et, func(st *State, v Val, ok *Term) { st.set(x, v) }))
			return
		}
		st.fork(st.recvAlts(ch, et, func(st *State, v Val, ok *Term) { st.set(x, &TupleV{[]Val{v, ok}}) }))
		return
	default:
		unsup("unop %s", x.Op)
	}
	f.ip++
}

// recvAlts: a receive yields either a delivered value or, on a closed channel, the zero value.
func (st *State) recvAlts(ch *Term, et types.Type, k func(st *State, v Val, ok *Term)) []alt {
	b := st.u.b
	open := b.Fresh("recvok", 0)
	nn := b.Ne(ch, b.BV(0, 32))
	never := st.u.neverClosed(ch)
	if ch.Op == OUF && ch.N == "ctxdone" {
		inner := k
		k = func(st *State, v Val, ok *Term) {
			st.ended[ch.id] = b.True
			inner(st, v, ok)
		}
	}
	alts := []alt{{b.And(nn, open), func(st *State) {
		st.interfere()
		v := st.freshVal("recv", et, false)
		st.recvInv(ch, v, et)
		st.emit(&Event{Name: "Recv", Recv: ch, Args: []Val{b.True}, Types: []types.Type{types.Typ[types.Bool]}, Res: v, ResT: et})
		k(st, v, b.True)
	}}}
	if !never {
		alts = append(alts, alt{b.And(nn, b.Not(open)), func(st *State) {
			st.interfere()
			v := st.zero(et)
			st.emit(&Event{Name: "Recv", Recv: ch, Args: []Val{b.False}, Types: []types.Type{types.Typ[types.Bool]}, Res: v, ResT: et})
			k(st, v, b.False)
		}})
	}
	return alts
}

// values that travel through channels are non-nil (assumption listed in the evidence)
func (st *State) recvInv(ch *Term, v Val, et types.Type) {
	b := st.u.b
	switch x := v.(type) {
	case *Term:
		if _, ok := et.Underlying().(*types.Pointer); ok {
			st.assume(b.Ne(x, b.BV(0, 32)))
			st.u.note("pointers received from channels are non-nil")
		}
	case *IfaceV:
		if it, ok := et.Underlying().(*types.Interface); ok && it.NumMethods() > 0 {
			st.closedWorld(x, et)
			st.assume(b.Ne(x.Tag, b.BV(0, 16)))
			if isPacketIface(et) {
				st.assume(b.Ne(b.Extract(x.Pay, 31, 0), b.BV(0, 32)))
			}
			st.u.note("interface values received from channels are non-nil")
		}
	}
}

func isPacketIface(t types.Type) bool { return typeKey(t) == "packet.Packet" }

func (st *State) interfere() {
	for _, n := range st.u.volatile {
		// f:mtx is only changed by others while this one does not hold its owner's mtx
		if i := strings.Index(n, ":"); i >= 0 {
			lk := n[:strings.LastIndex(n[:i], ".")+1] + n[i+1:] + "["
			held := false
			for k, h := range st.locks {
				held = held || h != 0 && strings.HasPrefix(k, lk) && !(st.locking && k == st.lockingK)
			}
			if held {
				continue
			}
			n = n[:i]
		}
		st.weaken(n)
	}
}

func (st *State) selectInstr(x *ssa.Select) {
	b := st.u.b
	f := st.top()
	f.ip++
	choice := b.Fresh("select", 8)
	var alts []alt
	tt := x.Type().(*types.Tuple)
	mk := func(st *State, idx int, recvOk *Term, which int, v Val) {
		tv := &TupleV{V: []Val{b.BV(uint64(int64(idx)), 64), recvOk}}
		r := 2
		for j, s := range x.States {
			if s.Dir == types.RecvOnly {
				if j == which {
					tv.V = append(tv.V, v)
				} else {
					tv.V = append(tv.V, st.zero(tt.At(r).Type()))
				}
				r++
			}
		}
		st.set(x, tv)
	}
	for j, s := range x.States {
		j, s := j, s
		ch := st.term(s.Chan)
		pick := b.Eq(choice, b.BV(uint64(j), 8))
		if s.Dir == types.RecvOnly {
			et := s.Chan.Type().Underlying().(*types.Chan).Elem()
			for _, a := range st.recvAlts(ch, et, func(st *State, v Val, ok *Term) { mk(st, j, ok, j, v) }) {
				alts = append(alts, alt{b.And(pick, a.cond), a.do})
			}
		} else {
			v := st.val(s.Send)
			vt := s.Send.Type()
			alts = append(alts, alt{b.And(pick, b.Ne(ch, b.BV(0, 32))), func(st *State) {
				st.notClosed("send on closed channel", ch)
				st.emit(&Event{Name: "Send", Recv: ch, Args: []Val{v}, Types: []types.Type{vt}, Pos: x.Pos()})
				mk(st, j, b.False, -1, nil)
			}})
		}
	}
	if !x.Blocking {
		alts = append(alts, alt{b.Eq(choice, b.BV(255, 8)), func(st *State) {
			st.emit(&Event{Name: "SelectDefault", Pos: x.Pos()})
			mk(st, -1, b.False, -1, nil)
		}})
	}
	st.markDyn()
	st.fork(alts)
}

func isFloat(t types.Type) bool {
	bt, ok := t.Underlying().(*types.Basic)
	return ok && bt.Info()&types.IsFloat != 0
}

func isString(t types.Type) bool {
	bt, ok := t.Underlying().(*types.Basic)
	return ok && bt.Info()&types.IsString != 0
}

func (st *State) eqVal(x, y Val) *Term {
	b := st.u.b
	xs, ys := st.flatten(x), st.flatten(y)
	if len(xs) != len(ys) {
		unsup("compare %d/%d leaves", len(xs), len(ys))
	}
	var cs []*Term
	for i := range xs {
		cs = append(cs, b.Eq(xs[i], ys[i]))
	}
	return b.And(cs...)
}

func (st *State) binop(op token.Token, xv, yv Val, xt, yt types.Type) Val {
	b := st.u.b
	switch op {
	case token.EQL, token.NEQ:
		// comparing slices with nil compares the array reference
		var r *Term
		if s, ok := xv.(*SliceV); ok {
			r = b.Eq(s.Arr, b.BV(0, 32))
		} else if ix, ok := xv.(*IfaceV); ok {
			iy, ok := yv.(*IfaceV)
			if !ok {
				iy = st.makeIface(yv, yt)
			}
			if isC(iy.Tag) && iy.Tag.V == 0 {
				r = b.Eq(ix.Tag, iy.Tag)
			} else if isC(ix.Tag) && ix.Tag.V == 0 {
				r = b.Eq(ix.Tag, iy.Tag)
			} else {
				r = b.And(b.Eq(ix.Tag, iy.Tag), b.Eq(ix.Pay, iy.Pay))
			}
		} else if iy, ok := yv.(*IfaceV); ok {
			ix := st.makeIface(xv, xt)
			r = b.And(b.Eq(ix.Tag, iy.Tag), b.Eq(ix.Pay, iy.Pay))
		} else {
			r = st.eqVal(xv, yv)
		}
		if op == token.NEQ {
			return b.Not(r)
		}
		return r
	}
	x, okx := xv.(*Term)
	y, oky := yv.(*Term)
	if !okx || !oky {
		unsup("binop %s on %T %T", op, xv, yv)
	}
	if isString(xt) {
		switch op {
		case token.ADD:
			return b.UF("strcat", 32, x, y)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return b.UF("str"+op.String(), 0, x, y)
		}
	}
	if isFloat(xt) {
		switch op {
		case token.ADD, token.SUB, token.MUL, token.QUO:
			if isC(x) && isC(y) {
				fx, fy := math.Float64frombits(x.V), math.Float64frombits(y.V)
				switch op {
				case token.ADD:
					fx += fy
				case token.SUB:
					fx -= fy
				case token.MUL:
					fx *= fy
				case token.QUO:
					fx /= fy
				}
				return b.BV(math.Float64bits(fx), 64)
			}
			return b.UF("f"+op.String(), 64, x, y)
		default:
			return b.UF("f"+op.String(), 0, x, y)
		}
	}
	sg := isSigned(xt)
	pick := func(s, u Op) Op {
		if sg {
			return s
		}
		return u
	}
	switch op {
	case token.ADD:
		return b.Add(x, y)
	case token.SUB:
		return b.Sub(x, y)
	case token.MUL:
		return b.Bin(OMul, x, y)
	case token.QUO:
		st.nopanic("division by zero", b.Ne(y, b.BV(0, y.W)))
		return b.Bin(pick(OSdiv, OUdiv), x, y)
	case token.REM:
		st.nopanic("division by zero", b.Ne(y, b.BV(0, y.W)))
		return b.Bin(pick(OSrem, OUrem), x, y)
	case token.AND:
		if x.W == 0 {
			return b.And(x, y)
		}
		return b.Bin(OBAnd, x, y)
	case token.OR:
		if x.W == 0 {
			return b.Or(x, y)
		}
		return b.Bin(OBOr, x, y)
	case token.XOR:
		return b.Bin(OBXor, x, y)
	case token.AND_NOT:
		return b.Bin(OBAnd, x, b.Bin(OBXor, y, b.BV(mask(y.W), y.W)))
	case token.SHL, token.SHR:
		w := x.W
		if isSigned(yt) {
			st.nopanic("negative shift", b.Bin(OSle, b.BV(0, y.W), y))
		}
		var s *Term
		if y.W > w {
			big := b.Bin(OUle, b.BV(uint64(w), y.W), y)
			s = b.Ite(big, b.BV(uint64(w), w), b.Extract(y, w-1, 0))
		} else {
			s = b.Zext(y, w)
		}
		if op == token.SHL {
			return b.Bin(OShl, x, s)
		}
		return b.Bin(pick(OAshr, OLshr), x, s)
	case token.LSS:
		return b.Bin(pick(OSlt, OUlt), x, y)
	case token.LEQ:
		return b.Bin(pick(OSle, OUle), x, y)
	case token.GTR:
		return b.Bin(pick(OSlt, OUlt), y, x)
	case token.GEQ:
		return b.Bin(pick(OSle, OUle), y, x)
	}
	unsup("binop %s", op)
	return nil
}

// zextInner gives the term a zero extension extends.
func zextInner(t *Term) *Term {
	if t.Op == OZext {
		return t.A[0]
	}
	return nil
}

func (st *State) convert(x *ssa.Convert) {
	b := st.u.b
	v := st.val(x.X)
	ft, tt := x.X.Type(), x.Type()
	fb, fok := ft.Underlying().(*types.Basic)
	tb, tok := tt.Underlying().(*types.Basic)
	switch {
	case fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		w := intWidth(tb)
		if fb.Info()&types.IsUnsigned != 0 {
			st.set(x, b.Zext(v.(*Term), w))
		} else {
			st.set(x, b.Sext(v.(*Term), w))
		}
	case fok && tok && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
		st.set(x, v)
	case fok && tok && (fb.Info()&types.IsFloat != 0 || tb.Info()&types.IsFloat != 0):
		t := st.simp(v.(*Term))
		if fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0 {
			st.set(x, t)
		} else if tb.Info()&types.IsFloat != 0 {
			if isC(t) {
				st.set(x, b.BV(math.Float64bits(float64(sx(t.V, t.W))), 64))
			} else if in := zextInner(st.simp(t)); in != nil && in.W <= 4 {
				// a narrow integer: one path per value
				var alts []alt
				for v := uint64(0); v < 1<<uint(in.W); v++ {
					v := v
					alts = append(alts, alt{b.Eq(in, b.BV(v, in.W)), func(st *State) {
						st.set(x, b.BV(math.Float64bits(float64(v)), 64))
					}})
				}
				st.fork(alts)
			} else {
				st.set(x, b.UF("i2f:"+fb.Name(), 64, t))
			}
		} else {
			w := intWidth(tb)
			if isC(t) {
				st.set(x, b.BV(uint64(int64(math.Float64frombits(t.V))), w))
			} else {
				st.set(x, b.UF("f2i:"+tb.Name(), w, t))
			}
		}
	case fok && fb.Info()&types.IsString != 0 && isByteSlice(tt):
		s := v.(*Term)
		st.set(x, st.bytesOfStr(s))
	case isByteSlice(ft) && tok && tb.Info()&types.IsString != 0:
		st.set(x, st.strOfSeq(st.seqOf(v.(*SliceV))))
	case fok && fb.Info()&types.IsInteger != 0 && tok && tb.Info()&types.IsString != 0:
		st.set(x, b.UF("rune2str", 32, v.(*Term)))
	default:
		// unsafe.Pointer and pointer conversions
		if t, ok := v.(*Term); ok && t.W == 32 {
			st.set(x, t)
			return
		}
		if l, ok := v.(*LocV); ok {
			st.set(x, st.reify(l))
			return
		}
		unsup("convert %s to %s", ft, tt)
	}
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	e, ok := s.Elem().Underlying().(*types.Basic)
	return ok && e.Kind() == types.Uint8
}

// interfaces ---------------------------------------------------------------------

func (st *State) makeIface(v Val, t types.Type) *IfaceV {
	b := st.u.b
	if iv, ok := v.(*IfaceV); ok {
		return iv
	}
	tag := b.BV(tagOf(t), 16)
	switch x := v.(type) {
	case *Term:
		if x.W == 0 {
			return &IfaceV{tag, b.Ite(x, b.BV(1, 64), b.BV(0, 64))}
		}
		return &IfaceV{tag, b.Zext(x, 64)}
	case *LocV:
		return &IfaceV{tag, b.Zext(st.reify(x), 64)}
	}
	if bt, ok := t.Underlying().(*types.Basic); ok && bt.Kind() == types.UntypedNil {
		return &IfaceV{b.BV(0, 16), b.BV(0, 64)}
	}
	r := st.newRef()
	st.store(&LocV{Prefix: "box:" + typeKey(t), Idx: []*Term{r}, T: t}, v)
	return &IfaceV{tag, b.Zext(r, 64)}
}

func (st *State) unbox(i *IfaceV, t types.Type) Val {
	b := st.u.b
	ls := leaves(t)
	if _, isS := t.Underlying().(*types.Struct); len(ls) == 1 && !isS || isTime(t) {
		if ls[0].w == 0 {
			return b.Ne(i.Pay, b.BV(0, 64))
		}
		r := b.Extract(i.Pay, ls[0].w-1, 0)
		if ls[0].kind == kRef && !isC(r) && !(r.Op == OVar || r.Op == OUF) {
			// keep "old" marking through the payload
			if payOld(i.Pay) {
				r.old = true
			}
		}
		if r.old {
			st.typeInv(r, t)
		}
		return r
	}
	return st.load(&LocV{Prefix: "box:" + typeKey(t), Idx: []*Term{b.Extract(i.Pay, 31, 0)}, T: t})
}

func payOld(p *Term) bool { return p.old }

func (st *State) typeAssert(x *ssa.TypeAssert) {
	b := st.u.b
	f := st.top()
	iv, ok := st.val(x.X).(*IfaceV)
	if !ok {
		unsup("type assert on %T", st.val(x.X))
	}
	var cond *Term
	var get func(st *State) Val
	if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		cond = st.implementsCond(iv, x.X.Type(), it)
		get = func(st *State) Val { return iv }
	} else {
		cond = b.Eq(iv.Tag, b.BV(tagOf(x.AssertedType), 16))
		get = func(st *State) Val { return st.unbox(iv, x.AssertedType) }
	}
	f.ip++
	if !x.CommaOk {
		if c := st.simp(cond); !(isC(c) && c.V != 0) {
			f.ip--
			st.nopanic("type assertion to "+typeKey(x.AssertedType), cond)
			f.ip++
		}
		st.set(x, get(st))
		return
	}
	st.fork([]alt{
		{cond, func(st *State) { st.set(x, &TupleV{[]Val{get(st), b.True}}) }},
		{b.Not(cond), func(st *State) { st.set(x, &TupleV{[]Val{st.zero(x.AssertedType), b.False}}) }},
	})
}

func moduleIface(p *Prog, t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), p.module)
}

// closedWorld assumes that a value of a sealed module interface has one of the module's implementing types.
func (st *State) closedWorld(iv *IfaceV, t types.Type) {
	if !isPacketIface(t) || isC(iv.Tag) {
		return
	}
	b := st.u.b
	it := t.Underlying().(*types.Interface)
	cs := []*Term{b.Eq(iv.Tag, b.BV(0, 16))}
	for _, c := range st.u.p.implementers(it) {
		cs = append(cs, b.Eq(iv.Tag, b.BV(tagOf(c), 16)))
	}
	st.assumeOnce(b.Or(cs...))
	st.u.note("values of interface packet.Packet have one of the module's packet types (closed world)")
}

func (st *State) implementsCond(iv *IfaceV, from types.Type, it *types.Interface) *Term {
	b := st.u.b
	tag := st.simp(iv.Tag)
	if isC(tag) {
		if tag.V == 0 {
			return b.False
		}
		t := typeOfTag(tag.V)
		if t == nil {
			return b.UF("impl:"+typeKey(it), 0, tag)
		}
		return b.Bool(types.Implements(t, it))
	}
	if isPacketIface(from) {
		st.closedWorld(iv, from)
		var cs []*Term
		for _, c := range st.u.p.implementers(from.Underlying().(*types.Interface)) {
			if types.Implements(c, it) {
				cs = append(cs, b.Eq(iv.Tag, b.BV(tagOf(c), 16)))
			}
		}
		return b.Or(cs...)
	}
	if it.NumMethods() == 0 {
		return b.Ne(iv.Tag, b.BV(0, 16))
	}
	return b.And(b.Ne(iv.Tag, b.BV(0, 16)), b.UF("impl:"+typeKey(it), 0, iv.Tag))
}

// maps ---------------------------------------------------------------------------

type IterV struct {
	M Val
	T types.Type
}

func mapName(t *types.Map) string { return "map:" + typeKey(t.Key()) + ":" + typeKey(t.Elem()) }

func (st *State) mapIdx(m *Term, t *types.Map, k Val) []*Term {
	return append([]*Term{m}, st.flatten(k)...)
}

func (st *State) mapHas(m *Term, t *types.Map, k Val) *Term {
	return st.read(mapName(t)+".has", 0, kScalar, st.mapIdx(m, t, k)...)
}

func (st *State) mapGet(m *Term, t *types.Map, k Val) Val {
	l := &LocV{Prefix: mapName(t), Idx: st.mapIdx(m, t, k), T: t.Elem()}
	return st.load(l)
}

func (st *State) mapSet(m *Term, t *types.Map, k, v Val) {
	idx := st.mapIdx(m, t, k)
	st.write(mapName(t)+".has", 0, kScalar, st.u.b.True, idx...)
	st.store(&LocV{Prefix: mapName(t), Idx: idx, T: t.Elem()}, v)
	st.write("maplen", 64, kScalar, st.u.b.Fresh("maplen", 64), m)
}

func (st *State) mapDel(m *Term, t *types.Map, k Val) {
	idx := st.mapIdx(m, t, k)
	st.write(mapName(t)+".has", 0, kScalar, st.u.b.False, idx...)
	st.write("maplen", 64, kScalar, st.u.b.Fresh("maplen", 64), m)
}

func (st *State) lookup(x *ssa.Lookup) {
	b := st.u.b
	f := st.top()
	mt, ok := x.X.Type().Underlying().(*types.Map)
	if !ok {
		s := st.term(x.X)
		i := st.intTerm64(x.Index)
		st.nopanic("string index out of range", b.Bin(OUlt, i, st.strLen(s)))
		st.set(x, st.seqAt(st.seqOfStr(s), i))
		f.ip++
		return
	}
	m := st.term(x.X)
	k := st.val(x.Index)
	has := b.And(b.Ne(m, b.BV(0, 32)), st.mapHas(m, mt, k))
	f.ip++
	st.mapAccess(m, false)
	st.emit(&Event{Name: "MapGet", Recv: m, Args: []Val{k}, Types: []types.Type{mt.Key()}, Pos: x.Pos()})
	st.fork([]alt{
		{has, func(st *State) {
			v := st.mapGet(m, mt, k)
			st.mapValInv(mt, v)
			if x.CommaOk {
				st.set(x, &TupleV{[]Val{v, b.True}})
			} else {
				st.set(x, v)
			}
		}},
		{b.Not(has), func(st *State) {
			v := st.zero(mt.Elem())
			if x.CommaOk {
				st.set(x, &TupleV{[]Val{v, b.False}})
			} else {
				st.set(x, v)
			}
		}},
	})
}

func (st *State) mapValInv(mt *types.Map, v Val) {
	b := st.u.b
	if _, ok := mt.Elem().Underlying().(*types.Pointer); ok {
		if t, ok := v.(*Term); ok && !isC(t) {
			st.assumeOnce(b.Ne(t, b.BV(0, 32)))
			st.u.note("pointers stored in maps are non-nil")
		}
	}
}

func (st *State) nextIter(x *ssa.Next) {
	b := st.u.b
	f := st.top()
	it, ok := st.val(x.Iter).(*IterV)
	if !ok {
		unsup("range over string")
	}
	mt, ok := it.T.Underlying().(*types.Map)
	if !ok {
		unsup("range over %s", it.T)
	}
	m := it.M.(*Term)
	f.ip++
	more := b.Fresh("more", 0)
	st.markDyn()
	st.fork([]alt{
		{more, func(st *State) {
			k := st.freshVal("key", mt.Key(), true)
			st.assume(b.And(b.Ne(m, b.BV(0, 32)), st.mapHas(m, mt, k)))
			v := st.mapGet(m, mt, k)
			st.mapValInv(mt, v)
			st.emit(&Event{Name: "RangeNext", Recv: m, Args: []Val{k, v}, Types: []types.Type{mt.Key(), mt.Elem()}})
			st.set(x, &TupleV{[]Val{b.True, k, v}})
		}},
		{b.Not(more), func(st *State) {
			// the loop this ends has not ended before
			cuts := st.cuts
			if n := len(cuts); n > 0 && cuts[n-1].hdr == x.Block() && cuts[n-1].depth == len(st.fr) {
				st.cuts = cuts[: n-1 : n-1]
			}
			st.emit(&Event{Name: "RangeDone", Recv: m})
			st.cuts = cuts
			st.set(x, &TupleV{[]Val{b.False, st.zero(mt.Key()), st.zero(mt.Elem())}})
		}},
	})
}

// calls --------------------------------------------------------------------------

func (st *State) resolve(c *ssa.CallCommon) (*target, []Val) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, st.val(a))
	}
	if c.IsInvoke() {
		recv := st.val(c.Value)
		return &target{recv: recv, recvT: c.Value.Type(), method: c.Method, sig: c.Signature()}, args
	}
	switch v := c.Value.(type) {
	case *ssa.Builtin:
		return &target{builtin: v.Name(), sig: c.Signature(), recvT: builtinT(c)}, args
	case *ssa.Function:
		return &target{fn: v, sig: v.Signature}, args
	}
	fv := st.val(c.Value)
	return st.fnTarget(fv, c.Signature()), args
}

func builtinT(c *ssa.CallCommon) types.Type {
	if len(c.Args) > 0 {
		return c.Args[0].Type()
	}
	return nil
}

func (st *State) fnTarget(fv Val, sig *types.Signature) *target {
	t, ok := fv.(*Term)
	if !ok {
		unsup("call of %T", fv)
	}
	t = st.simp(t)
	if isC(t) {
		if cl, ok := st.clos[t.V]; ok {
			if len(cl.binds) > 0 {
				if _, g := cl.binds[0].(goMark); g {
					unsup("call of go target")
				}
			}
			return &target{fn: cl.fn, binds: cl.binds, sig: sig}
		}
		if fn := st.u.p.funcByID(t.V); fn != nil {
			return &target{fn: fn, sig: sig}
		}
	}
	return &target{name: "callfn", recv: t, sig: sig, fnval: t}
}

func resType(sig *types.Signature) types.Type {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

// call performs a call and hands the result to k (on every path).
func (st *State) call(c *target, args []Val, pos token.Pos, k func(st *State, v Val)) {
	b := st.u.b
	if c.builtin != "" {
		st.builtin(c, args, pos, k)
		return
	}
	if c.method != nil { // interface method
		iv, ok := c.recv.(*IfaceV)
		if !ok {
			unsup("invoke on %T", c.recv)
		}
		if st.ifaceIntrinsic(c, iv, args, pos, k) {
			return
		}
		tag := st.simp(iv.Tag)
		if isC(tag) {
			if tag.V == 0 {
				st.nopanic("method call on nil interface", b.False)
				panic(pathEnd{})
			}
			if t := typeOfTag(tag.V); t != nil && !st.u.opaqueType[typeKey(t)] {
				fn := st.u.p.prog.LookupMethod(t, c.method.Pkg(), c.method.Name())
				if fn != nil {
					recv := st.unbox(iv, t)
					st.call(&target{fn: fn, sig: fn.Signature}, append([]Val{recv}, args...), pos, k)
					return
				}
			}
		}
		if (isPacketIface(c.recvT) || st.u.dispatch[typeKey(c.recvT)]) && !st.u.opaqueFns["*."+c.method.Name()] {
			st.closedWorld(iv, c.recvT)
			var alts []alt
			for _, t := range st.u.p.implementers(c.recvT.Underlying().(*types.Interface)) {
				t := t
				fn := st.u.p.prog.LookupMethod(t, c.method.Pkg(), c.method.Name())
				alts = append(alts, alt{b.Eq(iv.Tag, b.BV(tagOf(t), 16)), func(st *State) {
					recv := st.unbox(iv, t)
					st.call(&target{fn: fn, sig: fn.Signature}, append([]Val{recv}, args...), pos, k)
				}})
			}
			st.fork(alts)
			return
		}
		st.nopanic("method call on nil interface", b.Ne(iv.Tag, b.BV(0, 16)))
		name := typeName(c.recvT) + "." + c.method.Name()
		st.opaqueCall(name, iv, args, c.sig, nil, pos, k)
		return
	}
	if c.fn != nil {
		fn := c.fn
		if st.intrinsic(fn, c, args, pos, k) {
			return
		}
		key := fnKey(fn)
		if st.u.isOpaque(fn) {
			var recv Val
			a := args
			if fn.Signature.Recv() != nil && len(args) > 0 {
				recv = args[0]
				a = args[1:]
			}
			st.opaqueCall(opaqueName(fn), recv, a, fn.Signature, fn, pos, k)
			return
		}
		if st.u.p.inModule(fn) && len(fn.Blocks) > 0 || fn.Synthetic != "" && len(fn.Blocks) > 0 {
			for _, f := range st.fr {
				if f.fn == fn && st.u.recursive(st, fn) {
					var recv Val
					a := args
					if fn.Signature.Recv() != nil && len(args) > 0 {
						recv = args[0]
						a = args[1:]
					}
					st.u.note("recursive call of " + key + " not followed")
					st.taint = "the recursive call of " + key
					if len(st.cuts) > 0 {
						st.u.taint = st.taint
					}
					st.opaqueCall("rec:"+opaqueName(fn), recv, a, fn.Signature, fn, pos, k)
					return
				}
			}
			st.pushFrame(fn, args, c.binds, k)
			return
		}
		var recv Val
		a := args
		if fn.Signature.Recv() != nil && len(args) > 0 {
			recv = args[0]
			a = args[1:]
		}
		st.u.note("external function " + key + " returns an arbitrary value and changes no module state")
		if !knownExternal(key) {
			st.taint = key
			if len(st.cuts) > 0 {
				st.u.taint = key
			}
		}
		st.opaqueCall(opaqueName(fn), recv, a, fn.Signature, fn, pos, k)
		return
	}
	st.nopanic("call of nil function", b.Ne(c.fnval, b.BV(0, 32)))
	st.u.note("function values supplied by the user change no library state except through the library's own API")
	if st.u.userPanic {
		st.fork([]alt{
			{b.True, func(st *State) { st.opaqueCall("callfn", c.recv, args, c.sig, nil, pos, k) }},
			{b.True, func(st *State) {
				st.opaqueCall("callfn", c.recv, args, c.sig, nil, pos, func(st *State, v Val) {})
				st.top().unwind = true
			}},
		})
		return
	}
	st.opaqueCall("callfn", c.recv, args, c.sig, nil, pos, k)
}

// unwindStep runs one deferred call of a function that is being unwound, or leaves it.
func (st *State) unwindStep() {
	f := st.top()
	if len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		st.call(d.c, d.args, token.NoPos, func(st *State, v Val) {})
		return
	}
	d := len(st.fr)
	for len(st.cuts) > 0 && st.cuts[len(st.cuts)-1].depth >= d {
		st.cuts = st.cuts[:len(st.cuts)-1]
	}
	st.fr = st.fr[:d-1]
	if d > 1 {
		st.top().unwind = true
		return
	}
	for _, s := range st.u.c.stmts {
		if s.kind == "panics" {
			st.clause(s, st.evBase, len(st.ev))
		}
	}
	if st.u.lockVC {
		st.u.oblige(st, "lock", "no lock is held when a panic leaves", st.u.b.Bool(lockStr(st.locks) == ""), lockStr(st.locks))
	}
	st.done = true
}

// knownExternal tells whether a result of an external function taken for arbitrary is one it may really give, so that
// an obligation failing with it fails for the code. What only library functions of other kinds give is beyond what is
// modelled: an obligation failing after a call of one is undecided.
func knownExternal(key string) bool {
	for _, p := range []string{"github.com/jumboframes/armorigo/", "github.com/singchia/go-timer/", "github.com/singchia/yafsm", "(*sync.Map).", "(*sync.WaitGroup).",
		"regexp.", "net.", "time.", "strings.", "strconv.", "sort.", "math/rand.", "unicode", "os.", "bytes.Trim", "bytes.To", "bytes.Replace", "bytes.Map", "bytes.Repeat"} {
		k := strings.TrimLeft(key, "(*")
		if strings.HasPrefix(k, strings.TrimLeft(p, "(*")) {
			return true
		}
	}
	return false
}

func typeName(t types.Type) string {
	s := typeKey(t)
	s = strings.TrimLeft(s, "*")
	if i := strings.LastIndex(s, "."); i >= 0 {
		s = s[i+1:]
	}
	return s
}

// opaqueName: "Type.Method" for methods, "pkg.Func" for functions.
func opaqueName(fn *ssa.Function) string {
	if r := fn.Signature.Recv(); r != nil {
		return typeName(r.Type()) + "." + fn.Name()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Name() + "." + fn.Name()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Name() + "." + fn.Name()
	}
	return fn.Name()
}

func (st *State) opaqueCall(name string, recv Val, args []Val, sig *types.Signature, fn *ssa.Function, pos token.Pos, k func(st *State, v Val)) {
	e := &Event{Name: name, Recv: recv, Args: args, Fn: fn, Pos: pos}
	ps := sig.Params()
	for i := 0; i < ps.Len(); i++ {
		e.Types = append(e.Types, ps.At(i).Type())
	}
	st.emit(e)
	for _, n := range st.u.effects[name] {
		st.havoc(n, nil)
	}
	for _, s := range st.u.c.stmts {
		if s.kind == "during" && s.b == name && !st.inDuring {
			st.inDuring = true
			if st.callback(s, 0, func(st *State, v Val) {
				st.inDuring = false
				// paths that part while the call runs have their own result of it
				c := *e
				st.ev = append([]*Event(nil), st.ev...)
				for i, x := range st.ev {
					if x == e {
						st.ev[i] = &c
					}
				}
				e := &c
				st.opaqueRes(name, recv, args, sig, e, k)
			}) {
				return
			}
			st.inDuring = false
		}
	}
	st.opaqueRes(name, recv, args, sig, e, k)
}

func (st *State) opaqueRes(name string, recv Val, args []Val, sig *types.Signature, e *Event, k func(st *State, v Val)) {
	if rt := resType(sig); rt != nil {
		v := st.freshVal("r:"+name, rt, false)
		if st.u.spec.pure[name] {
			v = st.pureResult(name, recv, args, rt)
		}
		e.Res = v
		e.ResT = rt
		st.resInv(name, v, rt)
		st.give(e)
		k(st, v)
		return
	}
	st.give(e)
	k(st, nil)
}

// pureResult names the result of an external call that depends on its inputs only.
func (st *State) pureResult(name string, recv Val, args []Val, rt types.Type) Val {
	st.u.note(name + " returns the same value for the same receiver and arguments")
	var in []*Term
	if recv != nil {
		in = append(in, st.flatten(recv)...)
	}
	for _, a := range args {
		in = append(in, st.flatten(a)...)
	}
	var ts []*Term
	for i, l := range leaves(rt) {
		t := st.u.b.UF(fmt.Sprintf("pure:%s:%d", name, i), l.w, in...)
		t.old = true
		ts = append(ts, t)
	}
	v := unflatten(rt, ts)
	st.typeInv(v, rt)
	return v
}

func (st *State) resInv(name string, v Val, t types.Type) {
	b := st.u.b
	switch x := v.(type) {
	case *IfaceV:
		st.assume(b.Implies(b.Eq(x.Tag, b.BV(0, 16)), b.Eq(x.Pay, b.BV(0, 64))))
		st.closedWorld(x, t)
	case *TupleV:
		tt := t.(*types.Tuple)
		for i, f := range x.V {
			st.resInv("", f, tt.At(i).Type())
		}
	}
	if st.u.nonnil[name] {
		switch x := v.(type) {
		case *IfaceV:
			st.assume(b.Ne(x.Tag, b.BV(0, 16)))
		case *Term:
			st.assume(b.Ne(x, b.BV(0, 32)))
		case *TupleV:
			// a result and an error: the result is there when no error is
			if n := len(x.V); n > 1 {
				if e, ok := x.V[n-1].(*IfaceV); ok {
					ok := b.Eq(e.Tag, b.BV(0, 16))
					switch y := x.V[0].(type) {
					case *IfaceV:
						st.assume(b.Implies(ok, b.Ne(y.Tag, b.BV(0, 16))))
					case *Term:
						if y.W == 32 {
							st.assume(b.Implies(ok, b.Ne(y, b.BV(0, 32))))
						}
					}
				}
			}
		}
	}
}

func (st *State) builtin(c *target, args []Val, pos token.Pos, k func(st *State, v Val)) {
	b := st.u.b
	switch c.builtin {
	case "len", "cap":
		switch x := args[0].(type) {
		case *SliceV:
			if c.builtin == "len" {
				k(st, x.Len)
			} else {
				k(st, x.Cap)
			}
			return
		case *Term:
			switch c.recvT.Underlying().(type) {
			case *types.Basic:
				k(st, st.strLen(x))
				return
			case *types.Map, *types.Chan:
				var n *Term
				if _, ok := c.recvT.Underlying().(*types.Map); ok {
					n = st.read("maplen", 64, kLen, x)
				} else {
					n = b.Fresh("chanlen", 64)
				}
				st.assumeOnce(b.And(b.Bin(OSle, b.BV(0, 64), n), b.Bin(OSlt, n, b.BV(maxLen, 64))))
				k(st, n)
				return
			}
		}
		unsup("len of %s", c.recvT)
	case "append":
		st.appendB(c, args, k)
		return
	case "copy":
		dst := args[0].(*SliceV)
		var n *Term
		switch s := args[1].(type) {
		case *SliceV:
			n = b.Ite(b.Bin(OSle, dst.Len, s.Len), dst.Len, s.Len)
			st.copyElems(c.recvT.Underlying().(*types.Slice).Elem(), dst.Arr, dst.Off, n, s)
		case *Term:
			sl := st.strLen(s)
			n = b.Ite(b.Bin(OSle, dst.Len, sl), dst.Len, sl)
			q := st.seqOfStr(s)
			st.writeRange("arr:byte", 8, kScalar, dst.Arr, dst.Off, n, func(i *Term) *Term { return st.seqAt(q, i) })
		}
		k(st, n)
		return
	case "close":
		ch := args[0].(*Term)
		st.nopanic("close of nil channel", b.Ne(ch, b.BV(0, 32)))
		st.notClosed("close of closed channel", ch)
		st.emit(&Event{Name: "CloseCh", Recv: ch, Pos: pos})
		k(st, nil)
		return
	case "delete":
		st.mapAccess(args[0].(*Term), true)
		st.emit(&Event{Name: "MapDel", Recv: args[0], Args: args[1:2], Types: []types.Type{c.recvT.Underlying().(*types.Map).Key()}, Pos: pos})
		st.mapDel(args[0].(*Term), c.recvT.Underlying().(*types.Map), args[1])
		k(st, nil)
		return
	case "ssa:wrapnilchk":
		k(st, args[0])
		return
	case "min", "max":
		x, y := args[0].(*Term), args[1].(*Term)
		op := OUle
		if isSigned(c.recvT) {
			op = OSle
		}
		le := b.Bin(op, x, y)
		if c.builtin == "min" {
			k(st, b.Ite(le, x, y))
		} else {
			k(st, b.Ite(le, y, x))
		}
		return
	case "recover":
		k(st, &IfaceV{b.BV(0, 16), b.BV(0, 64)})
		return
	case "print", "println":
		k(st, nil)
		return
	}
	unsup("builtin %s", c.builtin)
}

// elemRead captures the current contents of a slice of elements of type t.
func (st *State) elemName(t types.Type) string { return "arr:" + typeKey(t) }

func (st *State) copyElems(et types.Type, arr, off, n *Term, s *SliceV) {
	name := st.elemName(et)
	for _, lf := range leaves(et) {
		lf := lf
		st.minfo(name+lf.suf, lf.w, lf.kind)
		h := st.mem[name+lf.suf]
		u := st.u
		sarr, soff := s.Arr, s.Off
		st.writeRange(name+lf.suf, lf.w, lf.kind, arr, off, n, func(i *Term) *Term {
			return u.readMem(h, name+lf.suf, lf.w, lf.kind, []*Term{sarr, u.b.Add(soff, i)})
		})
	}
}

func (st *State) appendB(c *target, args []Val, k func(st *State, v Val)) {
	et := c.recvT.Underlying().(*types.Slice).Elem()
	s := args[0].(*SliceV)
	var n *Term
	var src *SliceV
	switch y := args[1].(type) {
	case *SliceV:
		n = y.Len
		src = y
	case *Term: // string
		n = st.strLen(y)
		src = st.bytesOfStr(y)
	}
	st.appendN(et, s, src, n, k)
}

// appendN appends n elements of src to s.
func (st *State) appendN(et types.Type, s, src *SliceV, n *Term, k func(st *State, v Val)) {
	b := st.u.b
	nl := b.Add(s.Len, n)
	fits := b.Bin(OSle, nl, s.Cap)
	st.fork([]alt{
		{fits, func(st *State) {
			st.copyElems(et, s.Arr, b.Add(s.Off, s.Len), n, src)
			k(st, &SliceV{s.Arr, s.Off, nl, s.Cap})
		}},
		{b.Not(fits), func(st *State) {
			r := st.newRef()
			z := b.BV(0, 64)
			st.copyElems(et, r, z, s.Len, s)
			st.copyElems(et, r, s.Len, n, src)
			nc := b.Fresh("cap", 64)
			st.assume(b.And(b.Bin(OSle, nl, nc), b.Bin(OSlt, nc, b.BV(maxLen*4, 64))))
			k(st, &SliceV{r, z, nl, nc})
		}},
	})
}

// locks --------------------------------------------------------------------------

func (st *State) lockKey(v Val) string {
	switch x := v.(type) {
	case *LocV:
		return x.Prefix + "[" + idxKey(x.Idx) + "]"
	case *Term:
		if l, ok := st.locs[x]; ok {
			return l.Prefix + "[" + idxKey(l.Idx) + "]"
		}
		return fmt.Sprintf("ref[%d,]", x.id)
	}
	return "?"
}

func (st *State) lockName(v Val) string {
	switch x := v.(type) {
	case *LocV:
		return x.Prefix
	case *Term:
		if l, ok := st.locs[x]; ok {
			return l.Prefix
		}
		return show(x)
	}
	return "?"
}

// lockOp checks the discipline and updates the lock state (-1000 = write-held, n>0 = read-held n times).
func (st *State) lockOp(op string, v Val) {
	k := st.lockKey(v)
	n := st.lockName(v)
	h := st.locks[k]
	b := st.u.b
	bad := ""
	switch op {
	case "Lock":
		if h < 0 {
			bad = "locks a mutex it already holds"
		} else if h > 0 {
			bad = "write-locks a mutex it holds for reading"
		}
		st.locks[k] = -1000
	case "RLock":
		if h < 0 {
			bad = "read-locks a mutex it holds for writing"
			break
		}
		st.locks[k] = h + 1
	case "Unlock":
		if h >= 0 {
			bad = "unlocks a mutex it does not hold"
		}
		delete(st.locks, k)
	case "RUnlock":
		if h <= 0 {
			bad = "read-unlocks a mutex it does not hold for reading"
			break
		}
		if h == 1 {
			delete(st.locks, k)
		} else {
			st.locks[k] = h - 1
		}
	}
	if st.u.lockVC {
		c := b.True
		if bad != "" {
			c = b.False
		}
		what := bad
		if bad == "" {
			what = op
		}
		fnn := ""
		if len(st.fr) > 0 {
			fnn = shortFn(st.top().fn)
		}
		if bad != "" {
			st.u.oblige(st, "lock", "discipline", c, fnn+": "+n+" "+what)
		} else {
			st.u.oblige(st, "lock", "discipline", c, "")
		}
	}
	if bad != "" && (op == "Lock" || op == "RLock") {
		// self deadlock: nothing after it is reached
		panic(pathEnd{})
	}
	st.emit(&Event{Name: op, Recv: v})
	if op == "Lock" || op == "RLock" {
		st.locking = st.locks[k] == 1 || st.locks[k] == -1000
		st.lockingK = k
		st.interfere()
		st.locking = false
	}
}

func lockStr(m map[string]int) string {
	var ks []string
	for k, v := range m {
		if v != 0 {
			ks = append(ks, fmt.Sprintf("%s=%d", k, v))
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}
