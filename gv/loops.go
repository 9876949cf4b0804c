package main

// Loops. A loop whose header condition is a constant on every pass (ranging over a slice of
// known length) is followed pass by pass. Every other loop is cut: at its entry the invariants are
// checked, everything the body may write is forgotten, the invariants are assumed, the body is
// followed once, and at the back edge the invariants are checked again. Candidate invariants that
// cannot be shown are dropped and the unit starts over (the greatest inductive subset is used).

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type cutKey struct {
	fn  *ssa.Function
	blk int
}

type wset struct {
	all  bool
	refs map[int]*Term
}

type CutInfo struct {
	writes map[string]*wset
	dead   map[string]bool
	evset  map[string]bool
}

type loopInfo struct {
	hdr  *ssa.BasicBlock
	body map[int]bool
}

func (u *Unit) loopsOf(fn *ssa.Function) map[int]*loopInfo {
	if l, ok := u.loops[fn]; ok {
		return l
	}
	out := map[int]*loopInfo{}
	for _, blk := range fn.Blocks {
		for _, s := range blk.Succs {
			if s.Dominates(blk) {
				li := out[s.Index]
				if li == nil {
					li = &loopInfo{hdr: s, body: map[int]bool{s.Index: true}}
					out[s.Index] = li
				}
				var add func(b *ssa.BasicBlock)
				add = func(b *ssa.BasicBlock) {
					if li.body[b.Index] {
						return
					}
					li.body[b.Index] = true
					for _, p := range b.Preds {
						add(p)
					}
				}
				add(blk)
			}
		}
	}
	u.loops[fn] = out
	return out
}

// markDyn notes that the header condition of the current block was not constant.
func (st *State) markDyn() {
	f := st.top()
	f.dyn[f.blk.Index] = true
}

func (st *State) jump(from, to *ssa.BasicBlock) {
	f := st.top()
	d := len(st.fr)
	for len(st.cuts) > 0 {
		c := st.cuts[len(st.cuts)-1]
		if c.depth == d && !c.body[to.Index] {
			st.cuts = st.cuts[:len(st.cuts)-1]
			continue
		}
		break
	}
	li := st.u.loopsOf(f.fn)[to.Index]
	if li == nil {
		st.enterBlock(to, from)
		return
	}
	key := cutKey{f.fn, to.Index}
	ci := st.u.cuts[key]
	back := to.Dominates(from) && li.body[from.Index]
	if ci != nil {
		if h := flagLoop(to, li); h != nil {
			// a loop driven by a flag is cut where the flag says to go on: leaving it belongs to the pass that cleared it
			b := st.u.b
			v := st.phiVals(to, from)[h.phi]
			var goon *Term
			if h.isErr {
				goon = st.eqVal(v, st.zero(h.phi.Type()))
			} else {
				goon = v.(*Term)
			}
			if h.invert == h.onTrue {
				goon = b.Not(goon)
			}
			goon = st.simp(goon)
			st.fork([]alt{
				{goon, func(st *State) { st.cutAt(key, ci, li, from, to, back) }},
				{b.Not(goon), func(st *State) {
					if back {
						st.cuts = st.cuts[:len(st.cuts)-1]
					}
					st.enterBlock(to, from)
					f := st.top()
					c := !h.onTrue // what the header computes where the loop is left
					if !h.isErr {
						f.regs[h.phi] = b.Bool(c != h.invert)
					}
					for _, d := range h.derived {
						f.regs[d] = b.Bool(c)
						c = !c
					}
					st.jump(to, h.exit)
				}},
			})
			return
		}
		st.cutAt(key, ci, li, from, to, back)
		return
	}
	if back {
		f.visits[to.Index]++
		_, isIf := to.Instrs[len(to.Instrs)-1].(*ssa.If)
		if !isIf || f.dyn[to.Index] || f.visits[to.Index] > 40 {
			st.u.cuts[key] = &CutInfo{writes: map[string]*wset{}, dead: map[string]bool{}, evset: map[string]bool{}}
			panic(restart{})
		}
		st.enterBlock(to, from)
		return
	}
	f.visits[to.Index] = 0
	f.dyn[to.Index] = false
	st.enterBlock(to, from)
}

func (st *State) cutAt(key cutKey, ci *CutInfo, li *loopInfo, from, to *ssa.BasicBlock, back bool) {
	if back {
		st.backEdge(key, ci, from, to)
	} else {
		st.cutEnter(key, ci, li, from, to)
	}
}

// flagLoop tells whether the loop header does nothing but leave the loop depending on a flag carried around it, a
// boolean or whether an error is nil: it gives the condition of the header, the carried value, and the block the
// loop is left to.
type flagHdr struct {
	phi     *ssa.Phi
	isErr   bool // the flag is "phi is nil"
	invert  bool // the condition of the header is the negation of the flag
	onTrue  bool // the loop goes on where the condition of the header holds
	exit    *ssa.BasicBlock
	derived []ssa.Value
}

func flagLoop(hdr *ssa.BasicBlock, li *loopInfo) *flagHdr {
	br, ok := hdr.Instrs[len(hdr.Instrs)-1].(*ssa.If)
	if !ok || li.body[hdr.Succs[0].Index] == li.body[hdr.Succs[1].Index] {
		return nil
	}
	h := &flagHdr{onTrue: li.body[hdr.Succs[0].Index]}
	h.exit = hdr.Succs[1]
	if !h.onTrue {
		h.exit = hdr.Succs[0]
	}
	c := br.Cond
	if u, ok := c.(*ssa.UnOp); ok && u.Op == token.NOT && u.Block() == hdr {
		h.derived = append(h.derived, u)
		c, h.invert = u.X, true
	}
	if x, ok := c.(*ssa.BinOp); ok && (x.Op == token.EQL || x.Op == token.NEQ) && x.Block() == hdr {
		k, ok := x.Y.(*ssa.Const)
		if !ok || !k.IsNil() || !types.IsInterface(x.X.Type()) {
			return nil
		}
		h.derived = append(h.derived, x)
		h.isErr = true
		if x.Op == token.NEQ {
			h.invert = !h.invert
		}
		c = x.X
	}
	p, ok := c.(*ssa.Phi)
	if !ok || p.Block() != hdr {
		return nil
	}
	h.phi = p
	for _, in := range hdr.Instrs[:len(hdr.Instrs)-1] {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case ssa.Value:
			found := false
			for _, d := range h.derived {
				found = found || d == x
			}
			if !found {
				return nil
			}
		default:
			return nil
		}
	}
	return h
}

func predIndex(to, from *ssa.BasicBlock) int {
	for i, p := range to.Preds {
		if p == from {
			return i
		}
	}
	return -1
}

func (st *State) phiVals(to, from *ssa.BasicBlock) map[ssa.Value]Val {
	out := map[ssa.Value]Val{}
	pi := predIndex(to, from)
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		out[p] = st.val(p.Edges[pi])
	}
	return out
}

func (st *State) enterBlock(to, from *ssa.BasicBlock) {
	f := st.top()
	var vals map[ssa.Value]Val
	if from != nil {
		vals = st.phiVals(to, from)
	}
	f.prev = from
	f.blk = to
	st.u.blocks[to] = true
	f.ip = 0
	for v, x := range vals {
		f.regs[v] = x
	}
	for f.ip < len(to.Instrs) {
		if _, ok := to.Instrs[f.ip].(*ssa.Phi); !ok {
			break
		}
		f.ip++
	}
}

type cand struct {
	name string
	f    func(st *State) *Term
}

func (st *State) cutEnter(key cutKey, ci *CutInfo, li *loopInfo, from, to *ssa.BasicBlock) {
	b := st.u.b
	f := st.top()
	st.u.cutsUsed[fmt.Sprintf("%s#%d", fnKey(f.fn), to.Index)] = true
	entry := st.phiVals(to, from)
	ser := b.ctr
	nf := st.nfresh
	cands := st.candidates(ci, li, entry)
	// invariants hold on entry
	for v, x := range entry {
		f.regs[v] = x
	}
	again := false
	for _, c := range cands {
		if ci.dead[c.name] {
			continue
		}
		t := c.f(st)
		if t == nil || !st.valid(t) {
			ci.dead[c.name] = true
			st.u.dropped[c.name] = true
			again = true
		}
	}
	if again {
		panic(restart{})
	}
	// forget what the body may change
	for _, name := range sortedKeys(ci.writes) {
		w := ci.writes[name]
		if w.all || len(w.refs) > 8 {
			st.havoc(name, nil)
			continue
		}
		for _, id := range sortedInts(w.refs) {
			st.havoc(name, w.refs[id])
		}
	}
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		f.regs[p] = st.freshVal("phi:"+p.Comment, p.Type(), false)
	}
	if h := flagLoop(to, li); h != nil {
		flag := h.onTrue != h.invert
		switch {
		case !h.isErr:
			f.regs[h.phi] = b.Bool(flag)
		case flag:
			f.regs[h.phi] = st.zero(h.phi.Type())
		default:
			st.assume(b.Not(st.eqVal(f.regs[h.phi], st.zero(h.phi.Type()))))
		}
	}
	st.emit(&Event{Name: "LoopMark", Set: ci.evset})
	for _, c := range cands {
		if !ci.dead[c.name] {
			st.assume(c.f(st))
		}
	}
	ca := &cutActive{key: key, depth: len(st.fr), ser: ser, nf: nf, ci: ci, locks: lockStr(st.locks), evAt: len(st.ev), body: li.body, hdr: to, entry: entry}
	st.cuts = append(st.cuts, ca)
	// the list element a loop stands at
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if p.Type().String() == "*container/list.Element" {
			st.emit(&Event{Name: "LoopElem", Res: f.regs[p], ResT: p.Type()})
		}
	}
	f.prev = from
	f.blk = to
	f.ip = 0
	for f.ip < len(to.Instrs) {
		if _, ok := to.Instrs[f.ip].(*ssa.Phi); !ok {
			break
		}
		f.ip++
	}
}

func sortedInts(m map[int]*Term) []int {
	var ks []int
	for k := range m {
		ks = append(ks, k)
	}
	for i := range ks {
		for j := i + 1; j < len(ks); j++ {
			if ks[j] < ks[i] {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
	}
	return ks
}

func (st *State) backEdge(key cutKey, ci *CutInfo, from, to *ssa.BasicBlock) {
	f := st.top()
	if len(st.cuts) == 0 || st.cuts[len(st.cuts)-1].hdr != to || st.cuts[len(st.cuts)-1].depth != len(st.fr) {
		unsup("back edge without active cut in %s", f.fn)
	}
	ca := st.cuts[len(st.cuts)-1]
	if st.u.again {
		panic(restart{})
	}
	if len(f.defers) > 0 {
		// defers inside loops accumulate; the ones pushed before the loop are fine
	}
	cands := st.candidates(ci, &loopInfo{hdr: to, body: ca.body}, ca.entry)
	vals := st.phiVals(to, from)
	for v, x := range vals {
		f.regs[v] = x
	}
	again := false
	for _, c := range cands {
		if ci.dead[c.name] {
			continue
		}
		t := c.f(st)
		if t == nil || !st.valid(t) {
			ci.dead[c.name] = true
			st.u.dropped[c.name] = true
			again = true
		}
	}
	if again {
		panic(restart{})
	}
	if st.u.lockVC {
		st.u.oblige(st, "lock", "same locks held on every pass of a loop", st.u.b.Bool(lockStr(st.locks) == ca.locks), shortFn(f.fn))
	}
	st.endIteration(f.fn, ca)
}

// endIteration checks the clauses on one pass of a loop; with "flags async" the
// goroutines started in this pass are run first, one after another.
func (st *State) endIteration(fn *ssa.Function, ca *cutActive) {
	if st.u.asyncIter {
		if st.activ < ca.evAt {
			st.activ = ca.evAt
		}
		for st.activ < len(st.ev) {
			e := st.ev[st.activ]
			st.activ++
			if e.Name != "Go" {
				continue
			}
			r, ok := e.Recv.(*Term)
			if !ok {
				continue
			}
			cl := st.clos[r.V]
			nb := len(cl.fn.FreeVars)
			rest := cl.binds[1:]
			locks := st.locks
			st.locks = map[string]int{}
			st.pushFrame(cl.fn, rest[nb:], rest[:nb], func(st *State, v Val) {
				if st.u.lockVC {
					st.u.oblige(st, "lock", "no lock is held at return", st.u.b.Bool(lockStr(st.locks) == ""), lockStr(st.locks))
				}
				st.locks = copyM(locks)
				st.endIteration(fn, ca)
			})
			return
		}
	}
	st.iterClauses(fn, ca)
	st.u.backEdges++
	panic(pathEnd{})
}

// valid asks whether t follows from the path condition.
func (st *State) valid(t *Term) bool {
	t = st.simp(t)
	if isC(t) {
		return t.V != 0
	}
	return st.u.query(append(append([]*Term(nil), st.pc...), st.u.b.Not(t)), st.u.vcMS) == "unsat"
}

func (st *State) candidates(ci *CutInfo, li *loopInfo, entry map[ssa.Value]Val) []cand {
	b := st.u.b
	f := st.top()
	fk := fmt.Sprintf("%s#%d", fnKey(f.fn), li.hdr.Index)
	var out []cand
	var bounds []ssa.Value
	if br, ok := li.hdr.Instrs[len(li.hdr.Instrs)-1].(*ssa.If); ok {
		if bo, ok := br.Cond.(*ssa.BinOp); ok {
			switch bo.Op {
			case token.LSS, token.LEQ, token.NEQ:
				bounds = append(bounds, bo.Y)
			case token.GTR, token.GEQ:
				bounds = append(bounds, bo.X)
			}
		}
	}
	// slices alive at the header bound integer phis
	resolve := func(st *State, v ssa.Value) *Term {
		if c, ok := v.(*ssa.Const); ok {
			if t, ok := st.constVal(c).(*Term); ok {
				return t
			}
			return nil
		}
		if c, ok := v.(*ssa.Call); ok {
			if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				if s, ok := st.top().regs[c.Call.Args[0]].(*SliceV); ok {
					return s.Len
				}
			}
		}
		if in, ok := v.(ssa.Instruction); ok && in.Block() != nil && li.body[in.Block().Index] {
			if _, isPhi := v.(*ssa.Phi); !isPhi {
				return nil
			}
		}
		t, _ := st.top().regs[v].(*Term)
		return t
	}
	// integers used as slice bounds or compared in the body
	for bi := range li.body {
		for _, in := range f.fn.Blocks[bi].Instrs {
			switch x := in.(type) {
			case *ssa.BinOp:
				switch x.Op {
				case token.LSS, token.LEQ, token.GEQ, token.GTR, token.EQL, token.NEQ:
					bounds = append(bounds, x.X, x.Y)
				}
			case *ssa.Slice:
				if x.High != nil {
					bounds = append(bounds, x.High)
				}
			}
		}
	}
	seenB := map[string]bool{}
	for _, in := range li.hdr.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if p.Type().String() == "*container/list.Element" {
			if e, ok := entry[p].(*Term); ok {
				for _, ev := range st.ev {
					if r, ok := ev.Res.(*Term); ok && ev.Name == "List.Front" && r == e {
						l, p := ev.Recv.(*Term), p
						out = append(out, cand{fk + ":" + p.Name() + " in list", func(st *State) *Term {
							x := st.top().regs[p].(*Term)
							return b.Or(b.Eq(x, b.BV(0, 32)), b.Eq(st.read("list.of", 32, kScalar, x), l))
						}})
						break
					}
				}
			}
		}
		bt, isB := p.Type().Underlying().(*types.Basic)
		if isB && bt.Info()&types.IsInteger != 0 {
			sg := isSigned(p.Type())
			le := OUle
			lt := OUlt
			if sg {
				le, lt = OSle, OSlt
			}
			if e, ok := entry[p].(*Term); ok {
				p := p
				out = append(out, cand{fk + ":" + p.Name() + ">=entry", func(st *State) *Term {
					return b.Bin(le, e, st.top().regs[p].(*Term))
				}}, cand{fk + ":" + p.Name() + "<=entry", func(st *State) *Term {
					return b.Bin(le, st.top().regs[p].(*Term), e)
				}})
				if sg {
					out = append(out, cand{fk + ":" + p.Name() + ">=-1", func(st *State) *Term {
						return b.Bin(OSle, b.BV(mask(intWidth(bt)), intWidth(bt)), st.top().regs[p].(*Term))
					}})
				}
			}
			for _, bd := range bounds {
				if bd == ssa.Value(p) || !types.Identical(bd.Type(), p.Type()) {
					continue
				}
				bd, p := bd, p
				if resolve(st, bd) == nil {
					continue
				}
				nm := fk + ":" + p.Name() + "<=" + bd.Name()
				if seenB[nm] {
					continue
				}
				seenB[nm] = true
				out = append(out, cand{nm, func(st *State) *Term {
					t := resolve(st, bd)
					if t == nil {
						return nil
					}
					return b.Bin(le, st.top().regs[p].(*Term), t)
				}}, cand{fk + ":" + p.Name() + "<" + bd.Name(), func(st *State) *Term {
					t := resolve(st, bd)
					if t == nil {
						return nil
					}
					return b.Bin(lt, st.top().regs[p].(*Term), t)
				}})
			}
			// number of bytes already accepted by the ghost writer
			if _, ok := st.ghost["wpos"]; ok && intWidth(bt) == 64 {
				p := p
				if e, ok := entry[p].(*Term); ok {
					out = append(out, cand{fk + ":" + p.Name() + "=written", func(st *State) *Term {
						w := st.read("ghost.wpos", 64, kScalar, b.BV(1, 32))
						return b.Eq(b.Add(e, w), st.top().regs[p].(*Term))
					}}, cand{fk + ":" + p.Name() + "=left", func(st *State) *Term {
						w := st.read("ghost.wpos", 64, kScalar, b.BV(1, 32))
						return b.Eq(b.Sub(e, w), st.top().regs[p].(*Term))
					}})
				}
			}
			// merge loops
			out = append(out, st.mergeCands(ci, li, p, fk)...)
		}
	}
	// slices carried around the loop are suffixes of the slice the loop started with
	for _, in := range li.hdr.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		e, ok := entry[p].(*SliceV)
		if !ok {
			continue
		}
		g := func(st *State) *SliceV { return st.top().regs[p].(*SliceV) }
		nm := fk + ":" + p.Name()
		out = append(out,
			cand{nm + ".arr=entry", func(st *State) *Term { return b.Eq(g(st).Arr, e.Arr) }},
			cand{nm + ".end=entry", func(st *State) *Term {
				return b.And(b.Eq(b.Add(g(st).Off, g(st).Len), b.Add(e.Off, e.Len)), b.Eq(b.Add(g(st).Off, g(st).Cap), b.Add(e.Off, e.Cap)))
			}},
			cand{nm + ".len<=entry", func(st *State) *Term {
				return b.And(b.Bin(OSle, b.BV(0, 64), g(st).Len), b.Bin(OSle, g(st).Len, e.Len))
			}})
		if _, on := st.ghost["wpos"]; on {
			out = append(out, cand{nm + ".len=entry-written", func(st *State) *Term {
				w := st.read("ghost.wpos", 64, kScalar, b.BV(1, 32))
				return b.Eq(g(st).Len, b.Sub(e.Len, w))
			}})
		}
	}
	if _, on := st.ghost["wpos"]; on {
		one := b.BV(1, 32)
		out = append(out, cand{fk + ":!wbad", func(st *State) *Term { return b.Not(st.read("ghost.wbad", 0, kScalar, one)) }},
			cand{fk + ":wpos>=0", func(st *State) *Term { return b.Bin(OSle, b.BV(0, 64), st.read("ghost.wpos", 64, kScalar, one)) }})
		seen := map[string]bool{}
		base := func(nm string, s *SliceV) {
			if seen[nm] {
				return
			}
			seen[nm] = true
			out = append(out, cand{fk + ":wbase=" + nm, func(st *State) *Term {
				return b.Or(b.Eq(st.read("ghost.wpos", 64, kScalar, one), b.BV(0, 64)),
					b.And(b.Eq(st.read("ghost.wbase", 32, kScalar, one), s.Arr), b.Eq(st.read("ghost.wboff", 64, kScalar, one), s.Off)))
			}})
		}
		for _, blk := range f.fn.Blocks {
			if li.body[blk.Index] && blk != li.hdr {
				continue
			}
			for _, in := range blk.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || !isByteSlice(v.Type()) {
					continue
				}
				if p, ok := in.(*ssa.Phi); ok && blk == li.hdr {
					if e, ok := entry[p].(*SliceV); ok {
						base("entry."+p.Name(), e)
					}
					continue
				}
				if s, ok := f.regs[v].(*SliceV); ok && blk != li.hdr {
					base(v.Name(), s)
				}
			}
		}
		for _, p := range f.fn.Params {
			if s, ok := f.regs[p].(*SliceV); ok && isByteSlice(p.Type()) {
				base(p.Name(), s)
			}
		}
	}
	out = append(out, st.userInvs(fk)...)
	return out
}

// mergeCands: for every field written on an object allocated by the unit, relate it to the fields of
// the same name of a slice of option structs.
func (st *State) mergeCands(ci *CutInfo, li *loopInfo, p *ssa.Phi, fk string) []cand {
	b := st.u.b
	f := st.top()
	var out []cand
	for _, name := range sortedKeys(ci.writes) {
		w := ci.writes[name]
		for _, id := range sortedInts(w.refs) {
			ref := w.refs[id]
			if !isFreshC(ref) {
				continue
			}
			for _, prm := range f.fn.Params {
				sl, ok := prm.Type().Underlying().(*types.Slice)
				if !ok {
					continue
				}
				pt, ok := sl.Elem().Underlying().(*types.Pointer)
				if !ok || !strings.HasPrefix(name, typeKey(pt.Elem())+".") {
					continue
				}
				su, ok := pt.Elem().Underlying().(*types.Struct)
				if !ok {
					continue
				}
				fname, li := "", 0
				for i := 0; i < su.NumFields(); i++ {
					for j, l := range leaves(su.Field(i).Type()) {
						if name == typeKey(pt.Elem())+"."+su.Field(i).Name()+l.suf {
							fname, li = su.Field(i).Name(), j
						}
					}
				}
				if fname == "" {
					continue
				}
				sv, ok := f.regs[prm].(*SliceV)
				if !ok {
					continue
				}
				for k := 0; k <= 1; k++ {
					k := k
					nm := fmt.Sprintf("%s:%s@%d=lastset(%s+%d)", fk, name, ref.V-freshBase, p.Name(), k)
					out = append(out, cand{nm, func(st *State) *Term {
						n := b.Add(st.top().regs[p].(*Term), b.BV(uint64(k), 64))
						mi := st.u.minfo[name]
						cur := st.read(name, mi.w, mi.kind, ref)
						return b.Eq(cur, st.lastSet(sv, pt.Elem(), fname, n)[li])
					}})
					// going through the options from the last to the first
					first := strings.TrimSuffix(name, leaves(fieldType(su, fname))[li].suf) + leaves(fieldType(su, fname))[0].suf
					out = append(out, cand{nm + " or set", func(st *State) *Term {
						n := b.Add(st.top().regs[p].(*Term), b.BV(uint64(k), 64))
						mi := st.u.minfo[name]
						cur := st.read(name, mi.w, mi.kind, ref)
						fi := leaves(fieldType(su, fname))[0]
						st.minfo(first, fi.w, fi.kind)
						set := b.Ne(st.read(first, fi.w, fi.kind, ref), st.zeroW(fi.w))
						return b.Eq(b.Ite(set, cur, st.lastSet(sv, pt.Elem(), fname, n)[li]), st.lastSet(sv, pt.Elem(), fname, sv.Len)[li])
					}})
				}
			}
		}
	}
	return out
}

func fieldType(s *types.Struct, name string) types.Type {
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i).Type()
		}
	}
	return nil
}

// lastSet(opts, F, n) is the value of field F (its leaves) in the last of the first n options that
// is not nil and sets it, zero if none does; defined over the memory at the start of the unit.
func (st *State) lastSet(s *SliceV, et types.Type, field string, n *Term) []*Term {
	b := st.u.b
	var ft types.Type
	u := et.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == field {
			ft = u.Field(i).Type()
		}
	}
	if ft == nil {
		unsup("lastset: field %s", field)
	}
	ls := leaves(ft)
	uf := func(i int, k *Term) *Term {
		return b.UF("lastset:"+typeKey(et)+"."+field+ls[i].suf, ls[i].w, s.Arr, s.Off, k)
	}
	var out []*Term
	for i := range ls {
		out = append(out, uf(i, n))
	}
	key := "lastset:" + fmt.Sprint(out[0].id)
	if !st.once[key] {
		st.once[key] = true
		k1 := b.Sub(n, b.BV(1, 64))
		pre := st.pre
		if pre == nil {
			pre = st.mem
		}
		pe := "arr:" + typeKey(types.NewPointer(et))
		st.minfo(pe, 32, kRef)
		ref := st.u.readMem(pre[pe], pe, 32, kRef, []*Term{s.Arr, b.Add(s.Off, k1)})
		var vals []*Term
		for _, l := range ls {
			nm := typeKey(et) + "." + field + l.suf
			st.minfo(nm, l.w, l.kind)
			vals = append(vals, st.u.readMem(pre[nm], nm, l.w, l.kind, []*Term{ref}))
		}
		set := b.And(b.Ne(ref, b.BV(0, 32)), b.Ne(vals[0], st.zeroW(ls[0].w)))
		for i, l := range ls {
			st.assume(b.Eq(out[i], b.Ite(b.Bin(OSle, n, b.BV(0, 64)), st.zeroW(l.w), b.Ite(set, vals[i], uf(i, k1)))))
		}
	}
	return out
}

func (st *State) noteEvent(name string) {
	for _, c := range st.cuts {
		if !c.ci.evset[name] {
			c.ci.evset[name] = true
			st.u.changed = true
		}
	}
}

func (st *State) onWrite(name string, idx []*Term) {
	for _, c := range st.cuts {
		w := c.ci.writes[name]
		if w != nil && w.all {
			continue
		}
		if len(idx) == 0 || idx[0] == nil || idx[0].W != 32 {
			if w == nil {
				w = &wset{refs: map[int]*Term{}}
				c.ci.writes[name] = w
			}
			w.all = true
			st.u.again = true
			continue
		}
		ref := idx[0]
		if isFreshC(ref) && ref.V-freshBase >= c.nf {
			continue
		}
		if w != nil && w.refs[ref.id] != nil {
			continue
		}
		if w == nil {
			w = &wset{refs: map[int]*Term{}}
			c.ci.writes[name] = w
		}
		if ref.ser > c.ser {
			w.all = true
		} else {
			w.refs[ref.id] = ref
		}
		st.u.again = true
	}
}
