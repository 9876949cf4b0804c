package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"
)

// Values. Scalars are *Term; composite values are Go-level structures of terms.
type Val interface{}

type SliceV struct{ Arr, Off, Len, Cap *Term }
type IfaceV struct{ Tag, Pay *Term }
type StructV struct {
	T types.Type
	F []Val
}
type TupleV struct{ V []Val }

// LocV is a static address: memory prefix plus index terms.
type LocV struct {
	Prefix string
	Idx    []*Term
	T      types.Type // type of the location
}

type lkind uint8

const (
	kScalar lkind = iota
	kRef
	kStr
	kLen
	kTag
	kPay
)

type leaf struct {
	suf  string
	w    int
	kind lkind
	t    types.Type
}

func typeKey(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	if strings.Contains(s, "uint8") {
		s = strings.ReplaceAll(s, "uint8", "byte")
	}
	return s
}

func isTime(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}

func isOpaqueStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() {
	case "sync", "sync/atomic":
		return true
	}
	return false
}

var (
	leafMu   sync.Mutex
	leafMemo = map[types.Type][]leaf{}
)

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

func leaves(t types.Type) []leaf {
	leafMu.Lock()
	r, ok := leafMemo[t]
	leafMu.Unlock()
	if ok {
		return r
	}
	r = leaves0(t)
	leafMu.Lock()
	leafMemo[t] = r
	leafMu.Unlock()
	return r
}

func leaves0(t types.Type) []leaf {
	if isTime(t) {
		return []leaf{{"", 64, kScalar, t}}
	}
	if isOpaqueStruct(t) {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []leaf{{"", 0, kScalar, t}}
		case u.Info()&types.IsString != 0:
			return []leaf{{"", 32, kStr, t}}
		case u.Info()&types.IsFloat != 0:
			return []leaf{{"", 64, kScalar, t}}
		case u.Info()&types.IsInteger != 0:
			return []leaf{{"", intWidth(u), kScalar, t}}
		case u.Kind() == types.UnsafePointer:
			return []leaf{{"", 32, kRef, t}}
		case u.Kind() == types.UntypedNil:
			return []leaf{{"", 32, kRef, t}}
		}
	case *types.Pointer, *types.Chan, *types.Map, *types.Signature:
		return []leaf{{"", 32, kRef, t}}
	case *types.Slice:
		return []leaf{{".arr", 32, kRef, t}, {".off", 64, kLen, t}, {".len", 64, kLen, t}, {".cap", 64, kLen, t}}
	case *types.Interface:
		return []leaf{{".tag", 16, kTag, t}, {".pay", 64, kPay, t}}
	case *types.Struct:
		var out []leaf
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range leaves(f.Type()) {
				out = append(out, leaf{"." + f.Name() + l.suf, l.w, l.kind, l.t})
			}
		}
		return out
	case *types.Array:
		return nil // arrays only as allocated objects
	case *types.Tuple:
		var out []leaf
		for i := 0; i < u.Len(); i++ {
			for _, l := range leaves(u.At(i).Type()) {
				out = append(out, leaf{fmt.Sprintf("#%d%s", i, l.suf), l.w, l.kind, l.t})
			}
		}
		return out
	}
	unsup("type %s", t)
	return nil
}

func intWidth(u *types.Basic) int {
	switch u.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	}
	return 64
}

func isSigned(t types.Type) bool {
	if isTime(t) {
		return true
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Info()&types.IsUnsigned == 0
	}
	return false
}

// unflatten builds a value of type t from leaf terms.
func unflatten(t types.Type, ts []*Term) Val {
	v, rest := unflat(t, ts)
	if len(rest) != 0 {
		panic("unflatten")
	}
	return v
}

func unflat(t types.Type, ts []*Term) (Val, []*Term) {
	if isTime(t) {
		return ts[0], ts[1:]
	}
	if isOpaqueStruct(t) {
		return &StructV{T: t}, ts
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return &SliceV{ts[0], ts[1], ts[2], ts[3]}, ts[4:]
	case *types.Interface:
		return &IfaceV{ts[0], ts[1]}, ts[2:]
	case *types.Struct:
		s := &StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			var f Val
			f, ts = unflat(u.Field(i).Type(), ts)
			s.F = append(s.F, f)
		}
		return s, ts
	case *types.Array:
		return &StructV{T: t}, ts
	case *types.Tuple:
		s := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			var f Val
			f, ts = unflat(u.At(i).Type(), ts)
			s.V = append(s.V, f)
		}
		return s, ts
	}
	return ts[0], ts[1:]
}

func (st *State) flatten(v Val) []*Term {
	switch x := v.(type) {
	case *Term:
		return []*Term{x}
	case *SliceV:
		return []*Term{x.Arr, x.Off, x.Len, x.Cap}
	case *IfaceV:
		return []*Term{x.Tag, x.Pay}
	case *StructV:
		var out []*Term
		for _, f := range x.F {
			out = append(out, st.flatten(f)...)
		}
		return out
	case *TupleV:
		var out []*Term
		for _, f := range x.V {
			out = append(out, st.flatten(f)...)
		}
		return out
	case *LocV:
		return []*Term{st.reify(x)}
	case nil:
		return nil
	}
	panic(fmt.Sprintf("flatten %T", v))
}

// reify turns a static interior address into an opaque object identifier.
func (st *State) reify(l *LocV) *Term {
	b := st.u.b
	if len(l.Idx) == 1 && l.Prefix == ptrPrefix(l.T) {
		return l.Idx[0]
	}
	t := b.UF("addr:"+l.Prefix, 32, l.Idx...)
	old := true
	for _, i := range l.Idx {
		if i.W == 32 && !i.old {
			old = false
		}
	}
	if old {
		t.old = true
	}
	st.assumeOnce(b.Ne(t, b.BV(0, 32)))
	if st.locs == nil {
		st.locs = map[*Term]*LocV{}
	} else {
		st.locs = copyLocs(st.locs)
	}
	st.locs[t] = l
	return t
}

func copyLocs(m map[*Term]*LocV) map[*Term]*LocV {
	n := make(map[*Term]*LocV, len(m)+1)
	for k, v := range m {
		n[k] = v
	}
	return n
}

// ptrPrefix is the memory prefix of the object a pointer of element type t refers to.
func ptrPrefix(t types.Type) string {
	if _, ok := t.Underlying().(*types.Struct); ok && !isTime(t) {
		return typeKey(t)
	}
	return "cell:" + typeKey(t)
}

func (st *State) zero(t types.Type) Val {
	ls := leaves(t)
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		if isTime(l.t) && l.w == 64 {
			ts[i] = st.u.b.BV(zeroTime, 64)
			continue
		}
		ts[i] = st.zeroW(l.w)
	}
	return unflatten(t, ts)
}

// time.Time is modelled as signed nanoseconds with the zero time a distinguished far-past value.
const zeroTime = 0

func (st *State) zeroW(w int) *Term {
	if w == 0 {
		return st.u.b.False
	}
	return st.u.b.BV(0, w)
}

// freshVal makes an unconstrained value of type t (with type invariants assumed).
func (st *State) freshVal(name string, t types.Type, old bool) Val {
	ls := leaves(t)
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		ts[i] = st.u.b.Fresh(name+l.suf, l.w)
		if old && (l.kind == kRef || l.kind == kPay) {
			ts[i].old = true
		}
	}
	v := unflatten(t, ts)
	st.typeInv(v, t)
	return v
}

const maxLen = uint64(1) << 40

// typeInv assumes the invariants every Go value of the type has.
func (st *State) typeInv(v Val, t types.Type) {
	b := st.u.b
	switch x := v.(type) {
	case *SliceV:
		if isC(x.Len) && isC(x.Cap) && isC(x.Off) {
			return
		}
		z := b.BV(0, 64)
		m := b.BV(maxLen, 64)
		st.assumeOnce(b.And(b.Bin(OSle, z, x.Len), b.Bin(OSle, x.Len, x.Cap), b.Bin(OSlt, x.Cap, m),
			b.Bin(OSle, z, x.Off), b.Bin(OSlt, x.Off, m),
			b.Implies(b.Eq(x.Arr, b.BV(0, 32)), b.Eq(x.Cap, z))))
	case *IfaceV:
		if st.u.merge && !isC(x.Tag) {
			st.assumeOnce(b.Implies(b.Eq(x.Tag, b.BV(0, 16)), b.Eq(x.Pay, b.BV(0, 64))))
		}
	case *StructV:
		if u, ok := x.T.Underlying().(*types.Struct); ok && !isTime(x.T) {
			for i, f := range x.F {
				st.typeInv(f, u.Field(i).Type())
			}
		}
	case *TupleV:
		if u, ok := t.(*types.Tuple); ok {
			for i, f := range x.V {
				st.typeInv(f, u.At(i).Type())
			}
		}
	case *Term:
		if x.old && x.W == 32 && !isC(x) {
			st.assumeOnce(b.Bin(OUlt, x, b.BV(freshBase, 32)))
		}
	}
}

// dynamic type tags -----------------------------------------------------------

var (
	tagMu   sync.Mutex
	tagTab  = map[string]uint64{}
	tagType = map[uint64]types.Type{}
)

func tagOf(t types.Type) uint64 {
	k := typeKey(t)
	tagMu.Lock()
	defer tagMu.Unlock()
	if v, ok := tagTab[k]; ok {
		return v
	}
	v := uint64(len(tagTab) + 1)
	tagTab[k] = v
	tagType[v] = t
	return v
}

func typeOfTag(v uint64) types.Type {
	tagMu.Lock()
	defer tagMu.Unlock()
	return tagType[v]
}

// memory ----------------------------------------------------------------------

type memKind uint8

const (
	mWrite memKind = iota
	mRange         // array range [Idx[1], Idx[1]+N) of array Idx[0] := Src(i)
	mHavoc         // Idx nil: everything; else only first index == Idx[0]
	mMono          // flag possibly cleared by another goroutine
)

type MemLog struct {
	prev *MemLog
	kind memKind
	idx  []*Term
	val  *Term
	n    *Term
	src  func(i *Term) *Term
	ep   string
	ser  int
	nf   uint64 // objects allocated from this number on are unaffected by a havoc
	dep  int
}

type memInfo struct {
	w    int
	kind lkind
	zero uint64
}

func (st *State) minfo(name string, w int, kind lkind) {
	if _, ok := st.u.minfo[name]; !ok {
		st.u.minfo[name] = memInfo{w: w, kind: kind}
	}
}

type rdKey struct {
	h *MemLog
	n string
	i string
}

func idxKey(idx []*Term) string {
	var sb strings.Builder
	for _, i := range idx {
		fmt.Fprintf(&sb, "%d,", i.id)
	}
	return sb.String()
}

func (u *Unit) readMem(h *MemLog, name string, w int, kind lkind, idx []*Term) *Term {
	k := rdKey{h, name, idxKey(idx)}
	if r, ok := u.rdMemo[k]; ok {
		return r
	}
	r := u.readMem0(h, name, w, kind, idx)
	u.rdMemo[k] = r
	return r
}

func (u *Unit) readMem0(h *MemLog, name string, w int, kind lkind, idx []*Term) *Term {
	b := u.b
	if len(idx) > 0 && idx[0].W == 32 && idx[0].Op == OIte {
		i0 := idx[0]
		a := append([]*Term{i0.A[1]}, idx[1:]...)
		c := append([]*Term{i0.A[2]}, idx[1:]...)
		return b.Ite(i0.A[0], u.readMem(h, name, w, kind, a), u.readMem(h, name, w, kind, c))
	}
	if h == nil {
		return u.baseRead(name, "@0", 0, 0, w, kind, idx)
	}
	switch h.kind {
	case mWrite:
		eq := b.True
		var cs []*Term
		for i := range idx {
			c := b.Eq(idx[i], h.idx[i])
			if c == b.False {
				return u.readMem(h.prev, name, w, kind, idx)
			}
			cs = append(cs, c)
		}
		eq = b.And(cs...)
		if eq == b.True {
			return h.val
		}
		if eq == b.False {
			return u.readMem(h.prev, name, w, kind, idx)
		}
		return b.Ite(eq, h.val, u.readMem(h.prev, name, w, kind, idx))
	case mRange:
		c := b.Eq(idx[0], h.idx[0])
		if c == b.False {
			return u.readMem(h.prev, name, w, kind, idx)
		}
		rel := b.Sub(idx[1], h.idx[1])
		in := b.Bin(OUlt, rel, h.n)
		c = b.And(c, in)
		if c == b.False {
			return u.readMem(h.prev, name, w, kind, idx)
		}
		v := h.src(rel)
		if c == b.True {
			return v
		}
		return b.Ite(c, v, u.readMem(h.prev, name, w, kind, idx))
	case mHavoc:
		if h.idx == nil {
			return u.baseRead(name, h.ep, h.ser, h.nf, w, kind, idx)
		}
		c := b.Eq(idx[0], h.idx[0])
		if c == b.False {
			return u.readMem(h.prev, name, w, kind, idx)
		}
		if c == b.True {
			return u.baseRead(name, h.ep, h.ser, h.nf, w, kind, idx)
		}
		return b.Ite(c, u.baseRead(name, h.ep, h.ser, h.nf, w, kind, idx), u.readMem(h.prev, name, w, kind, idx))
	case mMono:
		// another goroutine may have turned the flag from true to false, never back
		p, n := u.readMem(h.prev, name, w, kind, idx), u.baseRead(name, h.ep, h.ser, h.nf, w, kind, idx)
		if w != 0 {
			// a word that other goroutines only ever set from zero
			return b.Ite(b.Ne(p, b.BV(0, w)), p, n)
		}
		return b.And(p, n)
	}
	panic("mem")
}

func (u *Unit) baseRead(name, ep string, ser int, nf uint64, w int, kind lkind, idx []*Term) *Term {
	b := u.b
	if len(idx) > 0 && isFreshC(idx[0]) && idx[0].V >= freshBase+nf {
		if w == 0 {
			return b.False
		}
		return b.BV(0, w)
	}
	if len(idx) > 0 && idx[0].W == 32 && isC(idx[0]) && idx[0].V == 0 {
		// nil map or nil array: reads give zero (nil struct dereference is handled elsewhere)
		if strings.HasPrefix(name, "map:") {
			if w == 0 {
				return b.False
			}
			return b.BV(0, w)
		}
	}
	t := b.UFS(name+ep, ser, w, idx...)
	if (kind == kRef || kind == kPay) && ep == "@0" {
		old := true
		for _, i := range idx {
			if i.W == 32 && !i.old && !isC(i) {
				old = false
			}
			if isFreshC(i) {
				old = false
			}
		}
		t.old = old
	}
	return t
}

func (st *State) read(name string, w int, kind lkind, idx ...*Term) *Term {
	st.minfo(name, w, kind)
	return st.u.readMem(st.mem[name], name, w, kind, idx)
}

func (st *State) write(name string, w int, kind lkind, v *Term, idx ...*Term) {
	st.minfo(name, w, kind)
	if v.W != w {
		panic(fmt.Sprintf("write %s width %d want %d", name, v.W, w))
	}
	st.onWrite(name, idx)
	p := st.mem[name]
	st.setMem(name, &MemLog{prev: p, kind: mWrite, idx: idx, val: v, dep: depth(p) + 1})
}

// writeRange copies n elements into array arr from index off on.
func (st *State) writeRange(name string, w int, kind lkind, arr, off, n *Term, src func(i *Term) *Term) {
	st.minfo(name, w, kind)
	if isC(n) && n.V == 0 {
		return
	}
	st.onWrite(name, []*Term{arr})
	p := st.mem[name]
	st.setMem(name, &MemLog{prev: p, kind: mRange, idx: []*Term{arr, off}, n: n, src: src, dep: depth(p) + 1})
}

func (st *State) setMem(name string, l *MemLog) {
	if st.memShared {
		m := make(map[string]*MemLog, len(st.mem)+8)
		for k, v := range st.mem {
			m[k] = v
		}
		st.mem = m
		st.memShared = false
	}
	st.mem[name] = l
}

func depth(p *MemLog) int {
	if p == nil {
		return 0
	}
	return p.dep
}

func (st *State) havoc(name string, ref *Term) {
	p := st.mem[name]
	st.u.b.ctr++
	l := &MemLog{prev: p, kind: mHavoc, ep: fmt.Sprintf("@%d", st.u.b.ctr), ser: st.u.b.ctr, nf: st.nfresh, dep: depth(p) + 1}
	if ref != nil {
		l.idx = []*Term{ref}
		l.nf = 1 << 31
	}
	st.onWrite(name, l.idx)
	st.setMem(name, l)
}

// weaken models interference by other goroutines on a monotone flag.
func (st *State) weaken(name string) {
	p := st.mem[name]
	st.u.b.ctr++
	if strings.HasSuffix(name, "!") {
		// changed in any way
		name = strings.TrimSuffix(name, "!")
		p = st.mem[name]
		st.setMem(name, &MemLog{prev: p, kind: mHavoc, ep: fmt.Sprintf("@%d", st.u.b.ctr), ser: st.u.b.ctr, nf: 1 << 31, dep: depth(p) + 1})
		return
	}
	st.setMem(name, &MemLog{prev: p, kind: mMono, ep: fmt.Sprintf("@%d", st.u.b.ctr), ser: st.u.b.ctr, nf: 1 << 31, dep: depth(p) + 1})
}

// load / store typed values through a location.
func (st *State) load(l *LocV) Val {
	ls := leaves(l.T)
	ts := make([]*Term, len(ls))
	for i, lf := range ls {
		ts[i] = st.read(l.Prefix+lf.suf, lf.w, lf.kind, l.Idx...)
	}
	v := unflatten(l.T, ts)
	st.typeInv(v, l.T)
	// an address stored in memory may denote a known static location
	return v
}

func (st *State) store(l *LocV, v Val) {
	ls := leaves(l.T)
	ts := st.flatten(v)
	if len(ls) != len(ts) {
		unsup("store %s: %d leaves, %d terms", l.T, len(ls), len(ts))
	}
	for i, lf := range ls {
		st.write(l.Prefix+lf.suf, lf.w, lf.kind, ts[i], l.Idx...)
	}
}

// deref gives the location a pointer value of type *t points to.
func (st *State) deref(v Val, t types.Type) *LocV {
	switch x := v.(type) {
	case *LocV:
		return x
	case *Term:
		if l, ok := st.locs[x]; ok {
			return l
		}
		return &LocV{Prefix: ptrPrefix(t), Idx: []*Term{x}, T: t}
	}
	unsup("deref %T", v)
	return nil
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
