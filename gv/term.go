package main

// Terms: quantifier-free bit-vector/boolean terms with uninterpreted functions.
// Machine integers are bit-vectors of their Go width, pointers, maps, channels and function
// values are 32-bit object identifiers (0 = nil, >= freshBase = allocated on this path),
// strings are 32-bit identifiers (string constants are distinct numerals).

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
	"sync"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OUF
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OBAnd
	OBOr
	OBXor
	OShl
	OLshr
	OAshr
	OUlt
	OUle
	OSlt
	OSle
	OUdiv
	OUrem
	OSdiv
	OSrem
	OExtract // V = hi<<8|lo
	OConcat
	OZext
	OSext
	ONeg
	OBNot
)

const freshBase = 0x80000000

type Term struct {
	Op  Op
	W   int // 0 = Bool
	A   []*Term
	V   uint64
	N   string
	id  int
	old bool // object identifier that existed before the unit started
	ser int  // largest creation serial of a fresh symbol occurring in the term
}

// B is a hash-consing term builder; one per verification unit (not shared between goroutines).
type B struct {
	tab   map[string]*Term
	n     int
	ctr   int
	True  *Term
	False *Term
}

func NewB() *B {
	b := &B{tab: map[string]*Term{}}
	b.True = b.mk(&Term{Op: OConst, W: 0, V: 1})
	b.False = b.mk(&Term{Op: OConst, W: 0, V: 0})
	return b
}

func (b *B) mk(t *Term) *Term {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d|%d|%x|%s", t.Op, t.W, t.V, t.N)
	for _, a := range t.A {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	k := sb.String()
	if o, ok := b.tab[k]; ok {
		return o
	}
	t.id = b.n
	b.n++
	for _, a := range t.A {
		if a.ser > t.ser {
			t.ser = a.ser
		}
	}
	b.tab[k] = t
	return t
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func (b *B) Bool(v bool) *Term {
	if v {
		return b.True
	}
	return b.False
}

func (b *B) BV(v uint64, w int) *Term {
	return b.mk(&Term{Op: OConst, W: w, V: v & mask(w)})
}

func (b *B) Var(name string, w int) *Term { return b.mk(&Term{Op: OVar, W: w, N: name}) }

// Fresh returns a new variable.
func (b *B) Fresh(name string, w int) *Term {
	b.ctr++
	t := b.Var(fmt.Sprintf("%s!%d", name, b.ctr), w)
	t.ser = b.ctr
	return t
}

func (b *B) UF(name string, w int, args ...*Term) *Term {
	return b.mk(&Term{Op: OUF, W: w, N: name, A: args})
}

// UFS is UF for a function symbol created at serial ser.
func (b *B) UFS(name string, ser, w int, args ...*Term) *Term {
	return b.mk(&Term{Op: OUF, W: w, N: name, A: args, ser: ser})
}

func isC(t *Term) bool { return t.Op == OConst }

func (b *B) Not(x *Term) *Term {
	if isC(x) {
		return b.Bool(x.V == 0)
	}
	if x.Op == ONot {
		return x.A[0]
	}
	return b.mk(&Term{Op: ONot, A: []*Term{x}})
}

func (b *B) And(xs ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x.Op == OAnd {
			for _, a := range x.A {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if isC(x) {
			return x.V != 0
		}
		if seen[x.id] {
			return true
		}
		n := b.Not(x)
		if seen[n.id] {
			return false
		}
		seen[x.id] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return b.False
		}
	}
	if len(out) == 0 {
		return b.True
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return b.mk(&Term{Op: OAnd, A: out})
}

func (b *B) Or(xs ...*Term) *Term {
	ys := make([]*Term, len(xs))
	for i, x := range xs {
		ys[i] = b.Not(x)
	}
	return b.Not(b.And(ys...))
}

func (b *B) Implies(x, y *Term) *Term { return b.Or(b.Not(x), y) }

func (b *B) Ite(c, x, y *Term) *Term {
	if isC(c) {
		if c.V != 0 {
			return x
		}
		return y
	}
	if x == y {
		return x
	}
	if x.W == 0 {
		if isC(x) {
			if x.V != 0 {
				return b.Or(c, y)
			}
			return b.And(b.Not(c), y)
		}
		if isC(y) {
			if y.V != 0 {
				return b.Or(b.Not(c), x)
			}
			return b.And(c, x)
		}
	}
	if c.Op == ONot {
		c, x, y = c.A[0], y, x
	}
	if y.Op == OIte && y.A[0] == c {
		y = y.A[2]
	}
	if x.Op == OIte && x.A[0] == c {
		x = x.A[1]
	}
	if x == y {
		return x
	}
	return b.mk(&Term{Op: OIte, W: x.W, A: []*Term{c, x, y}, old: false})
}

func isFreshC(t *Term) bool { return isC(t) && t.W == 32 && t.V >= freshBase }

func (b *B) Eq(x, y *Term) *Term {
	if x == y {
		return b.True
	}
	if x.W != y.W {
		panic(fmt.Sprintf("Eq width %d %d: %s %s", x.W, y.W, show(x), show(y)))
	}
	if isC(x) && isC(y) {
		return b.Bool(x.V == y.V)
	}
	if x.W == 0 {
		if isC(x) {
			if x.V != 0 {
				return y
			}
			return b.Not(y)
		}
		if isC(y) {
			if y.V != 0 {
				return x
			}
			return b.Not(x)
		}
		if x.id > y.id {
			x, y = y, x
		}
		return b.mk(&Term{Op: OEq, A: []*Term{x, y}})
	}
	if (isFreshC(x) && y.old) || (isFreshC(y) && x.old) {
		return b.False
	}
	if isC(y) {
		x, y = y, x
	}
	// x possibly const now
	if isC(x) {
		switch y.Op {
		case OIte:
			if isC(y.A[1]) || isC(y.A[2]) || isFreshC(x) {
				return b.Ite(y.A[0], b.Eq(x, y.A[1]), b.Eq(x, y.A[2]))
			}
		case OAdd:
			if isC(y.A[1]) {
				return b.Eq(b.BV(x.V-y.A[1].V, x.W), y.A[0])
			}
		case OZext:
			in := y.A[0]
			if x.V > mask(in.W) {
				return b.False
			}
			return b.Eq(b.BV(x.V, in.W), in)
		}
	}
	if x.Op == OAdd && y.Op == OAdd {
		if isC(x.A[1]) && isC(y.A[1]) {
			if x.A[0] == y.A[0] {
				return b.Bool(x.A[1].V == y.A[1].V)
			}
		}
	}
	if x.Op == OAdd && isC(x.A[1]) && x.A[0] == y || y.Op == OAdd && isC(y.A[1]) && y.A[0] == x {
		return b.False // constant part is non-zero by construction
	}
	if x.Op == OZext && y.Op == OZext && x.A[0].W == y.A[0].W {
		return b.Eq(x.A[0], y.A[0])
	}
	// linear difference
	if x.W == 64 && (x.Op == OAdd || y.Op == OAdd || x.Op == OSub || y.Op == OSub) {
		d := b.Sub(x, y)
		if isC(d) {
			return b.Bool(d.V == 0)
		}
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk(&Term{Op: OEq, A: []*Term{x, y}})
}

func (b *B) Ne(x, y *Term) *Term { return b.Not(b.Eq(x, y)) }

// linear form helpers -------------------------------------------------------

type lin struct {
	c uint64
	m map[*Term]uint64
}

func (b *B) linOf(t *Term, k uint64, l *lin, depth int) {
	if isC(t) {
		l.c += k * t.V
		return
	}
	if depth < 12 {
		switch t.Op {
		case OAdd:
			b.linOf(t.A[0], k, l, depth+1)
			b.linOf(t.A[1], k, l, depth+1)
			return
		case OSub:
			b.linOf(t.A[0], k, l, depth+1)
			b.linOf(t.A[1], -k, l, depth+1)
			return
		case OMul:
			if isC(t.A[1]) {
				b.linOf(t.A[0], k*t.A[1].V, l, depth+1)
				return
			}
		}
	}
	l.m[t] += k
}

func (b *B) fromLin(l *lin, w int) *Term {
	var ks []*Term
	for t, k := range l.m {
		if k&mask(w) != 0 {
			ks = append(ks, t)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	var acc *Term
	var neg []*Term
	for _, t := range ks {
		k := l.m[t] & mask(w)
		if k == mask(w) {
			neg = append(neg, t)
			continue
		}
		x := t
		if k != 1 {
			x = b.mk(&Term{Op: OMul, W: w, A: []*Term{t, b.BV(k, w)}})
		}
		if acc == nil {
			acc = x
		} else {
			acc = b.mk(&Term{Op: OAdd, W: w, A: []*Term{acc, x}})
		}
	}
	for _, t := range neg {
		if acc == nil {
			acc = b.mk(&Term{Op: ONeg, W: w, A: []*Term{t}})
		} else {
			acc = b.mk(&Term{Op: OSub, W: w, A: []*Term{acc, t}})
		}
	}
	c := l.c & mask(w)
	if acc == nil {
		return b.BV(c, w)
	}
	if c != 0 {
		acc = b.mk(&Term{Op: OAdd, W: w, A: []*Term{acc, b.BV(c, w)}})
	}
	return acc
}

func (b *B) Add(x, y *Term) *Term {
	l := &lin{m: map[*Term]uint64{}}
	b.linOf(x, 1, l, 0)
	b.linOf(y, 1, l, 0)
	return b.fromLin(l, x.W)
}

func (b *B) Sub(x, y *Term) *Term {
	l := &lin{m: map[*Term]uint64{}}
	b.linOf(x, 1, l, 0)
	b.linOf(y, ^uint64(0), l, 0)
	return b.fromLin(l, x.W)
}

func (b *B) Neg(x *Term) *Term { return b.Sub(b.BV(0, x.W), x) }

func sx(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	if v&(1<<uint(w-1)) != 0 {
		return int64(v | ^mask(w))
	}
	return int64(v)
}

func (b *B) Bin(op Op, x, y *Term) *Term {
	w := x.W
	switch op {
	case OAdd:
		return b.Add(x, y)
	case OSub:
		return b.Sub(x, y)
	}
	if x.W != y.W {
		panic(fmt.Sprintf("Bin %d width %d %d", op, x.W, y.W))
	}
	if isC(x) && isC(y) {
		a, c := x.V, y.V
		sa, sc := sx(a, w), sx(c, w)
		switch op {
		case OMul:
			return b.BV(a*c, w)
		case OBAnd:
			return b.BV(a&c, w)
		case OBOr:
			return b.BV(a|c, w)
		case OBXor:
			return b.BV(a^c, w)
		case OShl:
			if c >= uint64(w) {
				return b.BV(0, w)
			}
			return b.BV(a<<c, w)
		case OLshr:
			if c >= uint64(w) {
				return b.BV(0, w)
			}
			return b.BV(a>>c, w)
		case OAshr:
			if c >= uint64(w) {
				c = uint64(w) - 1
			}
			return b.BV(uint64(sa>>c), w)
		case OUlt:
			return b.Bool(a < c)
		case OUle:
			return b.Bool(a <= c)
		case OSlt:
			return b.Bool(sa < sc)
		case OSle:
			return b.Bool(sa <= sc)
		case OUdiv:
			if c != 0 {
				return b.BV(a/c, w)
			}
		case OUrem:
			if c != 0 {
				return b.BV(a%c, w)
			}
		case OSdiv:
			if sc != 0 {
				return b.BV(uint64(sa/sc), w)
			}
		case OSrem:
			if sc != 0 {
				return b.BV(uint64(sa%sc), w)
			}
		}
	}
	switch op {
	case OUlt, OSlt:
		if x == y {
			return b.False
		}
		if op == OUlt && isC(y) && y.V == 0 {
			return b.False
		}
		return b.mk(&Term{Op: op, A: []*Term{x, y}})
	case OUle, OSle:
		if x == y {
			return b.True
		}
		if op == OUle && isC(x) && x.V == 0 {
			return b.True
		}
		return b.mk(&Term{Op: op, A: []*Term{x, y}})
	case OMul:
		if isC(x) {
			x, y = y, x
		}
		if isC(y) {
			if y.V == 0 {
				return y
			}
			if y.V == 1 {
				return x
			}
		}
	case OBAnd:
		if isC(x) {
			x, y = y, x
		}
		if isC(y) {
			if y.V == 0 {
				return y
			}
			if y.V == mask(w) {
				return x
			}
			if k := bits.TrailingZeros64(^y.V); k < w && y.V == mask(k) && x.Op == OZext {
				return b.Zext(b.Extract(x, k-1, 0), w)
			}
			// (a | c1) & c2 and (a & c1) & c2
			if x.Op == OBAnd && isC(x.A[1]) {
				return b.Bin(OBAnd, x.A[0], b.BV(x.A[1].V&y.V, w))
			}
			if x.Op == OBOr && isC(x.A[1]) {
				if x.A[1].V&y.V == y.V {
					return y
				}
				if x.A[1].V&y.V == 0 {
					return b.Bin(OBAnd, x.A[0], y)
				}
			}
		}
		if x == y {
			return x
		}
	case OBOr:
		if isC(x) {
			x, y = y, x
		}
		if isC(y) {
			if y.V == 0 {
				return x
			}
			if y.V == mask(w) {
				return y
			}
			if x.Op == OBOr && isC(x.A[1]) {
				return b.Bin(OBOr, x.A[0], b.BV(x.A[1].V|y.V, w))
			}
		}
		if x == y {
			return x
		}
	case OBXor:
		if isC(y) && y.V == 0 {
			return x
		}
		if x == y {
			return b.BV(0, w)
		}
	case OShl, OLshr, OAshr:
		if isC(y) && y.V == 0 {
			return x
		}
		if isC(y) && op == OLshr && y.V < uint64(w) {
			return b.Zext(b.Extract(x, w-1, int(y.V)), w)
		}
	}
	return b.mk(&Term{Op: op, W: w, A: []*Term{x, y}})
}

func (b *B) Extract(x *Term, hi, lo int) *Term {
	w := hi - lo + 1
	if w == x.W {
		return x
	}
	if isC(x) {
		return b.BV(x.V>>uint(lo), w)
	}
	switch x.Op {
	case OExtract:
		l0 := int(x.V & 0xff)
		return b.Extract(x.A[0], hi+l0, lo+l0)
	case OConcat:
		// A[0] high, A[1] low
		lw := x.A[1].W
		if hi < lw {
			return b.Extract(x.A[1], hi, lo)
		}
		if lo >= lw {
			return b.Extract(x.A[0], hi-lw, lo-lw)
		}
	case OZext:
		iw := x.A[0].W
		if hi < iw {
			return b.Extract(x.A[0], hi, lo)
		}
		if lo >= iw {
			return b.BV(0, w)
		}
		if lo == 0 {
			return b.Zext(x.A[0], w)
		}
		return b.Zext(b.Extract(x.A[0], iw-1, lo), w)
	case OSext:
		iw := x.A[0].W
		if hi < iw {
			return b.Extract(x.A[0], hi, lo)
		}
	case OIte:
		if isC(x.A[1]) && isC(x.A[2]) {
			return b.Ite(x.A[0], b.Extract(x.A[1], hi, lo), b.Extract(x.A[2], hi, lo))
		}
	case OBOr, OBAnd, OBXor:
		return b.Bin(x.Op, b.Extract(x.A[0], hi, lo), b.Extract(x.A[1], hi, lo))
	case OShl:
		if isC(x.A[1]) {
			s := int(x.A[1].V)
			if lo >= s {
				return b.Extract(x.A[0], hi-s, lo-s)
			}
			if hi < s {
				return b.BV(0, w)
			}
		}
	}
	return b.mk(&Term{Op: OExtract, W: w, A: []*Term{x}, V: uint64(hi)<<8 | uint64(lo)})
}

func (b *B) Concat(x, y *Term) *Term {
	if isC(x) && isC(y) {
		return b.BV(x.V<<uint(y.W)|y.V, x.W+y.W)
	}
	if isC(x) && x.V == 0 {
		return b.Zext(y, x.W+y.W)
	}
	if x.Op == OExtract && y.Op == OExtract && x.A[0] == y.A[0] {
		xl := int(x.V & 0xff)
		yh := int(y.V >> 8)
		if xl == yh+1 {
			return b.Extract(x.A[0], int(x.V>>8), int(y.V&0xff))
		}
	}
	// x = concat(p,q), q adjacent to y
	if x.Op == OConcat {
		q := b.Concat(x.A[1], y)
		if q.Op != OConcat {
			return b.Concat(x.A[0], q)
		}
	}
	return b.mk(&Term{Op: OConcat, W: x.W + y.W, A: []*Term{x, y}})
}

func (b *B) Zext(x *Term, w int) *Term {
	if x.W == w {
		return x
	}
	if x.W > w {
		return b.Extract(x, w-1, 0)
	}
	if isC(x) {
		return b.BV(x.V, w)
	}
	if x.Op == OZext {
		return b.Zext(x.A[0], w)
	}
	return b.mk(&Term{Op: OZext, W: w, A: []*Term{x}})
}

func (b *B) Sext(x *Term, w int) *Term {
	if x.W == w {
		return x
	}
	if x.W > w {
		return b.Extract(x, w-1, 0)
	}
	if isC(x) {
		return b.BV(uint64(sx(x.V, x.W)), w)
	}
	if x.Op == OZext {
		return b.Zext(x.A[0], w)
	}
	return b.mk(&Term{Op: OSext, W: w, A: []*Term{x}})
}

// Ref marks an object identifier variable as pre-existing.
func (b *B) OldRef(t *Term) *Term { t.old = true; return t }

// Subst replaces subterms (by id).
func (b *B) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.A) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		as := make([]*Term, len(t.A))
		ch := false
		for i, a := range t.A {
			as[i] = rec(a)
			if as[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = b.rebuild(t, as)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func (b *B) rebuild(t *Term, as []*Term) *Term {
	switch t.Op {
	case OUF:
		n := b.UF(t.N, t.W, as...)
		if t.old {
			n.old = true
		}
		return n
	case ONot:
		return b.Not(as[0])
	case OAnd:
		return b.And(as...)
	case OOr:
		return b.Or(as...)
	case OEq:
		return b.Eq(as[0], as[1])
	case OIte:
		return b.Ite(as[0], as[1], as[2])
	case OExtract:
		return b.Extract(as[0], int(t.V>>8), int(t.V&0xff))
	case OConcat:
		return b.Concat(as[0], as[1])
	case OZext:
		return b.Zext(as[0], t.W)
	case OSext:
		return b.Sext(as[0], t.W)
	case ONeg:
		return b.Neg(as[0])
	case OBNot:
		return b.Bin(OBXor, as[0], b.BV(mask(t.W), t.W))
	default:
		return b.Bin(t.Op, as[0], as[1])
	}
}

// printing ------------------------------------------------------------------

var opName = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OUlt: "bvult", OUle: "bvule",
	OSlt: "bvslt", OSle: "bvsle", OUdiv: "bvudiv", OUrem: "bvurem", OSdiv: "bvsdiv", OSrem: "bvsrem", OConcat: "concat", ONeg: "bvneg", OBNot: "bvnot"}

func sortStr(w int) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constStr(t *Term) string {
	if t.W == 0 {
		if t.V != 0 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", t.V, t.W)
}

func smtName(n string) string { return "|" + strings.ReplaceAll(n, "|", "!") + "|" }

// Script prints a complete SMT-LIB script asserting all of ts.
func Script(ts []*Term, extra string) string {
	var decl, defs strings.Builder
	declared := map[string]bool{}
	done := map[*Term]string{}
	var rec func(t *Term) string
	rec = func(t *Term) string {
		if isC(t) {
			return constStr(t)
		}
		if s, ok := done[t]; ok {
			return s
		}
		var s string
		switch t.Op {
		case OVar:
			s = smtName(t.N)
			if !declared[s] {
				declared[s] = true
				fmt.Fprintf(&decl, "(declare-const %s %s)\n", s, sortStr(t.W))
			}
			done[t] = s
			return s
		case OUF:
			args := make([]string, len(t.A))
			sig := make([]string, len(t.A))
			for i, a := range t.A {
				args[i] = rec(a)
				sig[i] = sortStr(a.W)
			}
			nm := smtName(t.N)
			if !declared[nm] {
				declared[nm] = true
				fmt.Fprintf(&decl, "(declare-fun %s (%s) %s)\n", nm, strings.Join(sig, " "), sortStr(t.W))
			}
			if len(args) == 0 {
				s = nm
			} else {
				s = "(" + nm + " " + strings.Join(args, " ") + ")"
			}
		default:
			args := make([]string, len(t.A))
			for i, a := range t.A {
				args[i] = rec(a)
			}
			switch t.Op {
			case OExtract:
				s = fmt.Sprintf("((_ extract %d %d) %s)", t.V>>8, t.V&0xff, args[0])
			case OZext:
				s = fmt.Sprintf("((_ zero_extend %d) %s)", t.W-t.A[0].W, args[0])
			case OSext:
				s = fmt.Sprintf("((_ sign_extend %d) %s)", t.W-t.A[0].W, args[0])
			default:
				s = "(" + opName[t.Op] + " " + strings.Join(args, " ") + ")"
			}
		}
		nm := fmt.Sprintf("t%d", t.id)
		fmt.Fprintf(&defs, "(define-fun %s () %s %s)\n", nm, sortStr(t.W), s)
		done[t] = nm
		return nm
	}
	var as strings.Builder
	for _, t := range ts {
		fmt.Fprintf(&as, "(assert %s)\n", rec(t))
	}
	return decl.String() + defs.String() + as.String() + "(check-sat)\n" + extra
}

func show(t *Term) string { return showD(t, 6) }
func showD(t *Term, d int) string {
	if isC(t) {
		if t.W == 0 {
			return constStr(t)
		}
		if t.W == 32 && t.V > 0 {
			if t.V >= freshBase {
				return fmt.Sprintf("new#%d", t.V-freshBase)
			}
			if s, ok := strConstName(t.V); ok {
				return s
			}
		}
		return fmt.Sprintf("%d", t.V)
	}
	if t.Op == OVar {
		return t.N
	}
	if d == 0 {
		return "…"
	}
	var as []string
	for _, a := range t.A {
		as = append(as, showD(a, d-1))
	}
	n := opName[t.Op]
	switch t.Op {
	case OUF:
		n = t.N
	case OExtract:
		n = fmt.Sprintf("extract[%d:%d]", t.V>>8, t.V&0xff)
	case OZext:
		n = "zext"
	case OSext:
		n = "sext"
	}
	return n + "(" + strings.Join(as, ", ") + ")"
}

// string constants are interned globally; "" is 0 ------------------------------

var (
	strMu  sync.Mutex
	strTab = map[string]uint64{"": 0}
	strRev = map[uint64]string{0: ""}
)

const strBase = 0x10000000

func internStr(s string) uint64 {
	strMu.Lock()
	defer strMu.Unlock()
	if v, ok := strTab[s]; ok {
		return v
	}
	v := uint64(strBase + len(strTab))
	strTab[s] = v
	strRev[v] = s
	return v
}

func strText(v uint64) (string, bool) {
	strMu.Lock()
	defer strMu.Unlock()
	s, ok := strRev[v]
	return s, ok
}

func strConstName(v uint64) (string, bool) {
	strMu.Lock()
	defer strMu.Unlock()
	s, ok := strRev[v]
	if !ok || v == 0 {
		return "", false
	}
	return fmt.Sprintf("%q", s), true
}
