package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Oblig is a named proof obligation of a unit (all its instances over all paths).
type Oblig struct {
	Name      string   `json:"name"`
	Props     []string `json:"props"`
	Clause    string   `json:"clause"`
	Status    string   `json:"status"` // discharged, failed, undecided
	Instances int      `json:"instances"`
	Trivial   int      `json:"simplified"`
	By        string   `json:"by"`
	Detail    string   `json:"detail,omitempty"`
	Path      string   `json:"path,omitempty"`
	Model     string   `json:"model,omitempty"`
	byset     map[string]bool
}

type fsmEntry struct {
	ev, from, to uint64
	hs           []*Closure
}

type Unit struct {
	name       string
	b          *B
	p          *Prog
	spec       *Spec
	c          *Contract
	sol        *Solver
	minfo      map[string]memInfo
	rdMemo     map[rdKey]*Term
	qcache     map[string]string
	cuts       map[cutKey]*CutInfo
	cutsUsed   map[string]bool
	loops      map[*ssa.Function]map[int]*loopInfo
	dropped    map[string]bool
	obls       map[string]*Oblig
	order      []string
	notes      map[string]bool
	bounded    map[string]bool
	inlined    map[string]bool
	opaqueFns  map[string]bool
	taint      string // what is not modelled is called in a loop
	blocks     map[*ssa.BasicBlock]bool
	loopFns    map[string]map[*ssa.Function]bool
	inlineFns  map[string]bool
	opaqueType map[string]bool
	dispatch   map[string]bool
	nonnil     map[string]bool
	volatile   []string
	merge      bool
	again      bool // a loop was found to assign more than known: start over once this pass is through
	effects    map[string][]string
	rely       map[string]uint64 // counters other goroutines advance by multiples of the step
	nopanicF   bool
	givens     []*Stmt
	giving     bool
	userPanic  bool
	nopanic    bool
	und        string // why some events of the clause being evaluated are unknown
	lockVC     bool
	asyncIter  bool
	goInline   bool
	inlineOnce bool
	gerr       map[string]uint64
	fsmTabs    map[string][]fsmEntry
	work       []*State
	changed    bool
	steps      int
	forks      int
	paths      int
	restarts   int
	backEdges  int
	queries    int
	solverTime time.Duration
	feasMS     int
	vcMS       int
	both       bool
	deadline   time.Time
	budget     time.Duration
	lastErr    string
	debug      bool
	splitVar   string
	splitT     types.Type
	reached    map[string]bool
	wantReach  map[string]bool
	err        string
	wall       time.Duration
	fset       *token.FileSet
	propFilter string
	fsmMode    bool
}

func newUnit(p *Prog, sp *Spec, c *Contract, tabs map[string][]fsmEntry) *Unit {
	u := &Unit{nopanicF: true, name: c.name, p: p, spec: sp, c: c, cuts: map[cutKey]*CutInfo{}, cutsUsed: map[string]bool{}, loops: map[*ssa.Function]map[int]*loopInfo{}, dropped: map[string]bool{},
		notes: map[string]bool{}, bounded: map[string]bool{}, inlined: map[string]bool{}, opaqueFns: map[string]bool{}, loopFns: map[string]map[*ssa.Function]bool{}, blocks: map[*ssa.BasicBlock]bool{}, inlineFns: map[string]bool{}, opaqueType: map[string]bool{}, gerr: map[string]uint64{},
		fsmTabs: tabs, dispatch: sp.dispatch, nonnil: sp.nonnil, feasMS: 2000, vcMS: 10000, budget: 120 * time.Second, fset: p.prog.Fset,
		b: NewB(), qcache: map[string]string{}, minfo: map[string]memInfo{}, rdMemo: map[rdKey]*Term{}, reached: map[string]bool{}, wantReach: map[string]bool{}}
	for _, o := range sp.opaque {
		u.opaqueFns[o] = true
	}
	for _, s := range c.stmts {
		switch s.kind {
		case "given":
			u.givens = append(u.givens, s)
		case "panics":
			u.userPanic = true
		case "flags":
			for _, f := range s.args {
				switch f {
				case "maypanic":
					u.nopanicF = false
				case "nopanic":
					u.nopanicF = true
				case "locks":
					u.lockVC = true
				case "goinline":
					u.goInline = true
				case "async":
					u.asyncIter = true
				case "merge":
					u.merge = true
				case "inlineonce":
					u.inlineOnce = true
				}
			}
		case "opaque":
			for _, f := range s.args {
				u.opaqueFns[f] = true
			}
		case "inline":
			for _, f := range s.args {
				delete(u.opaqueFns, f)
			}
		case "opaquetype":
			for _, f := range s.args {
				u.opaqueType[f] = true
			}
		case "rely":
			for i := 0; i+1 < len(s.args); i += 2 {
				var n uint64
				switch s.args[i+1] {
				case "any":
					n = relyAny
				case "nonnil":
					n = relyNonNil
				default:
					fmt.Sscan(s.args[i+1], &n)
				}
				if u.rely == nil {
					u.rely = map[string]uint64{}
				}
				u.rely[s.args[i]] = n
			}
		case "volatile":
			u.volatile = append(u.volatile, s.args...)
		case "effect":
			// effect EVENT pkg.T.f ...: the call may assign these fields of any object
			for _, f := range s.args[1:] {
				i := strings.LastIndex(f, ".")
				t, err := p.TypeNamed(f[:i])
				if err != nil {
					panic(err)
				}
				str, ok := t.Underlying().(*types.Struct)
				if !ok {
					panic("effect on a non-struct " + f)
				}
				found := false
				for j := 0; j < str.NumFields(); j++ {
					if str.Field(j).Name() != f[i+1:] {
						continue
					}
					found = true
					for _, lf := range leaves(str.Field(j).Type()) {
						if u.effects == nil {
							u.effects = map[string][]string{}
						}
						u.effects[s.args[0]] = append(u.effects[s.args[0]], f+lf.suf)
					}
				}
				if !found {
					panic("effect: no field " + f)
				}
			}
		}
	}
	return u
}

func (u *Unit) note(s string) { u.notes[s] = true }

func (u *Unit) isOpaque(fn *ssa.Function) bool {
	if len(u.opaqueFns) == 0 {
		return false
	}
	k := specFn(fn)
	if u.opaqueFns[k] {
		return true
	}
	if i := strings.LastIndex(k, "."); i >= 0 {
		return u.opaqueFns["*"+k[i:]]
	}
	return false
}

// specFn names a function the way contracts do: pkg.F or pkg.T.M.
func specFn(fn *ssa.Function) string {
	pk := ""
	if fn.Pkg != nil {
		pk = fn.Pkg.Pkg.Name()
	} else if o := fn.Object(); o != nil && o.Pkg() != nil {
		pk = o.Pkg().Name()
	}
	if r := fn.Signature.Recv(); r != nil {
		return pk + "." + typeName(r.Type()) + "." + fn.Name()
	}
	if fn.Parent() != nil {
		return specFn(fn.Parent()) + "$" + fn.Name()
	}
	return pk + "." + fn.Name()
}

func (u *Unit) recursive(st *State, fn *ssa.Function) bool {
	n := 0
	for _, f := range st.fr {
		if f.fn == fn {
			n++
		}
	}
	return n >= 2
}

func (u *Unit) neverClosed(ch *Term) bool {
	if ch.Op == OVar && strings.HasPrefix(ch.N, "r:Sync.C") {
		u.note("a waiter channel of the waiter hub delivers exactly one non-nil event and is never closed")
		return true
	}
	return false
}

func (u *Unit) pos(p token.Pos) string {
	if p == token.NoPos {
		return ""
	}
	x := u.fset.Position(p)
	f := x.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, x.Line)
}

func (u *Unit) obl(name, clause string, props []string) *Oblig {
	o := u.obls[name]
	if o == nil {
		o = &Oblig{Name: name, Clause: clause, Props: props, Status: "discharged", byset: map[string]bool{}}
		u.obls[name] = o
		u.order = append(u.order, name)
	}
	return o
}

// missing lists the clauses about loops and accesses that met no loop or access.
func (u *Unit) missing() []*Stmt {
	var out []*Stmt
	for _, s := range u.c.stmts {
		if (s.kind == "iter" || s.kind == "guarded" || s.kind == "exit") && u.obls[u.name+"."+s.label] == nil {
			out = append(out, s)
		}
	}
	return out
}

func (u *Unit) propsOf(s *Stmt) []string {
	if s != nil && len(s.props) > 0 {
		return s.props
	}
	return u.c.props
}

// oblige proves one instance of an obligation on the current path.
func (u *Unit) oblige(st *State, group, label string, c *Term, pos string) {
	props := u.c.props
	if group == "lock" {
		props = []string{"C23"}
	}
	u.obligeP(st, group+": "+label, label, props, c, pos)
}

func (u *Unit) obligeP(st *State, name, clause string, props []string, c *Term, pos string) {
	if u.again {
		return
	}
	if u.propFilter != "" {
		ok := false
		for _, p := range props {
			if p == u.propFilter {
				ok = true
			}
		}
		if !ok {
			return
		}
	}
	full := u.name + "." + name
	o := u.obl(full, clause, props)
	o.Instances++
	if o.Status == "failed" {
		return
	}
	c = st.simp(c)
	if isC(c) && c.V != 0 {
		o.Trivial++
		o.byset["simplifier"] = true
		return
	}
	r, by, model := u.prove(append(append([]*Term(nil), st.pc...), u.b.Not(c)), u.both)
	switch r {
	case "unsat":
		o.byset[by] = true
	case "sat":
		und := u.und
		if und == "" && st.taint != "" {
			und = "the result of " + st.taint + " is not modelled"
		}
		if und != "" {
			if o.Status == "discharged" {
				o.Status, o.Detail, o.Path = "undecided", und, st.describe(c)
			}
			return
		}
		o.Status = "failed"
		o.By = by
		o.Detail = pos
		o.Path = st.describe(c)
		o.Model = model
	default:
		if o.Status != "failed" {
			o.Status = "undecided"
			o.Detail = "solver gave no answer " + pos
			o.Path = st.describe(c)
		}
	}
}

func (st *State) describe(goal *Term) string {
	var sb strings.Builder
	sb.WriteString("goal: " + show(goal) + "\nevents:\n")
	for _, e := range st.ev {
		if e.Name == "LoopMark" {
			sb.WriteString("  ---- loop entered ----\n")
			continue
		}
		fmt.Fprintf(&sb, "  %s(", e.Name)
		if e.Recv != nil {
			sb.WriteString(showVal(e.Recv))
		}
		for _, a := range e.Args {
			sb.WriteString("; " + showVal(a))
		}
		sb.WriteString(")")
		if e.Res != nil {
			sb.WriteString(" = " + showVal(e.Res))
		}
		if p := st.u.pos(e.Pos); p != "" {
			sb.WriteString("  @" + p)
		}
		sb.WriteString("\n")
	}
	sb.WriteString("path condition:\n")
	for _, t := range st.pc {
		s := show(t)
		if len(s) > 400 {
			s = s[:400] + "…"
		}
		sb.WriteString("  " + s + "\n")
	}
	return sb.String()
}

func showVal(v Val) string {
	switch x := v.(type) {
	case *Term:
		return showD(x, 3)
	case *SliceV:
		return "slice{" + showD(x.Arr, 2) + "," + showD(x.Off, 2) + "," + showD(x.Len, 2) + "}"
	case *IfaceV:
		tg := showD(x.Tag, 2)
		if isC(x.Tag) {
			if t := typeOfTag(x.Tag.V); t != nil {
				tg = typeKey(t)
			}
		}
		return "iface{" + tg + "," + showD(x.Pay, 2) + "}"
	case *LocV:
		s := "&" + x.Prefix
		for _, i := range x.Idx {
			s += "[" + showD(i, 2) + "]"
		}
		return s
	case *TupleV:
		var ss []string
		for _, f := range x.V {
			ss = append(ss, showVal(f))
		}
		return "(" + strings.Join(ss, ", ") + ")"
	}
	return fmt.Sprintf("%T", v)
}

// run explores the unit, restarting when loop invariants change.
func (u *Unit) run() {
	t0 := time.Now()
	defer func() {
		u.wall = time.Since(t0)
		u.sol.stop()
		u.sol = nil
	}()
	u.deadline = time.Now().Add(u.budget)
	for {
		again := u.attempt()
		if !again {
			for _, o := range u.obls {
				if u.taint != "" && o.Status == "failed" {
					o.Status, o.Detail = "undecided", "the result of "+u.taint+" is not modelled"
				}
			}
			return
		}
		u.restarts++
		if u.restarts > 400 {
			u.err = "loop invariants did not stabilise"
			return
		}
	}
}

func (u *Unit) attempt() (again bool) {
	u.obls = map[string]*Oblig{}
	u.order = nil
	u.b.ctr = 0
	u.rdMemo = map[rdKey]*Term{}
	u.work = nil
	u.changed = false
	u.again = false
	u.steps, u.forks, u.paths = 0, 0, 0
	u.err = ""
	u.nopanic = false
	u.reached = map[string]bool{}
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case restart:
				again = true
				return
			case unsupported:
				u.err = x.msg
				again = u.again
				return
			case undetermined:
				u.err = x.msg
				again = u.again
				return
			default:
				u.err = fmt.Sprintf("internal error: %v\n%s", r, debug.Stack())
				return
			}
		}
	}()
	st := newState(u)
	u.work = append(u.work, st)
	for len(u.work) > 0 {
		s := u.work[len(u.work)-1]
		u.work = u.work[:len(u.work)-1]
		u.paths++
		if u.paths > 20000 {
			unsup("too many paths")
		}
		s.run()
		if u.again {
			return true
		}
	}
	return u.changed
}

// script ------------------------------------------------------------------------------

func (st *State) guard(k func()) (und string) {
	defer func() {
		if r := recover(); r != nil {
			if x, ok := r.(undetermined); ok {
				und = x.msg
				return
			}
			if x, ok := r.(unsupported); ok {
				und = x.msg
				return
			}
			panic(r)
		}
	}()
	k()
	return ""
}

func (st *State) clause(s *Stmt, from, to int) {
	u := st.u
	if u.propFilter != "" {
		ok := false
		for _, p := range u.propsOf(s) {
			if p == u.propFilter {
				ok = true
			}
		}
		if !ok {
			return
		}
	}
	var c *Term
	u.und = ""
	np := u.nopanic
	u.nopanic = false
	und := st.guard(func() { c = st.evalBool(s.expr, from, to) })
	u.nopanic = np
	if und == "" {
		u.obligeP(st, s.label, s.src, u.propsOf(s), c, fmt.Sprintf("%s:%d", s.file, s.line))
		u.und = ""
		return
	}
	o := u.obl(u.name+"."+s.label, s.src, u.propsOf(s))
	o.Instances++
	if o.Status == "discharged" {
		o.Status, o.Detail = "undecided", und
	}
}

// locAccess checks the guarded clauses of the contract for an access to a field.
func (st *State) locAccess(l *LocV, write bool) {
	if st.locAcc != nil || len(st.fr) == 0 {
		return
	}
	for _, s := range st.u.c.stmts {
		if s.kind == "guarded" {
			st.locAcc, st.mapWrite = l, write
			st.clause(s, st.evBase, len(st.ev))
			st.locAcc = nil
		}
	}
}

// mapAccess checks the guarded clauses of the contract for an access to a map.
func (st *State) mapAccess(m *Term, write bool) {
	if st.mapAcc != nil || len(st.fr) == 0 {
		return
	}
	for _, s := range st.u.c.stmts {
		if s.kind == "guarded" {
			st.mapAcc, st.mapWrite = m, write
			st.clause(s, st.evBase, len(st.ev))
			st.mapAcc = nil
		}
	}
}

func (st *State) iterClauses(fn *ssa.Function, ca *cutActive) {
	for _, s := range st.u.c.stmts {
		if s.kind == "iter" && st.u.loopOwner(s.a, fn) {
			st.clause(s, ca.evAt, len(st.ev))
		}
	}
}

// loopOwner tells whether the clauses about the loops of the named function speak about the loops of fn: it is
// that function or a closure in it, or, when that one has no loop of its own, a helper of the same package that it
// runs (or starts) and whose body is followed.
func (u *Unit) loopOwner(name string, fn *ssa.Function) bool {
	set, ok := u.loopFns[name]
	if !ok {
		set = map[*ssa.Function]bool{}
		if root, err := u.p.FuncNamed(name); err == nil {
			has := false
			var own func(f *ssa.Function)
			own = func(f *ssa.Function) {
				set[f] = true
				has = has || len(u.loopsOf(f)) > 0
				for _, a := range f.AnonFuncs {
					own(a)
				}
			}
			own(root)
			named := map[*ssa.Function]bool{}
			for _, s := range u.c.stmts {
				if s.kind == "iter" || s.kind == "inv" {
					if f, err := u.p.FuncNamed(s.a); err == nil {
						named[f] = true
					}
				}
			}
			for work := set; !has && len(work) > 0; {
				next := map[*ssa.Function]bool{}
				for f := range work {
					for _, blk := range f.Blocks {
						for _, in := range blk.Instrs {
							c, ok := in.(ssa.CallInstruction)
							if !ok {
								continue
							}
							g := c.Common().StaticCallee()
							if g == nil || g.Pkg != root.Pkg || set[g] || named[g] || u.isOpaque(g) || len(g.Blocks) == 0 {
								continue
							}
							next[g] = true
						}
					}
				}
				for g := range next {
					own(g)
				}
				work = next
			}
		}
		u.loopFns[name] = set
	}
	return set[fn]
}

func (st *State) userInvs(fk string) []cand {
	var out []cand
	for _, s := range st.u.c.stmts {
		s := s
		if s.kind == "inv" && st.u.loopOwner(s.a, st.top().fn) {
			out = append(out, cand{fk + ":" + s.label, func(st *State) *Term {
				var t *Term
				if st.guard(func() { t = st.evalBool(s.expr, st.evBase, len(st.ev)) }) != "" {
					return nil
				}
				return t
			}})
		}
	}
	return out
}

func (st *State) evalIn(e ast.Expr) TV {
	c := &evalCtx{st: st, env: st.env, evs: map[string]*Event{}, from: st.evBase, to: len(st.ev)}
	np := st.u.nopanic
	st.u.nopanic = false
	v := c.eval(e)
	st.u.nopanic = np
	return v
}

func (st *State) setEnv(n string, v TV) {
	st.env = copyM(st.env)
	st.env[n] = v
}

func (st *State) scriptStep() {
	u := st.u
	c := u.c
	u.nopanic = u.nopanicF
	if st.step == 0 && c.fn != "" && st.env["#init"].V == nil {
		fn, err := u.p.FuncNamed(c.fn)
		if err != nil {
			unsup("%v", err)
		}
		st.setEnv("#init", TV{u.b.True, boolT})
		for _, p := range fn.Params {
			st.setEnv(p.Name(), TV{st.paramVal(p.Name(), p.Type()), p.Type()})
		}
	}
	if st.step >= len(c.stmts) {
		if c.fn != "" && st.env["#called"].V == nil {
			st.doContractCall()
			return
		}
		if u.lockVC {
			u.oblige(st, "lock", "no lock is held at return", u.b.Bool(lockStr(st.locks) == ""), lockStr(st.locks))
		}
		st.done = true
		return
	}
	s := c.stmts[st.step]
	if c.fn != "" && st.env["#called"].V == nil {
		switch s.kind {
		case "ensures", "assert", "runasync", "reach", "docall", "invoke", "callback", "exit", "panics":
			if s.kind == "docall" {
				st.step++
			}
			st.doContractCall()
			return
		}
	}
	st.step++
	switch s.kind {
	case "flags", "opaque", "volatile", "opaquetype", "inline", "iter", "inv", "rely", "effect", "guarded", "panics", "during", "ends", "given":
	case "var":
		t, err := u.p.TypeNamed(s.b)
		if err != nil {
			unsup("%v", err)
		}
		st.setEnv(s.a, TV{st.paramVal(s.a, t), t})
	case "split":
		v := st.env[s.a]
		if u.splitT != nil && u.splitVar == s.a {
			iv := v.V.(*IfaceV)
			r := u.b.Fresh(s.a+".ref", 32)
			r.old = true
			st.assume(u.b.And(u.b.Ne(r, u.b.BV(0, 32)), u.b.Bin(OUlt, r, u.b.BV(freshBase, 32))))
			_ = iv
			st.setEnv(s.a, TV{&IfaceV{u.b.BV(tagOf(u.splitT), 16), u.b.Zext(r, 64)}, v.T})
			// keep old marking when unboxed: Extract(Zext(r)) = r
		}
	case "requires":
		c := st.evalBool(s.expr, st.evBase, len(st.ev))
		c = st.simp(c)
		if !st.feasible(c) {
			st.done = true
			return
		}
		st.assume(c)
	case "when":
		// restrict to paths on which the condition may hold
		c := st.simp(st.evalBool(s.expr, st.evBase, len(st.ev)))
		if !st.feasible(c) {
			st.done = true
			return
		}
		st.assume(c)
	case "fsm":
		tab := u.fsmTabs[s.a]
		if tab == nil {
			unsup("no transition table for %s", s.a)
		}
		f := st.simp(st.evalIn(s.expr).V.(*Term))
		o := st.env[s.b]
		st.fsmOf = copyM(st.fsmOf)
		st.fsmOf[f] = fsmBind{tab, o}
	case "let":
		st.setEnv(s.a, st.evalIn(s.expr))
	case "mark":
		st.evBase = len(st.ev)
		st.memShared = true
		st.pre = st.mem
	case "assert", "ensures":
		st.clause(s, st.evBase, len(st.ev))
	case "exit":
		from := st.evBase
		for i := len(st.ev) - 1; i >= st.evBase; i-- {
			if st.ev[i].Name == "LoopMark" {
				from = i + 1
				break
			}
		}
		st.clause(s, from, len(st.ev))
	case "reach":
		u.reached[s.label] = true
	case "call":
		ce, ok := s.expr.(*ast.CallExpr)
		if !ok {
			unsup("call statement without call: %s", s.src)
		}
		if st.pre == nil {
			st.memShared = true
			st.pre = st.mem
		}
		name := exprStr(ce.Fun)
		if name == "method" {
			// method(x, "Name", args...)
			v := st.evalIn(ce.Args[0])
			cx := &evalCtx{st: st}
			mname := cx.str(ce.Args[1])
			var args []Val
			if iv, ok := v.V.(*IfaceV); ok {
				it := v.T.Underlying().(*types.Interface)
				for i := 0; i < it.NumMethods(); i++ {
					if it.Method(i).Name() == mname {
						sig := it.Method(i).Type().(*types.Signature)
						for j, a := range ce.Args[2:] {
							args = append(args, st.coerceTo(st.evalIn(a), sig.Params().At(j).Type()).V)
						}
						st.call(&target{recv: iv, recvT: v.T, method: it.Method(i), sig: sig}, args, token.NoPos, st.binder(s.args, resType(sig)))
						return
					}
				}
				// not in the static type: the concrete type must be known
				if tag := st.simp(iv.Tag); isC(tag) && tag.V != 0 {
					if t := typeOfTag(tag.V); t != nil {
						ms := u.p.prog.MethodSets.MethodSet(t)
						for i := 0; i < ms.Len(); i++ {
							if ms.At(i).Obj().Name() == mname {
								fn := u.p.prog.MethodValue(ms.At(i))
								args = append(args, st.unbox(iv, t))
								for j, a := range ce.Args[2:] {
									args = append(args, st.coerceTo(st.evalIn(a), fn.Signature.Params().At(j).Type()).V)
								}
								st.call(&target{fn: fn, sig: fn.Signature}, args, token.NoPos, st.binder(s.args, resType(fn.Signature)))
								return
							}
						}
					}
				}
				unsup("no method %s", mname)
			}
			ms := u.p.prog.MethodSets.MethodSet(v.T)
			for i := 0; i < ms.Len(); i++ {
				if ms.At(i).Obj().Name() == mname {
					fn := u.p.prog.MethodValue(ms.At(i))
					args = append(args, v.V)
					for j, a := range ce.Args[2:] {
						args = append(args, st.coerceTo(st.evalIn(a), fn.Signature.Params().At(j).Type()).V)
					}
					st.call(&target{fn: fn, sig: fn.Signature}, args, token.NoPos, st.binder(s.args, resType(fn.Signature)))
					return
				}
			}
			unsup("no method %s", mname)
		}
		fn, err := u.p.FuncNamed(name)
		if err != nil {
			unsup("%v", err)
		}
		if len(ce.Args) != len(fn.Params) {
			unsup("%s takes %d arguments", name, len(fn.Params))
		}
		var args []Val
		for i, a := range ce.Args {
			args = append(args, st.coerceTo(st.evalIn(a), fn.Params[i].Type()).V)
		}
		st.pushFrame(fn, args, nil, st.binder(s.args, resType(fn.Signature)))
	case "invoke":
		ce, ok := s.expr.(*ast.CallExpr)
		if !ok {
			unsup("invoke without call")
		}
		f := st.evalIn(ce.Fun)
		sig, ok := f.T.Underlying().(*types.Signature)
		if !ok {
			unsup("invoke of non-function")
		}
		t := st.fnTarget(f.V, sig)
		var args []Val
		for i, a := range ce.Args {
			args = append(args, st.coerceTo(st.evalIn(a), sig.Params().At(i).Type()).V)
		}
		st.call(t, args, token.NoPos, st.binder(s.args, resType(sig)))
	case "callback":
		n := 0
		fmt.Sscan(s.b, &n)
		if !st.callback(s, n, func(st *State, v Val) {}) {
			st.done = true
			return
		}
	case "runasync":
		// run the goroutines started so far, one after another
		for st.activ < len(st.ev) {
			e := st.ev[st.activ]
			st.activ++
			if e.Name != "Go" {
				continue
			}
			r, ok := e.Recv.(*Term)
			if !ok {
				continue
			}
			cl := st.clos[r.V]
			nb := len(cl.fn.FreeVars)
			rest := cl.binds[1:]
			st.step-- // come back for the remaining ones
			if lockStr(st.locks) != "" && u.lockVC {
				u.oblige(st, "lock", "no lock is held at return", u.b.False, lockStr(st.locks))
			}
			st.pushFrame(cl.fn, rest[nb:], rest[:nb], func(st *State, v Val) {})
			return
		}
	default:
		unsup("statement %s", s.kind)
	}
}

// callback runs the function value that was the first argument of the n-th call named by the statement.
func (st *State) callback(s *Stmt, n int, k func(st *State, v Val)) bool {
	if s.kind == "during" && s.label == "direct" {
		fn, err := st.u.p.FuncNamed(s.a)
		if err != nil {
			unsup("%v", err)
		}
		var args []Val
		for i, a := range s.expr.(*ast.CallExpr).Args {
			args = append(args, st.coerceTo(st.evalIn(a), fn.Params[i].Type()).V)
		}
		st.pushFrame(fn, args, nil, k)
		return true
	}
	var ev *Event
	for _, e := range st.ev {
		if e.Name == s.a {
			if n == 0 {
				ev = e
				break
			}
			n--
		}
	}
	if ev == nil {
		return false
	}
	sig := ev.Types[0].Underlying().(*types.Signature)
	t := st.fnTarget(ev.Args[0], sig)
	var args []Val
	for i, a := range s.expr.(*ast.CallExpr).Args {
		args = append(args, st.coerceTo(st.evalIn(a), sig.Params().At(i).Type()).V)
	}
	st.call(t, args, token.NoPos, k)
	return true
}

func (st *State) coerceTo(v TV, t types.Type) TV {
	c := &evalCtx{st: st, env: st.env, evs: map[string]*Event{}}
	return c.coerce(v, t)
}

func (st *State) binder(names []string, rt types.Type) func(st *State, v Val) {
	return func(st *State, v Val) {
		for i, n := range names {
			if n == "_" {
				continue
			}
			if tv, ok := v.(*TupleV); ok {
				st.setEnv(n, TV{tv.V[i], rt.(*types.Tuple).At(i).Type()})
			} else {
				st.setEnv(n, TV{v, rt})
			}
		}
	}
}

func (st *State) paramVal(name string, t types.Type) Val {
	b := st.u.b
	v := st.freshVal(name, t, true)
	switch x := v.(type) {
	case *IfaceV:
		st.assume(b.Implies(b.Eq(x.Tag, b.BV(0, 16)), b.Eq(x.Pay, b.BV(0, 64))))
		st.closedWorld(x, t)
	}
	return v
}

func (st *State) doContractCall() {
	u := st.u
	fn, err := u.p.FuncNamed(u.c.fn)
	if err != nil {
		unsup("%v", err)
	}
	st.setEnv("#called", TV{u.b.True, boolT})
	var args []Val
	for _, p := range fn.Params {
		args = append(args, st.env[p.Name()].V)
	}
	st.memShared = true
	st.pre = st.mem
	st.evBase = len(st.ev)
	rt := resType(fn.Signature)
	var names []string
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		names = append(names, fmt.Sprintf("r%d", i))
	}
	st.pushFrame(fn, args, nil, st.binder(names, rt))
}

// unitsFor expands a contract into its units (one per case of a split).
func unitsFor(p *Prog, sp *Spec, c *Contract, tabs map[string][]fsmEntry) ([]*Unit, error) {
	for _, s := range c.stmts {
		if s.kind != "split" {
			continue
		}
		var ts []types.Type
		if len(s.args) > 0 {
			for _, a := range s.args {
				t, err := p.TypeNamed(a)
				if err != nil {
					return nil, err
				}
				ts = append(ts, t)
			}
		} else {
			it, err := p.TypeNamed("packet.Packet")
			if err != nil {
				return nil, err
			}
			ts = p.implementers(it.Underlying().(*types.Interface))
		}
		var out []*Unit
		for _, t := range ts {
			u := newUnit(p, sp, c, tabs)
			u.splitVar = s.a
			u.splitT = t
			u.name = c.name + "[" + typeName(t) + "]"
			out = append(out, u)
		}
		return out, nil
	}
	return []*Unit{newUnit(p, sp, c, tabs)}, nil
}

// fsmTables executes the module's initFSM functions to obtain the transition tables.
func fsmTables(p *Prog, sp *Spec) (map[string][]fsmEntry, error) {
	out := map[string][]fsmEntry{}
	var errs []string
	fns := map[string]bool{}
	for _, d := range sp.fsms {
		fns[d.fn] = true
	}
	for _, c := range sp.contracts {
		for _, s := range c.stmts {
			if s.kind == "fsm" {
				fns[s.a] = true
			}
		}
	}
	for _, name := range sortedKeys(fns) {
		c := &Contract{name: "fsm:" + name, fn: name}
		u := newUnit(p, sp, c, nil)
		u.fsmMode = true
		fn, err := p.FuncNamed(name)
		if err != nil {
			errs = append(errs, err.Error())
			continue
		}
		var tab []fsmEntry
		var ferr error
		func() {
			defer func() {
				if r := recover(); r != nil {
					ferr = fmt.Errorf("table of %s: %v", name, r)
				}
			}()
			u.obls = map[string]*Oblig{}
			u.deadline = time.Now().Add(30 * time.Second)
			st := newState(u)
			var end *State
			st.pushFrame(fn, []Val{st.paramVal("owner", fn.Params[0].Type())}, nil, func(s *State, v Val) { end = s })
			for len(st.fr) > 0 && !st.done {
				st.instr()
			}
			if end == nil {
				ferr = fmt.Errorf("%s did not return", name)
				return
			}
			for _, tr := range end.fsmT[0] {
				if !isC(tr.ev) || !isC(tr.from) || !isC(tr.to) {
					ferr = fmt.Errorf("transition of %s not constant", name)
					return
				}
				e := fsmEntry{ev: tr.ev.V, from: tr.from.V, to: tr.to.V}
				for _, h := range tr.hs {
					t, ok := h.(*Term)
					if ok && isC(t) {
						if cl := end.clos[t.V]; cl != nil {
							e.hs = append(e.hs, cl)
							continue
						}
						if f := p.funcByID(t.V); f != nil {
							e.hs = append(e.hs, &Closure{fn: f})
							continue
						}
					}
					ferr = fmt.Errorf("handler of a transition of %s not resolved", name)
					return
				}
				tab = append(tab, e)
			}
			u.sol.stop()
		}()
		if ferr == nil && len(tab) == 0 {
			ferr = fmt.Errorf("no transitions found for %s", name)
		}
		if ferr != nil {
			errs = append(errs, ferr.Error())
			continue
		}
		out[name] = tab
	}
	for _, d := range sp.fsms {
		out[d.field] = out[d.fn]
	}
	if len(errs) > 0 {
		return out, fmt.Errorf("%s", strings.Join(errs, "; "))
	}
	return out, nil
}

func newState(u *Unit) *State {
	return &State{u: u, subst: map[*Term]*Term{}, mem: map[string]*MemLog{}, locks: map[string]int{}, clos: map[uint64]*Closure{}, fsmT: map[uint64][]fsmTrans{}, fsmOf: map[*Term]fsmBind{}, env: map[string]TV{}, ghost: map[string]Val{}, once: map[string]bool{}, assumed: map[*Term]bool{}, readers: map[uint64]*ghostReader{}, ended: map[int]*Term{}}
}

type fsmBind struct {
	tab   []fsmEntry
	owner TV
}

func sortedNotes(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
