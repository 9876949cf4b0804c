package main

// Contracts: parsing, expression evaluation, scripts.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

type TV struct {
	V Val
	T types.Type
}

type Stmt struct {
	kind  string // var requires let call invoke assert iter exit runasync mark reach split flags opaque volatile
	label string
	props []string
	a, b  string
	args  []string
	expr  ast.Expr
	src   string
	line  int
	file  string
}

type Contract struct {
	name  string
	fn    string // for function contracts
	props []string
	stmts []*Stmt
	file  string
	line  int
}

type fsmDecl struct{ field, fn string }

type Spec struct {
	contracts []*Contract
	fsms      []fsmDecl
	nonnil    map[string]bool
	dispatch  map[string]bool
	pure      map[string]bool // external calls whose result depends on receiver and arguments only
	opaque    []string
	defs      map[string]*defn
	invs      map[string]bool // predicates that every unit assuming them must keep
}

type defn struct {
	params []string
	expr   ast.Expr
}

var tagsRe = regexp.MustCompile(`^\[([A-Z0-9, ]+)\]`)

func parseSpecs(dir string) (*Spec, error) {
	fs, _ := filepath.Glob(filepath.Join(dir, "*.gv"))
	sort.Strings(fs)
	sp := &Spec{nonnil: map[string]bool{}, dispatch: map[string]bool{}, pure: map[string]bool{}, defs: map[string]*defn{}, invs: map[string]bool{}}
	for _, f := range fs {
		data, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if err := sp.parseFile(f, string(data)); err != nil {
			return nil, err
		}
	}
	sp.keepInvariants()
	return sp, nil
}

func balance(s string) int {
	n := 0
	inS := false
	for i := 0; i < len(s); i++ {
		c := s[i]
		if inS {
			if c == '\\' {
				i++
			} else if c == '"' {
				inS = false
			}
			continue
		}
		switch c {
		case '"':
			inS = true
		case '(', '[':
			n++
		case ')', ']':
			n--
		}
	}
	return n
}

func (sp *Spec) parseFile(file, text string) error {
	lines := strings.Split(text, "\n")
	var cur *Contract
	i := 0
	next := func() (string, int, bool) {
		for i < len(lines) {
			ln := i + 1
			l := strings.TrimSpace(stripComment(lines[i]))
			i++
			if l == "" {
				continue
			}
			for i < len(lines) && (balance(l) > 0 || strings.HasSuffix(l, "&&") || strings.HasSuffix(l, "||") || strings.HasSuffix(l, "==>") || strings.HasSuffix(l, ",") || strings.HasSuffix(l, ":")) {
				l += " " + strings.TrimSpace(stripComment(lines[i]))
				i++
			}
			return l, ln, true
		}
		return "", 0, false
	}
	base := filepath.Base(file)
	for {
		l, ln, ok := next()
		if !ok {
			break
		}
		fail := func(f string, a ...interface{}) error {
			return fmt.Errorf("%s:%d: %s: %q", base, ln, fmt.Sprintf(f, a...), l)
		}
		w := strings.Fields(l)
		if cur == nil {
			switch w[0] {
			case "fsm":
				sp.fsms = append(sp.fsms, fsmDecl{w[1], w[2]})
			case "nonnil":
				for _, x := range w[1:] {
					sp.nonnil[x] = true
				}
			case "dispatch":
				for _, x := range w[1:] {
					sp.dispatch[x] = true
				}
			case "opaque":
				sp.opaque = append(sp.opaque, w[1:]...)
			case "invariant":
				for _, x := range w[1:] {
					sp.invs[x] = true
				}
			case "pure":
				for _, x := range w[1:] {
					sp.pure[x] = true
				}
			case "define":
				// define name(a,b) = expr
				rest := strings.TrimSpace(l[len("define"):])
				p := strings.Index(rest, "(")
				q := strings.Index(rest, ")")
				eq := strings.Index(rest, "=")
				if p < 0 || q < 0 || eq < q {
					return fail("bad define")
				}
				e, err := parseExpr(rest[eq+1:])
				if err != nil {
					return fail("%v", err)
				}
				d := &defn{expr: e}
				for _, x := range strings.Split(rest[p+1:q], ",") {
					if x = strings.TrimSpace(x); x != "" {
						d.params = append(d.params, x)
					}
				}
				sp.defs[strings.TrimSpace(rest[:p])] = d
			case "contract", "lemma":
				c := &Contract{file: base, line: ln}
				rest := strings.TrimSpace(l[len(w[0]):])
				if !strings.HasSuffix(rest, "{") {
					return fail("missing {")
				}
				rest = strings.TrimSpace(strings.TrimSuffix(rest, "{"))
				p := strings.Index(rest, "[")
				q := strings.Index(rest, "]")
				if p < 0 || q < 0 {
					return fail("missing properties")
				}
				c.props = splitList(strings.ReplaceAll(rest[p+1:q], " ", ","))
				c.name = strings.TrimSpace(rest[:p])
				extra := strings.TrimSpace(rest[q+1:])
				if w[0] == "contract" {
					c.fn = c.name
					if extra != "" {
						c.name += ":" + extra
					}
				}
				cur = c
			default:
				return fail("unknown declaration")
			}
			continue
		}
		if l == "}" {
			sp.contracts = append(sp.contracts, cur)
			cur = nil
			continue
		}
		s := &Stmt{kind: w[0], src: l, line: ln, file: base}
		rest := strings.TrimSpace(l[len(w[0]):])
		if p := strings.Index(w[0], "["); p > 0 {
			// kind[props]
			s.kind = w[0][:p]
			rest = strings.TrimSpace(l[p:])
		}
		if m := tagsRe.FindStringSubmatch(rest); m != nil {
			s.props = splitList(strings.ReplaceAll(m[1], " ", ","))
			rest = strings.TrimSpace(rest[len(m[0]):])
		}
		var err error
		switch s.kind {
		case "var":
			f := strings.SplitN(rest, " ", 2)
			if len(f) != 2 {
				return fail("bad var")
			}
			s.a, s.b = f[0], strings.TrimSpace(f[1])
		case "requires", "assume":
			s.kind = "requires"
			s.expr, err = parseExpr(rest)
		case "let":
			eq := strings.Index(rest, "=")
			s.a = strings.TrimSpace(rest[:eq])
			s.expr, err = parseExpr(rest[eq+1:])
		case "call", "invoke":
			eq := topEq(rest)
			lhs := ""
			rhs := rest
			if eq >= 0 {
				lhs = rest[:eq]
				rhs = strings.TrimSpace(rest[eq+1:])
			}
			s.args = splitList(lhs)
			s.expr, err = parseExpr(rhs)
		case "assert", "ensures", "iter", "exit", "inv", "panics":
			if s.kind == "iter" || s.kind == "inv" {
				f := strings.SplitN(rest, " ", 2)
				s.a = f[0]
				rest = f[1]
			}
			p := strings.Index(rest, ":")
			if p < 0 {
				return fail("missing label")
			}
			s.label = strings.TrimSpace(rest[:p])
			s.expr, err = parseExpr(rest[p+1:])
		case "guarded":
			// guarded label: map, lock  -- the map is accessed only with the lock held
			p := strings.Index(rest, ":")
			if p < 0 {
				return fail("missing label")
			}
			s.label = strings.TrimSpace(rest[:p])
			s.expr, err = parseExpr("guarded(" + rest[p+1:] + ")")
		case "callback":
			// callback pkg.Func[@n](args): run the function value that was the first argument of the n-th such call
			p := strings.Index(rest, "(")
			if p < 0 {
				return fail("bad callback")
			}
			s.a, s.b = rest[:p], "0"
			if i := strings.Index(s.a, "@"); i >= 0 {
				s.a, s.b = s.a[:i], s.a[i+1:]
			}
			s.a = strings.TrimSpace(s.a)
			s.expr, err = parseExpr("callback" + rest[p:])
		case "during", "while":
			// while EVENT pkg.Func(args): while that call runs, someone else calls pkg.Func
			// during EVENT pkg.Func(args): while that call runs, the function value given to pkg.Func is run once
			f := strings.SplitN(rest, " ", 2)
			p := -1
			if len(f) == 2 {
				p = strings.Index(f[1], "(")
			}
			if p < 0 {
				return fail("bad during")
			}
			s.a, s.b = strings.TrimSpace(f[1][:p]), f[0]
			s.expr, err = parseExpr("callback" + f[1][p:])
			if s.kind == "while" {
				s.kind, s.label = "during", "direct"
			}
		case "reach":
			s.label = rest
		case "runasync", "mark", "docall":
		case "ends":
			// ends v: the unit ends the object v, whose invariant is not kept
			s.a = rest
		case "fsm":
			// fsm machine, pkg.T.initFSM, owner
			f := splitList(rest)
			if len(f) != 3 {
				return fail("bad fsm")
			}
			s.a, s.b = f[1], f[2]
			s.expr, err = parseExpr(f[0])
		case "when", "given":
			// given all("EVENT", e, cond): assumed of every such event as it happens
			s.expr, err = parseExpr(rest)
		case "split":
			p := strings.Index(rest, ":")
			if p < 0 {
				s.a = rest
			} else {
				s.a = strings.TrimSpace(rest[:p])
				s.args = splitList(rest[p+1:])
			}
		case "flags", "opaque", "volatile", "opaquetype", "inline", "rely", "effect":
			s.args = strings.Fields(rest)
		default:
			return fail("unknown statement")
		}
		if err != nil {
			return fail("%v", err)
		}
		cur.stmts = append(cur.stmts, s)
	}
	if cur != nil {
		return fmt.Errorf("%s: missing } for %s", base, cur.name)
	}
	return nil
}

// keepInvariants makes every unit that assumes an object invariant prove it again at its end,
// unless the unit is flagged to end the object.
func (sp *Spec) keepInvariants() {
	for _, c := range sp.contracts {
		skip := map[string]bool{}
		for _, s := range c.stmts {
			if s.kind == "ends" {
				for _, a := range strings.Fields(s.a) {
					skip[a] = true
				}
			}
		}
		var add []*Stmt
		seen := map[string]bool{}
		for _, s := range c.stmts {
			if s.kind != "requires" {
				continue
			}
			for _, e := range conjuncts(s.expr) {
				call, ok := e.(*ast.CallExpr)
				if !ok || len(call.Args) != 1 {
					continue
				}
				id, ok := call.Fun.(*ast.Ident)
				v, ok2 := call.Args[0].(*ast.Ident)
				if !ok || !ok2 || !sp.invs[id.Name] || skip[v.Name] || seen[id.Name+v.Name] {
					continue
				}
				seen[id.Name+v.Name] = true
				k := "assert"
				if c.fn != "" {
					k = "ensures"
				}
				add = append(add, &Stmt{kind: k, label: "keeps-" + id.Name + "-" + v.Name, expr: e, src: "invariant " + id.Name + "(" + v.Name + ")", line: s.line, file: s.file})
			}
		}
		c.stmts = append(c.stmts, add...)
	}
}

func conjuncts(e ast.Expr) []ast.Expr {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return conjuncts(x.X)
	case *ast.BinaryExpr:
		if x.Op == token.LAND {
			return append(conjuncts(x.X), conjuncts(x.Y)...)
		}
	}
	return []ast.Expr{e}
}

func topEq(s string) int {
	d := 0
	inS := false
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '"':
			inS = !inS
		case inS:
		case s[i] == '(' || s[i] == '[':
			d++
		case s[i] == ')' || s[i] == ']':
			d--
		case s[i] == '=' && d == 0:
			if i+1 < len(s) && s[i+1] == '=' {
				return -1
			}
			return i
		}
	}
	return -1
}

func stripComment(l string) string {
	inS := false
	for i := 0; i < len(l); i++ {
		if l[i] == '"' {
			inS = !inS
		}
		if l[i] == '#' && !inS {
			return l[:i]
		}
	}
	return l
}

func splitList(s string) []string {
	var out []string
	for _, x := range strings.Split(s, ",") {
		if x = strings.TrimSpace(x); x != "" {
			out = append(out, x)
		}
	}
	return out
}

// parseExpr parses a Go expression extended with a ==> b (right associative, weakest).
func parseExpr(s string) (ast.Expr, error) {
	e, err := parser.ParseExpr(rewriteImp(strings.TrimSpace(s)))
	if err != nil {
		return nil, err
	}
	return e, nil
}

func rewriteImp(s string) string {
	// rewrite inside parentheses first
	var out strings.Builder
	i := 0
	for i < len(s) {
		c := s[i]
		if c == '"' {
			j := i + 1
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			out.WriteString(s[i : j+1])
			i = j + 1
			continue
		}
		if c == '(' || c == '[' {
			d := 1
			j := i + 1
			inS := false
			for j < len(s) && d > 0 {
				switch {
				case s[j] == '"':
					inS = !inS
				case inS:
				case s[j] == '(' || s[j] == '[':
					d++
				case s[j] == ')' || s[j] == ']':
					d--
				}
				j++
			}
			inner := s[i+1 : j-1]
			out.WriteByte(c)
			parts := splitTop(inner, ",")
			for k, p := range parts {
				if k > 0 {
					out.WriteByte(',')
				}
				out.WriteString(rewriteImp(p))
			}
			out.WriteByte(s[j-1])
			i = j
			continue
		}
		out.WriteByte(c)
		i++
	}
	r := out.String()
	parts := splitTop(r, "==>")
	if len(parts) == 1 {
		return r
	}
	acc := parts[len(parts)-1]
	for k := len(parts) - 2; k >= 0; k-- {
		acc = "imp(" + parts[k] + "," + acc + ")"
	}
	return acc
}

func splitTop(s, sep string) []string {
	var out []string
	d := 0
	inS := false
	last := 0
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '"':
			inS = !inS
		case inS:
		case s[i] == '(' || s[i] == '[':
			d++
		case s[i] == ')' || s[i] == ']':
			d--
		case d == 0 && strings.HasPrefix(s[i:], sep):
			out = append(out, s[last:i])
			i += len(sep) - 1
			last = i + 1
		}
	}
	return append(out, s[last:])
}

// evaluation --------------------------------------------------------------------------

type undetermined struct{ msg string }

type evalCtx struct {
	st   *State
	env  map[string]TV
	evs  map[string]*Event
	from int
	to   int
}

var untypedInt = types.Typ[types.UntypedInt]
var boolT = types.Typ[types.Bool]
var intT = types.Typ[types.Int]
var strT = types.Typ[types.String]
var seqT = types.NewNamed(types.NewTypeName(token.NoPos, nil, "seq", nil), types.Typ[types.Uint32], nil)

func (st *State) evalBool(e ast.Expr, from, to int) *Term {
	c := &evalCtx{st: st, env: st.env, evs: map[string]*Event{}, from: from, to: to}
	return c.boolean(e)
}

func (c *evalCtx) boolean(e ast.Expr) *Term {
	v := c.eval(e)
	t, ok := v.V.(*Term)
	if !ok || t.W != 0 {
		unsup("not a boolean: %s", exprStr(e))
	}
	return t
}

func exprStr(e ast.Expr) string { return types.ExprString(e) }

func (c *evalCtx) fail(e ast.Expr, f string, a ...interface{}) {
	unsup("in contract expression %s: %s", exprStr(e), fmt.Sprintf(f, a...))
}

func (c *evalCtx) pkgObj(pk, name string) (TV, bool) {
	p := c.st.u.p
	tp := p.tpkgs[pk]
	if tp == nil {
		return TV{}, false
	}
	o := tp.Scope().Lookup(name)
	switch x := o.(type) {
	case *types.Const:
		return TV{constOf(c.st.u.b, x.Type(), x.Val()), x.Type()}, true
	case *types.Var:
		if types.Identical(x.Type(), types.Universe.Lookup("error").Type()) {
			return TV{c.st.u.globalErr("global:" + tp.Path() + "." + name), x.Type()}, true
		}
		return TV{c.st.load(&LocV{Prefix: "global:" + tp.Path() + "." + name, T: x.Type()}), x.Type()}, true
	}
	return TV{}, false
}

// loc gives the memory location an expression denotes, if it denotes one.
func (c *evalCtx) loc(e ast.Expr) *LocV {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return c.loc(x.X)
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if _, isEnv := c.env[id.Name]; !isEnv {
				return nil
			}
		}
		var bt types.Type
		var bl *LocV
		if l := c.loc(x.X); l != nil {
			if _, isP := l.T.Underlying().(*types.Pointer); !isP {
				bt, bl = l.T, l
			}
		}
		if bl == nil {
			v := c.eval(x.X)
			pt, ok := v.T.Underlying().(*types.Pointer)
			if !ok {
				return nil
			}
			bt = pt.Elem()
			bl = c.st.deref(v.V, bt)
			bl = &LocV{bl.Prefix, bl.Idx, bt}
		}
		return c.fieldLoc(bl, x.Sel.Name)
	case *ast.StarExpr:
		v := c.eval(x.X)
		pt, ok := v.T.Underlying().(*types.Pointer)
		if !ok {
			return nil
		}
		l := c.st.deref(v.V, pt.Elem())
		return &LocV{l.Prefix, l.Idx, pt.Elem()}
	case *ast.IndexExpr:
		v := c.eval(x.X)
		st, ok := v.T.Underlying().(*types.Slice)
		if !ok {
			return nil
		}
		s := v.V.(*SliceV)
		i := c.int64(x.Index)
		return &LocV{c.st.elemName(st.Elem()), []*Term{s.Arr, c.st.u.b.Add(s.Off, i)}, st.Elem()}
	}
	return nil
}

func (c *evalCtx) fieldLoc(bl *LocV, name string) *LocV {
	obj, path, _ := types.LookupFieldOrMethod(bl.T, true, pkgOf(bl.T), name)
	if _, ok := obj.(*types.Var); !ok {
		return nil
	}
	l := bl
	for _, i := range path {
		t := l.T
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			v := c.st.load(l)
			d := c.st.deref(v, pt.Elem())
			l = &LocV{d.Prefix, d.Idx, pt.Elem()}
			t = pt.Elem()
		}
		f := t.Underlying().(*types.Struct).Field(i)
		l = &LocV{l.Prefix + "." + f.Name(), l.Idx, f.Type()}
	}
	return l
}

func pkgOf(t types.Type) *types.Package {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Pkg()
	}
	return nil
}

func (c *evalCtx) int64(e ast.Expr) *Term {
	v := c.eval(e)
	t, ok := v.V.(*Term)
	if !ok {
		c.fail(e, "not an integer")
	}
	if isSigned(v.T) {
		return c.st.u.b.Sext(t, 64)
	}
	return c.st.u.b.Zext(t, 64)
}

func (c *evalCtx) str(e ast.Expr) string {
	if b, ok := e.(*ast.BasicLit); ok && b.Kind == token.STRING {
		s, _ := strconv.Unquote(b.Value)
		return s
	}
	c.fail(e, "string literal expected")
	return ""
}

func (c *evalCtx) eval(e ast.Expr) TV {
	b := c.st.u.b
	st := c.st
	switch x := e.(type) {
	case *ast.ParenExpr:
		return c.eval(x.X)
	case *ast.BasicLit:
		switch x.Kind {
		case token.INT:
			v := constant.MakeFromLiteral(x.Value, token.INT, 0)
			n, ok := constant.Uint64Val(v)
			if !ok {
				c.fail(e, "int")
			}
			return TV{b.BV(n, 64), untypedInt}
		case token.STRING:
			s, _ := strconv.Unquote(x.Value)
			return TV{b.BV(internStr(s), 32), strT}
		}
	case *ast.Ident:
		switch x.Name {
		case "true":
			return TV{b.True, boolT}
		case "false":
			return TV{b.False, boolT}
		case "nil":
			return TV{nil, types.Typ[types.UntypedNil]}
		}
		if v, ok := c.env[x.Name]; ok {
			return v
		}
		if d, ok := st.u.spec.defs[x.Name]; ok && len(d.params) == 0 {
			return c.eval(d.expr)
		}
		c.fail(e, "unknown name")
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if ev, ok := c.evs[id.Name]; ok {
				return c.evField(e, ev, x.Sel.Name)
			}
			if _, ok := c.env[id.Name]; !ok {
				if v, ok := c.pkgObj(id.Name, x.Sel.Name); ok {
					return v
				}
				c.fail(e, "unknown name")
			}
		}
		if l := c.loc(e); l != nil {
			return TV{st.load(l), l.T}
		}
		v := c.eval(x.X)
		if s, ok := v.V.(*StructV); ok {
			obj, path, _ := types.LookupFieldOrMethod(v.T, true, pkgOf(v.T), x.Sel.Name)
			if _, ok := obj.(*types.Var); ok {
				var cur Val = s
				t := v.T
				for _, i := range path {
					cur = cur.(*StructV).F[i]
					t = t.Underlying().(*types.Struct).Field(i).Type()
				}
				return TV{cur, t}
			}
		}
		c.fail(e, "no field (type %v)", v.T)
	case *ast.StarExpr, *ast.IndexExpr:
		if ix, ok := e.(*ast.IndexExpr); ok {
			v := c.eval(ix.X)
			if mt, ok := v.T.Underlying().(*types.Map); ok {
				return TV{st.mapGet(v.V.(*Term), mt, c.coerce(c.eval(ix.Index), mt.Key()).V), mt.Elem()}
			}
			if tv, ok := v.V.(*TupleV); ok {
				i := c.int64(ix.Index)
				return TV{tv.V[i.V], v.T.(*types.Tuple).At(int(i.V)).Type()}
			}
		}
		if l := c.loc(e); l != nil {
			return TV{st.load(l), l.T}
		}
		c.fail(e, "not a location")
	case *ast.UnaryExpr:
		switch x.Op {
		case token.NOT:
			return TV{b.Not(c.boolean(x.X)), boolT}
		case token.SUB:
			v := c.eval(x.X)
			return TV{b.Neg(v.V.(*Term)), v.T}
		case token.AND:
			l := c.loc(x.X)
			if l == nil {
				c.fail(e, "not a location")
			}
			return TV{l, types.NewPointer(l.T)}
		}
	case *ast.BinaryExpr:
		return c.binary(x)
	case *ast.SliceExpr:
		v := c.eval(x.X)
		s, ok := v.V.(*SliceV)
		if !ok {
			c.fail(e, "slice of non-slice")
		}
		lo := b.BV(0, 64)
		hi := s.Len
		if x.Low != nil {
			lo = c.int64(x.Low)
		}
		if x.High != nil {
			hi = c.int64(x.High)
		}
		return TV{&SliceV{s.Arr, b.Add(s.Off, lo), b.Sub(hi, lo), b.Sub(s.Cap, lo)}, v.T}
	case *ast.CallExpr:
		return c.callExpr(x)
	}
	c.fail(e, "unsupported expression")
	return TV{}
}

func isUntyped(t types.Type) bool {
	bt, ok := t.(*types.Basic)
	return ok && bt.Info()&types.IsUntyped != 0
}

func (c *evalCtx) coerce(v TV, t types.Type) TV {
	b := c.st.u.b
	if v.V == nil && isUntyped(v.T) { // nil
		return TV{c.st.zero(t), t}
	}
	if isUntyped(v.T) {
		if bt, ok := t.Underlying().(*types.Basic); ok {
			if tm, ok := v.V.(*Term); ok && tm.W == 64 && bt.Info()&types.IsInteger != 0 {
				return TV{b.Extract(tm, intWidth(bt)-1, 0), t}
			}
			if tm, ok := v.V.(*Term); ok && tm.W == 64 && bt.Kind() == types.UnsafePointer {
				return TV{b.Extract(tm, 31, 0), t}
			}
			return TV{v.V, t}
		}
		if isTime(t) {
			return TV{v.V, t}
		}
	}
	if _, isI := t.Underlying().(*types.Interface); isI {
		if _, ok := v.V.(*IfaceV); !ok {
			return TV{c.st.makeIface(v.V, v.T), t}
		}
	}
	return v
}

func (c *evalCtx) binary(x *ast.BinaryExpr) TV {
	b := c.st.u.b
	switch x.Op {
	case token.LAND:
		l := c.boolean(x.X)
		if l == b.False {
			return TV{l, boolT}
		}
		return TV{b.And(l, c.boolean(x.Y)), boolT}
	case token.LOR:
		l := c.boolean(x.X)
		if l == b.True {
			return TV{l, boolT}
		}
		return TV{b.Or(l, c.boolean(x.Y)), boolT}
	}
	l, r := c.eval(x.X), c.eval(x.Y)
	if isUntyped(l.T) && !isUntyped(r.T) {
		l = c.coerce(l, r.T)
	} else if isUntyped(r.T) && !isUntyped(l.T) {
		r = c.coerce(r, l.T)
	}
	if x.Op == token.SHL || x.Op == token.SHR {
		if rt, ok := r.V.(*Term); ok {
			lt := l.V.(*Term)
			r = TV{b.Zext(rt, lt.W), l.T}
		}
	}
	if lt, ok := l.V.(*Term); ok {
		if rt, ok := r.V.(*Term); ok && lt.W != rt.W {
			c.fail(x, "operands of widths %d and %d", lt.W, rt.W)
		}
	}
	if x.Op == token.SUB && isTime(l.T) && isTime(r.T) {
		return TV{c.st.timeSub(l.V.(*Term), r.V.(*Term)), types.Typ[types.Int64]}
	}
	switch x.Op {
	case token.EQL, token.NEQ:
		if _, li := l.V.(*IfaceV); !li {
			if _, ri := r.V.(*IfaceV); ri {
				l = c.coerce(l, r.T)
			}
		} else {
			r = c.coerce(r, l.T)
		}
		t := l.T
		v := c.st.binop(token.EQL, l.V, r.V, t, t).(*Term)
		if x.Op == token.NEQ {
			v = b.Not(v)
		}
		return TV{v, boolT}
	}
	save := c.st.u.nopanic
	c.st.u.nopanic = false
	v := c.st.binop(x.Op, l.V, r.V, l.T, r.T)
	c.st.u.nopanic = save
	switch x.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return TV{v, boolT}
	}
	return TV{v, l.T}
}

func (c *evalCtx) evField(e ast.Expr, ev *Event, name string) TV {
	switch {
	case name == "i":
		return TV{c.st.u.b.BV(uint64(ev.Idx), 64), intT}
	case name == "n":
		return TV{c.st.u.b.BV(uint64(len(ev.Args)), 64), intT}
	case name == "recv":
		if ev.Recv == nil {
			c.fail(e, "event has no receiver")
		}
		var t types.Type = types.Typ[types.UnsafePointer]
		switch r := ev.Recv.(type) {
		case *LocV:
			t = types.NewPointer(r.T)
		case *SliceV:
			t = types.NewSlice(types.Typ[types.Byte])
		case *IfaceV:
			t = types.NewInterfaceType(nil, nil)
		default:
			if ev.Fn != nil && ev.Fn.Signature.Recv() != nil {
				t = ev.Fn.Signature.Recv().Type()
			}
		}
		return TV{ev.Recv, t}
	case name == "res" || name == "r0":
		if ev.Res == nil {
			c.fail(e, "event has no result")
		}
		if tv, ok := ev.Res.(*TupleV); ok && name == "r0" {
			return TV{tv.V[0], tupT(ev.ResT, 0)}
		}
		return TV{ev.Res, ev.ResT}
	case name[0] == 'r':
		i, err := strconv.Atoi(name[1:])
		if err == nil {
			if tv, ok := ev.Res.(*TupleV); ok && i < len(tv.V) {
				return TV{tv.V[i], tupT(ev.ResT, i)}
			}
		}
	case name[0] == 'a':
		i, err := strconv.Atoi(name[1:])
		if err == nil && i < len(ev.Args) {
			var t types.Type
			if i < len(ev.Types) {
				t = ev.Types[i]
			}
			return TV{ev.Args[i], t}
		}
	}
	c.fail(e, "no such part of event %s", ev.Name)
	return TV{}
}

func tupT(t types.Type, i int) types.Type {
	if tt, ok := t.(*types.Tuple); ok {
		return tt.At(i).Type()
	}
	return t
}

// events lists the events of the given names; und says why there may be others (a loop that may emit any number of them).
func (c *evalCtx) events(names string) (out []*Event, und string) {
	set := map[string]bool{}
	for _, n := range strings.Split(names, "|") {
		set[strings.TrimSpace(n)] = true
	}
	for _, ev := range c.st.ev[c.from:c.to] {
		if ev.Name == "LoopMark" {
			for n := range ev.Set {
				if evIn(set, n) && !set["LoopMark"] {
					und = "a loop may emit any number of " + n + " events"
				}
			}
		}
		if evIn(set, ev.Name) {
			out = append(out, ev)
		}
	}
	return
}

// evIn matches event names; "*.M" stands for method M of anything.
func evIn(set map[string]bool, n string) bool {
	if set[n] {
		return true
	}
	if i := strings.LastIndex(n, "."); i >= 0 {
		return set["*"+n[i:]]
	}
	return false
}

func (c *evalCtx) withEv(name string, ev *Event, cond ast.Expr) *Term {
	old, had := c.evs[name]
	c.evs[name] = ev
	t := c.boolean(cond)
	if had {
		c.evs[name] = old
	} else {
		delete(c.evs, name)
	}
	return t
}

func (c *evalCtx) callExpr(x *ast.CallExpr) TV {
	b := c.st.u.b
	st := c.st
	fid, ok := x.Fun.(*ast.Ident)
	if !ok {
		c.fail(x, "call")
	}
	a := x.Args
	if d, ok := st.u.spec.defs[fid.Name]; ok {
		if len(d.params) != len(a) {
			c.fail(x, "wrong number of arguments")
		}
		env := copyM(c.env)
		evs := copyM(c.evs)
		for i, p := range d.params {
			if id, ok := a[i].(*ast.Ident); ok {
				if ev, ok := c.evs[id.Name]; ok {
					evs[p] = ev
					continue
				}
			}
			env[p] = c.eval(a[i])
		}
		n := &evalCtx{st: st, env: env, evs: evs, from: c.from, to: c.to}
		return n.eval(d.expr)
	}
	switch fid.Name {
	case "imp":
		l := c.boolean(a[0])
		if l == b.False {
			return TV{b.True, boolT}
		}
		ls := st.simp(l)
		if isC(ls) && ls.V == 0 {
			return TV{b.True, boolT}
		}
		return TV{b.Implies(l, c.boolean(a[1])), boolT}
	case "ite":
		cd := c.boolean(a[0])
		p, q := c.eval(a[1]), c.eval(a[2])
		if isUntyped(p.T) {
			p = c.coerce(p, q.T)
		} else {
			q = c.coerce(q, p.T)
		}
		ps, qs := st.flatten(p.V), st.flatten(q.V)
		var ts []*Term
		for i := range ps {
			ts = append(ts, b.Ite(cd, ps[i], qs[i]))
		}
		return TV{unflatten(p.T, ts), p.T}
	case "the":
		// the("Name", e, x): x of the only such event
		evs, und := c.events(c.str(a[0]))
		if und != "" || len(evs) != 1 {
			panic(undetermined{"not exactly one " + c.str(a[0])})
		}
		n := &evalCtx{st: st, env: c.env, evs: copyM(c.evs), from: c.from, to: c.to}
		n.evs[a[1].(*ast.Ident).Name] = evs[0]
		return n.eval(a[2])
	case "ever":
		// ever(e): e about all events until now, not only those of the pass of a loop
		n := &evalCtx{st: st, env: c.env, evs: c.evs, from: st.evBase, to: c.to}
		return n.eval(a[0])
	case "some", "none", "cnt", "all":
		evs, und := c.events(c.str(a[0]))
		var cs []*Term
		if und != "" {
			// the events a loop may have emitted: whether one of them satisfies (violates) the condition is unknown
			if fid.Name == "cnt" {
				panic(undetermined{und})
			}
			st.u.und = und
			cs = append(cs, b.Fresh("undetermined", 0))
		}
		for _, ev := range evs {
			if len(a) >= 3 {
				cs = append(cs, c.withEv(a[1].(*ast.Ident).Name, ev, a[2]))
			} else {
				cs = append(cs, b.True)
			}
		}
		switch fid.Name {
		case "some":
			return TV{b.Or(cs...), boolT}
		case "none":
			return TV{b.Not(b.Or(cs...)), boolT}
		case "all":
			return TV{b.And(cs...), boolT}
		}
		n := b.BV(0, 64)
		for _, t := range cs {
			n = b.Add(n, b.Ite(t, b.BV(1, 64), b.BV(0, 64)))
		}
		return TV{n, intT}
	case "last", "first":
		// last("Name").field is not expressible as a value; use val("Name", e, expr)
	case "old":
		save, sh := st.mem, st.memShared
		st.mem, st.memShared = st.pre, true
		r := c.eval(a[0])
		st.mem, st.memShared = save, sh
		return r
	case "at":
		id := a[0].(*ast.Ident)
		ev := c.evs[id.Name]
		if ev == nil {
			c.fail(x, "unknown event")
		}
		save, sh := st.mem, st.memShared
		st.mem, st.memShared = ev.Mem, true
		r := c.eval(a[1])
		st.mem, st.memShared = save, sh
		return r
	case "held":
		// held(e, loc): the lock is held when the event happens
		id := a[0].(*ast.Ident)
		ev := c.evs[id.Name]
		l := c.loc(a[1])
		if ev == nil || l == nil {
			c.fail(x, "held(event, lock)")
		}
		return TV{b.Bool(ev.Locks[st.lockKey(l)] != 0), boolT}
	case "guarded":
		l := c.loc(a[1])
		if l == nil {
			c.fail(x, "guarded(map or field, lock)")
		}
		if acc := st.locAcc; acc != nil {
			f := c.loc(a[0])
			if f == nil || f.Prefix != acc.Prefix || len(f.Idx) != len(acc.Idx) {
				return TV{b.True, boolT}
			}
			if _, ok := f.T.Underlying().(*types.Map); ok {
				return TV{b.True, boolT}
			}
			h := st.locks[st.lockKey(l)]
			cs := []*Term{b.Bool(h < 0 || h > 0 && !st.mapWrite)}
			for i := range f.Idx {
				cs = append(cs, b.Ne(f.Idx[i], acc.Idx[i]))
			}
			return TV{b.Or(cs...), boolT}
		}
		m := c.eval(a[0])
		if _, ok := m.T.Underlying().(*types.Map); !ok {
			return TV{b.True, boolT}
		}
		h := st.locks[st.lockKey(l)]
		ok := b.Bool(h < 0 || h > 0 && !st.mapWrite)
		return TV{b.Or(ok, b.Ne(m.V.(*Term), st.mapAcc)), boolT}
	case "wheld":
		// wheld(e, loc): the lock is held for writing when the event happens
		ev := c.evs[a[0].(*ast.Ident).Name]
		l := c.loc(a[1])
		if ev == nil || l == nil {
			c.fail(x, "wheld(event, lock)")
		}
		return TV{b.Bool(ev.Locks[st.lockKey(l)] < 0), boolT}
	case "istype":
		v := c.eval(a[0])
		t, err := st.u.p.TypeNamed(c.str(a[1]))
		if err != nil {
			c.fail(x, "%v", err)
		}
		iv, ok := v.V.(*IfaceV)
		if !ok {
			// a value of a concrete type
			return TV{b.Bool(v.T != nil && types.Identical(v.T, t)), boolT}
		}
		return TV{b.Eq(iv.Tag, b.BV(tagOf(t), 16)), boolT}
	case "sametype":
		v, w := c.eval(a[0]).V.(*IfaceV), c.eval(a[1]).V.(*IfaceV)
		return TV{b.Eq(v.Tag, w.Tag), boolT}
	case "astype":
		v := c.eval(a[0])
		t, err := st.u.p.TypeNamed(c.str(a[1]))
		if err != nil {
			c.fail(x, "%v", err)
		}
		iv, ok := v.V.(*IfaceV)
		if !ok {
			if v.T != nil && types.Identical(v.T, t) {
				return v
			}
			c.fail(x, "not an interface")
		}
		return TV{st.unbox(iv, t), t}
	case "mapHas":
		m := c.eval(a[0])
		mt, ok := m.T.Underlying().(*types.Map)
		if !ok {
			c.fail(x, "not a map")
		}
		return TV{b.And(b.Ne(m.V.(*Term), b.BV(0, 32)), st.mapHas(m.V.(*Term), mt, c.coerce(c.eval(a[1]), mt.Key()).V)), boolT}
	case "fsm":
		f := c.eval(a[0])
		return TV{st.read("fsm.state", 32, kStr, f.V.(*Term)), strT}
	case "inlist":
		l, e := c.eval(a[0]), c.eval(a[1])
		return TV{b.Eq(st.read("list.of", 32, kScalar, e.V.(*Term)), l.V.(*Term)), boolT}
	case "once":
		l := c.loc(a[0])
		if l == nil {
			v := c.eval(a[0])
			return TV{st.read("once!done", 0, kScalar, v.V.(*Term)), boolT}
		}
		if pt, ok := l.T.Underlying().(*types.Pointer); ok {
			_ = pt
			return TV{st.read("once!done", 0, kScalar, st.load(l).(*Term)), boolT}
		}
		return TV{st.read(l.Prefix+".once!done", 0, kScalar, l.Idx...), boolT}
	case "seq":
		v := c.eval(a[0])
		switch s := v.V.(type) {
		case *SliceV:
			return TV{st.seqOf(s), seqT}
		case *Term:
			return TV{s, seqT}
		}
		c.fail(x, "not bytes")
	case "in":
		// in(x, s): x is an element of the slice s of constant length
		v, w := c.eval(a[0]), c.eval(a[1])
		et := w.T.Underlying().(*types.Slice).Elem()
		var cs []*Term
		sl := w.V.(*SliceV)
		for _, el := range st.sliceElems(sl, et, st.mem) {
			fa, fb := st.flatten(c.coerce(v, et).V), st.flatten(el)
			var es []*Term
			for i := range fa {
				es = append(es, b.Eq(fa[i], fb[i]))
			}
			cs = append(cs, b.And(es...))
		}
		return TV{b.Or(cs...), boolT}
	case "str":
		v := c.eval(a[0])
		if s, ok := v.V.(*SliceV); ok {
			return TV{st.strOfSeq(st.seqOf(s)), strT}
		}
		return TV{v.V, strT}
	case "bytesEq":
		v, w := c.eval(a[0]), c.eval(a[1])
		return TV{b.Eq(st.seqOf(v.V.(*SliceV)), st.seqOf(w.V.(*SliceV))), boolT}
	case "len", "cap":
		v := c.eval(a[0])
		switch s := v.V.(type) {
		case *SliceV:
			if fid.Name == "cap" {
				return TV{s.Cap, intT}
			}
			return TV{s.Len, intT}
		case *Term:
			if isString(v.T) {
				return TV{st.strLen(s), intT}
			}
		}
		c.fail(x, "len of %v", v.T)
	case "u16be", "u32be", "u64be":
		n, _ := strconv.Atoi(fid.Name[1:3])
		s := c.eval(a[0]).V.(*SliceV)
		off := c.int64(a[1])
		var r *Term
		for i := 0; i < n/8; i++ {
			t := st.read("arr:byte", 8, kScalar, s.Arr, b.Add(b.Add(s.Off, off), b.BV(uint64(i), 64)))
			if r == nil {
				r = t
			} else {
				r = b.Concat(r, t)
			}
		}
		return TV{r, map[int]types.Type{16: types.Typ[types.Uint16], 32: types.Typ[types.Uint32], 64: types.Typ[types.Uint64]}[n]}
	case "errStr":
		v := c.eval(a[0])
		return TV{st.errStr(v.V.(*IfaceV)), strT}
	case "sameptr":
		v, w := c.eval(a[0]), c.eval(a[1])
		if x, ok := v.V.(*LocV); ok {
			if y, ok := w.V.(*LocV); ok && (len(x.Idx) > 0 || len(y.Idx) > 0) {
				if x.Prefix != y.Prefix || len(x.Idx) != len(y.Idx) {
					return TV{b.False, boolT}
				}
				var cs []*Term
				for i := range x.Idx {
					cs = append(cs, b.Eq(x.Idx[i], y.Idx[i]))
				}
				return TV{b.And(cs...), boolT}
			}
		}
		return TV{b.And(b.Eq(ptrTerm(st, v.V), ptrTerm(st, w.V))), boolT}
	case "samearr":
		v, w := c.eval(a[0]).V.(*SliceV), c.eval(a[1]).V.(*SliceV)
		return TV{b.Eq(v.Arr, w.Arr), boolT}
	case "sameslice":
		// same slice value (array, start and length; nil and other empty slices differ)
		v, w := c.eval(a[0]).V.(*SliceV), c.eval(a[1]).V.(*SliceV)
		return TV{b.And(b.Eq(v.Arr, w.Arr), b.Eq(v.Len, w.Len), b.Or(b.Eq(v.Off, w.Off), b.Eq(v.Len, b.BV(0, 64)))), boolT}
	case "fresh":
		v := c.eval(a[0])
		switch s := v.V.(type) {
		case *SliceV:
			return TV{b.Or(b.Bin(OUle, b.BV(freshBase, 32), s.Arr), b.Eq(s.Len, b.BV(0, 64))), boolT}
		case *Term:
			return TV{b.Bin(OUle, b.BV(freshBase, 32), s), boolT}
		case *IfaceV:
			return TV{b.Bin(OUle, b.BV(freshBase, 32), b.Extract(s.Pay, 31, 0)), boolT}
		}
	case "lastset":
		v := c.eval(a[0])
		sl := v.T.Underlying().(*types.Slice).Elem().Underlying().(*types.Pointer).Elem()
		s := v.V.(*SliceV)
		f := c.str(a[1])
		ts := st.lastSet(s, sl, f, s.Len)
		su := sl.Underlying().(*types.Struct)
		for i := 0; i < su.NumFields(); i++ {
			if su.Field(i).Name() == f {
				return TV{unflatten(su.Field(i).Type(), ts), su.Field(i).Type()}
			}
		}
	case "ctxHasDl", "ctxDl":
		v := c.eval(a[0]).V.(*IfaceV)
		if fid.Name == "ctxHasDl" {
			return TV{b.UF("ctxhasdl", 0, v.Tag, v.Pay), boolT}
		}
		return TV{b.UF("ctxdl", 64, v.Tag, v.Pay), types.Typ[types.Int64]}
	case "ctxDone":
		v := c.eval(a[0]).V.(*IfaceV)
		d := b.UF("ctxdone", 32, v.Tag, v.Pay)
		d.old = true
		return TV{d, types.Typ[types.UnsafePointer]}
	case "reader":
		v := c.eval(a[0])
		s := v.V.(*SliceV)
		st.minfo("arr:byte", 8, kScalar)
		h := st.mem["arr:byte"]
		r := st.newRef()
		u := st.u
		st.readers[r.V] = &ghostReader{n: s.Len, at: func(k *Term) *Term {
			return u.readMem(h, "arr:byte", 8, kScalar, []*Term{s.Arr, u.b.Add(s.Off, k)})
		}}
		return TV{&IfaceV{b.BV(tagKey("ghost.reader"), 16), b.Zext(r, 64)}, mustType(st, "io.Reader")}
	case "rpos":
		v := c.eval(a[0]).V.(*IfaceV)
		return TV{st.read("ghost.rpos", 64, kScalar, b.Extract(v.Pay, 31, 0)), intT}
	case "writer":
		st.ghost["wpos"] = b.True
		one := b.BV(1, 32)
		st.write("ghost.wpos", 64, kScalar, b.BV(0, 64), one)
		st.write("ghost.wbad", 0, kScalar, b.False, one)
		r := st.newRef()
		return TV{&IfaceV{b.BV(tagKey("ghost.writer"), 16), b.Zext(r, 64)}, mustType(st, "io.Writer")}
	case "written":
		one := b.BV(1, 32)
		p := st.read("ghost.wpos", 64, kScalar, one)
		return TV{&SliceV{st.read("ghost.wbase", 32, kScalar, one), st.read("ghost.wboff", 64, kScalar, one), p, p}, types.NewSlice(types.Typ[types.Byte])}
	case "wbad":
		return TV{st.read("ghost.wbad", 0, kScalar, b.BV(1, 32)), boolT}
	case "zero":
		t, err := st.u.p.TypeNamed(c.str(a[0]))
		if err != nil {
			c.fail(x, "%v", err)
		}
		return TV{st.zero(t), t}
	case "slice":
		// slice("T", e1, e2, ...) builds a slice value
		t, err := st.u.p.TypeNamed(c.str(a[0]))
		if err != nil {
			c.fail(x, "%v", err)
		}
		r := st.newRef()
		for i, el := range a[1:] {
			v := c.coerce(c.eval(el), t)
			st.store(&LocV{st.elemName(t), []*Term{r, b.BV(uint64(i), 64)}, t}, v.V)
		}
		n := b.BV(uint64(len(a)-1), 64)
		return TV{&SliceV{r, b.BV(0, 64), n, n}, types.NewSlice(t)}
	case "iface":
		v := c.eval(a[0])
		t, err := st.u.p.TypeNamed(c.str(a[1]))
		if err != nil {
			c.fail(x, "%v", err)
		}
		return TV{st.makeIface(v.V, v.T), t}
	case "locked":
		l := c.loc(a[0])
		return TV{b.Bool(st.locks[st.lockKey(l)] != 0), boolT}
	case "strlen":
		return TV{st.strLen(c.eval(a[0]).V.(*Term)), intT}
	case "unix":
		v := c.eval(a[0])
		return TV{st.unixOf(v.V.(*Term)), types.Typ[types.Int64]}
	case "FormatUint":
		return TV{b.UF("FormatUint", 32, c.int64(a[0]), b.BV(10, 64)), strT}
	case "cast":
		v := c.eval(a[0])
		t, err := st.u.p.TypeNamed(c.str(a[1]))
		if err != nil {
			c.fail(x, "%v", err)
		}
		return TV{v.V, t}
	case "fnis":
		// fnis(f, "name"): the function value is exactly the named module function (or closure of it)
		v := st.simp(c.eval(a[0]).V.(*Term))
		want := c.str(a[1])
		if isC(v) {
			if cl, ok := st.clos[v.V]; ok {
				return TV{b.Bool(strings.Contains(fnKey(cl.fn), want)), boolT}
			}
			if fn := st.u.p.funcByID(v.V); fn != nil {
				return TV{b.Bool(strings.Contains(fnKey(fn), want)), boolT}
			}
		}
		return TV{b.False, boolT}
	}
	// conversions
	if bt, ok := types.Universe.Lookup(fid.Name).(*types.TypeName); ok && len(a) == 1 {
		t := bt.Type()
		v := c.eval(a[0])
		tm, ok := v.V.(*Term)
		ub, ok2 := t.Underlying().(*types.Basic)
		if ok && ok2 && ub.Info()&types.IsInteger != 0 {
			w := intWidth(ub)
			if isSigned(v.T) {
				return TV{b.Sext(tm, w), t}
			}
			return TV{b.Zext(tm, w), t}
		}
		return TV{v.V, t}
	}
	c.fail(x, "unknown function")
	return TV{}
}

func ptrTerm(st *State, v Val) *Term {
	switch x := v.(type) {
	case *Term:
		return b32(st.u.b, x)
	case *LocV:
		return st.reify(x)
	case *IfaceV:
		return st.u.b.Extract(x.Pay, 31, 0)
	}
	unsup("not a pointer: %T", v)
	return nil
}

func b32(b *B, t *Term) *Term {
	if t.W > 32 {
		return b.Extract(t, 31, 0)
	}
	return t
}

func mustType(st *State, n string) types.Type {
	t, err := st.u.p.TypeNamed(n)
	if err != nil {
		return types.NewInterfaceType(nil, nil)
	}
	return t
}
