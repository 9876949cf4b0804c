package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the program under verification: the SSA form of /repo's current source.
type Prog struct {
	prog     *ssa.Program
	pkgs     map[string]*ssa.Package // by package name, module packages only
	tpkgs    map[string]*types.Package
	sameName map[string][]*types.Package
	module   string
	mu       sync.Mutex
	fnID     map[*ssa.Function]uint64
	fnByID   map[uint64]*ssa.Function
	impls    map[*types.Interface][]types.Type
	boxed    map[string]bool // types the module stores in interfaces
	closed   []types.Type    // all named module types (for closed-world interface dispatch)
	errs     []string
}

var modulePkgs = []string{".", "./packet", "./pkg/...", "./conn", "./multiplexer", "./application", "./client", "./server", "./options", "./delegate"}

// overlayFiles replaces source files (mutants only).
var overlayFiles map[string][]byte

func Load(dir string) (*Prog, error) {
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: dir, Overlay: overlayFiles,
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GO111MODULE=on", "CGO_ENABLED=0")}
	pk, err := packages.Load(cfg, modulePkgs...)
	if err != nil {
		return nil, err
	}
	p := &Prog{pkgs: map[string]*ssa.Package{}, tpkgs: map[string]*types.Package{}, sameName: map[string][]*types.Package{}, fnID: map[*ssa.Function]uint64{}, fnByID: map[uint64]*ssa.Function{}, impls: map[*types.Interface][]types.Type{}}
	for _, q := range pk {
		for _, e := range q.Errors {
			p.errs = append(p.errs, e.Error())
		}
	}
	if len(p.errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(p.errs, "; "))
	}
	prog, spk := ssautil.Packages(pk, ssa.InstantiateGenerics|ssa.GlobalDebug)
	prog.Build()
	p.prog = prog
	for i, s := range spk {
		if s == nil {
			return nil, fmt.Errorf("no ssa for %s", pk[i].PkgPath)
		}
		p.pkgs[s.Pkg.Name()] = s
		p.tpkgs[s.Pkg.Name()] = s.Pkg
		if pk[i].Module != nil {
			p.module = pk[i].Module.Path
		}
		for _, n := range s.Pkg.Scope().Names() {
			if tn, ok := s.Pkg.Scope().Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				if _, isI := tn.Type().Underlying().(*types.Interface); !isI {
					p.closed = append(p.closed, tn.Type())
				}
			}
		}
	}
	// external packages by name, for type lookup in contracts
	var visit func(q *types.Package)
	seen := map[*types.Package]bool{}
	visit = func(q *types.Package) {
		if seen[q] {
			return
		}
		seen[q] = true
		if o, ok := p.tpkgs[q.Name()]; !ok {
			p.tpkgs[q.Name()] = q
		} else if o != q {
			p.sameName[q.Name()] = append(p.sameName[q.Name()], q)
		}
		for _, i := range q.Imports() {
			visit(i)
		}
	}
	for _, s := range spk {
		for _, i := range s.Pkg.Imports() {
			visit(i)
		}
	}
	p.boxed = map[string]bool{}
	for fn := range ssautil.AllFunctions(p.prog) {
		if !p.inModule(fn) {
			continue
		}
		for _, bl := range fn.Blocks {
			for _, in := range bl.Instrs {
				if mi, ok := in.(*ssa.MakeInterface); ok {
					p.boxed[typeKey(mi.X.Type())] = true
				}
			}
		}
	}
	sort.Slice(p.closed, func(i, j int) bool { return typeKey(p.closed[i]) < typeKey(p.closed[j]) })
	return p, nil
}

func (p *Prog) inModule(fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		pa := f.Pkg.Pkg.Path()
		return pa == p.module || strings.HasPrefix(pa, p.module+"/")
	}
	// synthetic wrappers: judge by receiver or object
	if o := f.Object(); o != nil && o.Pkg() != nil {
		pa := o.Pkg().Path()
		return pa == p.module || strings.HasPrefix(pa, p.module+"/")
	}
	return f.Synthetic != "" && len(f.Blocks) > 0
}

// FuncNamed resolves "pkg.F", "pkg.T.M".
func (p *Prog) FuncNamed(name string) (*ssa.Function, error) {
	parts := strings.Split(name, ".")
	pk := p.pkgs[parts[0]]
	if pk == nil {
		return nil, fmt.Errorf("no package %s", parts[0])
	}
	switch len(parts) {
	case 2:
		if f := pk.Func(parts[1]); f != nil {
			return f, nil
		}
	case 3:
		o := pk.Pkg.Scope().Lookup(parts[1])
		if tn, ok := o.(*types.TypeName); ok {
			for _, t := range []types.Type{types.NewPointer(tn.Type()), tn.Type()} {
				ms := p.prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					if ms.At(i).Obj().Name() == parts[2] {
						if f := p.prog.MethodValue(ms.At(i)); f != nil {
							return f, nil
						}
					}
				}
			}
		}
	}
	return nil, fmt.Errorf("no function %s", name)
}

const fnBase = 0x60000000

func (p *Prog) funcID(f *ssa.Function) uint64 {
	p.mu.Lock()
	defer p.mu.Unlock()
	if v, ok := p.fnID[f]; ok {
		return v
	}
	v := uint64(fnBase + len(p.fnID))
	p.fnID[f] = v
	p.fnByID[v] = f
	return v
}

func (p *Prog) funcByID(v uint64) *ssa.Function {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.fnByID[v]
}

// TypeNamed parses a type written in a contract: "*pkg.T", "pkg.T", "[]byte", "uint64", ...
func (p *Prog) TypeNamed(s string) (types.Type, error) {
	s = strings.TrimSpace(s)
	switch {
	case strings.HasPrefix(s, "*"):
		t, err := p.TypeNamed(s[1:])
		if err != nil {
			return nil, err
		}
		return types.NewPointer(t), nil
	case strings.HasPrefix(s, "[]"):
		t, err := p.TypeNamed(s[2:])
		if err != nil {
			return nil, err
		}
		return types.NewSlice(t), nil
	case strings.HasPrefix(s, "chan "):
		t, err := p.TypeNamed(s[5:])
		if err != nil {
			return nil, err
		}
		return types.NewChan(types.SendRecv, t), nil
	case strings.HasPrefix(s, "func(") && strings.HasSuffix(s, ")"):
		var ps []*types.Var
		for _, a := range strings.Split(s[5:len(s)-1], ",") {
			if a = strings.TrimSpace(a); a == "" {
				continue
			}
			t, err := p.TypeNamed(a)
			if err != nil {
				return nil, err
			}
			ps = append(ps, types.NewParam(0, nil, "", t))
		}
		return types.NewSignatureType(nil, nil, nil, types.NewTuple(ps...), nil, false), nil
	case s == "struct{}":
		return types.NewStruct(nil, nil), nil
	case s == "error":
		return types.Universe.Lookup("error").Type(), nil
	case s == "interface{}" || s == "any":
		return types.NewInterfaceType(nil, nil), nil
	}
	if i := strings.Index(s, "."); i > 0 {
		pk := p.tpkgs[s[:i]]
		if pk == nil {
			return nil, fmt.Errorf("no package %q", s[:i])
		}
		o := pk.Scope().Lookup(s[i+1:])
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type(), nil
		}
		for _, q := range p.sameName[s[:i]] {
			if tn, ok := q.Scope().Lookup(s[i+1:]).(*types.TypeName); ok {
				return tn.Type(), nil
			}
		}
		return nil, fmt.Errorf("no type %q", s)
	}
	if o := types.Universe.Lookup(s); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type(), nil
		}
	}
	return nil, fmt.Errorf("no type %q", s)
}

// implementers lists module types (or pointers to them) implementing iface.
func (p *Prog) implementers(iface *types.Interface) []types.Type {
	p.mu.Lock()
	defer p.mu.Unlock()
	if r, ok := p.impls[iface]; ok {
		return r
	}
	var out []types.Type
	for _, t := range p.closed {
		if strings.Contains(typeKey(t), "UnimplementedConn") {
			continue
		}
		// a struct value counts only if the module ever stores one in an interface
		_, isStruct := t.Underlying().(*types.Struct)
		if types.Implements(t, iface) && (!isStruct || p.boxed[typeKey(t)]) {
			out = append(out, t)
		}
		if pt := types.NewPointer(t); types.Implements(pt, iface) && isStruct {
			out = append(out, pt)
		}
	}
	p.impls[iface] = out
	return out
}
