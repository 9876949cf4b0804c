package main

// Mutants: small changes of the source, to see what the contracts do not notice. Only a development aid, no check
// runs it.

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type mutant struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Func string `json:"func"`
	Kind string `json:"kind"`
	From string `json:"from"`
	To   string `json:"to"`
	off  int
	end  int
}

func mutantsOf(file string) ([]mutant, []byte) {
	src, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, src, 0)
	if err != nil {
		panic(err)
	}
	var out []mutant
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		name := fd.Name.Name
		if fd.Recv != nil {
			name = recvStr(fd.Recv.List[0].Type) + "." + name
		}
		text := func(n ast.Node) string {
			return string(src[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
		}
		add := func(n ast.Node, kind, to string) {
			a, b := fset.Position(n.Pos()), fset.Position(n.End())
			from := string(src[a.Offset:b.Offset])
			if strings.Contains(from, ".log.") || strings.Contains(from, "opts.log") && kind == "delete" {
				return
			}
			out = append(out, mutant{file, a.Line, name, kind, from, to, a.Offset, b.Offset})
		}
		block := func(l []ast.Stmt) {
			for i, s := range l {
				switch x := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.GoStmt, *ast.DeferStmt:
					add(s, "delete", "")
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						add(s, "delete", "")
					}
				case *ast.BranchStmt:
					if x.Tok != token.GOTO {
						add(s, "delete", "")
					}
				case *ast.IfStmt:
					if x.Else == nil {
						add(s, "delete", "")
					}
				case *ast.ReturnStmt:
					if i+1 < len(l) || len(x.Results) == 0 {
						add(s, "delete", "")
					}
				}
				if ds, ok := s.(*ast.DeferStmt); ok {
					add(s, "undefer", text(ds.Call))
				}
				if gs, ok := s.(*ast.GoStmt); ok {
					add(s, "ungo", text(gs.Call))
				}
				if i+1 < len(l) && !strings.Contains(text(s), ".log.") && !strings.Contains(text(l[i+1]), ".log.") {
					simple := func(s ast.Stmt) bool {
						switch s.(type) {
						case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.GoStmt, *ast.AssignStmt, *ast.DeferStmt, *ast.IfStmt:
							return true
						}
						return false
					}
					if simple(s) && simple(l[i+1]) {
						a, b := fset.Position(s.Pos()), fset.Position(l[i+1].End())
						out = append(out, mutant{file, a.Line, name, "swap", string(src[a.Offset:b.Offset]), text(l[i+1]) + "\n" + text(s), a.Offset, b.Offset})
					}
				}
			}
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.CallExpr:
				if strings.Contains(text(x.Fun), ".log.") {
					return false
				}
				for i := 0; i+1 < len(x.Args); i++ {
					a, b := text(x.Args[i]), text(x.Args[i+1])
					if a != b {
						o, e := fset.Position(x.Args[i].Pos()), fset.Position(x.Args[i+1].End())
						out = append(out, mutant{file, o.Line, name, "swapargs", string(src[o.Offset:e.Offset]), b + ", " + a, o.Offset, e.Offset})
					}
				}
				for _, p := range [][2]string{{"RLock", "Lock"}, {"Lock", "RLock"}} {
					if se, ok := x.Fun.(*ast.SelectorExpr); ok && se.Sel.Name == p[0] {
						_ = p
					}
				}
			case *ast.BlockStmt:
				block(x.List)
			case *ast.CaseClause:
				block(x.Body)
			case *ast.CommClause:
				block(x.Body)
			case *ast.IfStmt:
				add(x.Cond, "negate", "!("+text(x.Cond)+")")
			case *ast.ForStmt:
				if x.Cond != nil {
					add(x.Cond, "negate", "!("+text(x.Cond)+")")
				}
			case *ast.BinaryExpr:
				alt := map[token.Token][]string{token.LAND: {"||"}, token.LOR: {"&&"}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"}, token.ADD: {"-"}, token.SUB: {"+"}, token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"}}
				for _, o := range alt[x.Op] {
					add(x, "op", text(x.X)+" "+o+" "+text(x.Y))
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					add(x, "op", text(x.X))
					add(x, "op", text(x.Y))
				}
			case *ast.ReturnStmt:
				for _, r := range x.Results {
					switch text(r) {
					case "nil":
						if len(x.Results) > 0 && r == x.Results[len(x.Results)-1] {
							add(r, "ret", "io.EOF")
						}
					case "true":
						add(r, "ret", "false")
					case "false":
						add(r, "ret", "true")
					default:
						add(r, "ret", "nil")
					}
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						add(x, "lit", fmt.Sprint(v+1))
						if v > 0 {
							add(x, "lit", fmt.Sprint(v-1))
						}
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					add(x, "lit", "false")
				} else if x.Name == "false" {
					add(x, "lit", "true")
				}
			case *ast.SelectorExpr:
				alts := map[string][]string{
					"negotiatingID": {"dialogueID"}, "dialogueID": {"negotiatingID"}, "NegotiatingID": {"DialogueID"}, "DialogueID": {"NegotiatingID", "ClientID"}, "NegotiateID": {"SessionID"},
					"SessionID": {"ID", "ClientID"}, "ID": {"SessionID"}, "StreamID": {"ID", "ClientID"}, "ClientID": {"StreamID", "ID"},
					"readInCh": {"readOutCh", "writeInCh"}, "readOutCh": {"readInCh"}, "writeInCh": {"writeOutCh"}, "writeOutCh": {"writeInCh"},
					"RLock": {"Lock"}, "Lock": {"RLock"}, "RUnlock": {"Unlock"}, "Unlock": {"RUnlock"},
					"Key": {"Value", "Custom"}, "Value": {"Key", "Custom"}, "Custom": {"Value"}, "Timeout": {"Deadline"},
					"mtx": {"rpcMtx"}, "rdeadline": {"wdeadline"}, "readBufferSize": {"writeBufferSize"}, "writeBufferSize": {"readBufferSize"}, "ReadBufferSize": {"WriteBufferSize"}, "WriteBufferSize": {"ReadBufferSize"},
					"EOF": {"ErrUnexpectedEOF"}, "dlReadChMap": {"dlWriteChMap"}, "dlRead": {"dlWrite"}, "dlWrite": {"dlRead"},
					"IOSuccess": {"IOErr", "IODiscard"}, "IOErr": {"IOSuccess", "IOClosed"}, "IOClosed": {"IOSuccess"}, "IODiscard": {"IOSuccess"}, "IOData": {"IOSuccess"}, "IOReconnect": {"IOErr"},
					"Even": {"Odd"}, "Odd": {"Even"}, "Load": {"LoadAndDelete"}, "Ack": {"Cancel"}, "Error": {"Ack"}}
				for _, a := range alts[x.Sel.Name] {
					add(x.Sel, "sel", a)
				}
			}
			return true
		})
	}
	return out, src
}

func recvStr(e ast.Expr) string {
	switch x := e.(type) {
	case *ast.StarExpr:
		return recvStr(x.X)
	case *ast.Ident:
		return x.Name
	}
	return "?"
}

type coverage struct {
	Units map[string][]string // unit name -> file:line executed
	Wall  map[string]float64
}

// cmdCover runs every unit and writes the source lines each executes.
func cmdCover(args []string) {
	l, err := loadAll("/repo", "/verif/contracts")
	if err != nil {
		panic(err)
	}
	var us []*Unit
	for _, c := range l.sp.contracts {
		x, err := unitsFor(l.p, l.sp, c, l.tabs)
		if err != nil {
			panic(err)
		}
		us = append(us, x...)
	}
	for _, u := range us {
		u.budget = 120 * time.Second
	}
	runUnits(us, 8)
	cov := coverage{map[string][]string{}, map[string]float64{}}
	for _, u := range us {
		lines := map[string]bool{}
		for blk := range u.blocks {
			for _, in := range blk.Instrs {
				if p := in.Pos(); p.IsValid() {
					pos := l.p.prog.Fset.Position(p)
					lines[fmt.Sprintf("%s:%d", pos.Filename, pos.Line)] = true
				}
			}
		}
		cov.Units[u.name] = sortedNotes(lines)
		cov.Wall[u.name] = u.wall.Seconds()
	}
	b, _ := json.Marshal(cov)
	os.WriteFile(args[0], b, 0o644)
}

// cmdMutants: gv mutants [-cov FILE] [-j N] [-kind k] FILES...
func cmdMutants(args []string) {
	fs := flag.NewFlagSet("mutants", flag.ExitOnError)
	covf := fs.String("cov", "/tmp/cov.json", "")
	j := fs.Int("j", 8, "")
	list := fs.Bool("list", false, "")
	fs.Parse(args)
	var cov coverage
	b, err := os.ReadFile(*covf)
	if err != nil {
		panic(err)
	}
	json.Unmarshal(b, &cov)
	byLine := map[string][]string{}
	for u, ls := range cov.Units {
		for _, l := range ls {
			byLine[l] = append(byLine[l], u)
		}
	}
	type job struct {
		m   mutant
		src []byte
		i   int
	}
	ch := make(chan job)
	var wg sync.WaitGroup
	var mu sync.Mutex
	counts := map[string]int{}
	for w := 0; w < *j; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for jb := range ch {
				r := runMutant(jb.m, jb.src, jb.i, byLine, cov.Wall)
				mu.Lock()
				k := strings.Fields(r)[0]
				counts[k]++
				if k == "SURVIVED" || k == "UNCOVERED" || k == "UNDECIDED" {
					fmt.Printf("%s %s:%d %s %s: %q -> %q\n", r, strings.TrimPrefix(jb.m.File, "/repo/"), jb.m.Line, jb.m.Func, jb.m.Kind, short(jb.m.From), short(jb.m.To))
				}
				mu.Unlock()
			}
		}()
	}
	i := 0
	for _, f := range fs.Args() {
		ms, src := mutantsOf(f)
		if *list {
			fmt.Println(f, len(ms))
			continue
		}
		for _, m := range ms {
			i++
			ch <- job{m, src, i}
		}
	}
	close(ch)
	wg.Wait()
	fmt.Println("TOTAL", counts)
}

func short(s string) string {
	if len(s) > 160 {
		return s[:160] + "…"
	}
	return s
}

func runMutant(m mutant, src []byte, i int, byLine map[string][]string, wall map[string]float64) string {
	var buf bytes.Buffer
	buf.Write(src[:m.off])
	buf.WriteString(m.To)
	buf.Write(src[m.end:])
	if _, err := format.Source(buf.Bytes()); err != nil {
		return "BUILD"
	}
	// units that execute a line of the change
	set := map[string]bool{}
	n := strings.Count(m.From, "\n")
	for l := m.Line; l <= m.Line+n; l++ {
		for _, u := range byLine[fmt.Sprintf("%s:%d", m.File, l)] {
			set[u] = true
		}
	}
	dir, _ := os.MkdirTemp("", "gvmut")
	defer os.RemoveAll(dir)
	mf := filepath.Join(dir, filepath.Base(m.File))
	os.WriteFile(mf, buf.Bytes(), 0o644)
	if len(set) == 0 {
		ov := filepath.Join(dir, "ov.json")
		b, _ := json.Marshal(map[string]interface{}{"Replace": map[string]string{m.File: mf}})
		os.WriteFile(ov, b, 0o644)
		c := exec.Command("go", "vet", "-overlay", ov, "./"+filepath.Dir(strings.TrimPrefix(m.File, "/repo/")))
		c = exec.Command("go", "build", "-overlay", ov, "./"+filepath.Dir(strings.TrimPrefix(m.File, "/repo/")))
		c.Dir = "/repo"
		if c.Run() != nil {
			return "BUILD"
		}
		return "UNCOVERED"
	}
	var us []string
	for u := range set {
		us = append(us, u)
	}
	sort.Slice(us, func(a, b int) bool { return wall[us[a]] < wall[us[b]] })
	c := exec.Command(os.Args[0], "unit", "-overlay", m.File+"="+mf, "-first", "-exact", "-budget", "60")
	c.Args = append(c.Args, us...)
	c.Env = append(os.Environ(), "GOMAXPROCS=2")
	out, _ := c.CombinedOutput()
	s := string(out)
	switch {
	case strings.Contains(s, "RESULT failed"):
		return "KILLED"
	case strings.Contains(s, "RESULT undecided"):
		k := strings.Index(s, "RESULT undecided")
		return "UNDECIDED [" + strings.TrimSpace(strings.SplitN(s[k+16:], "\n", 2)[0]) + "]"
	case strings.Contains(s, "RESULT ok"):
		return fmt.Sprintf("SURVIVED [%d units]", len(us))
	}
	return "BUILD"
}
