package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

type knownFinding struct{ prop, obl, text string }

func readKnown(file string) []knownFinding {
	var out []knownFinding
	data, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	re := regexp.MustCompile(`^finding: property=(\S+) obligation=(.+?) :: (.*)$`)
	for _, l := range strings.Split(string(data), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			out = append(out, knownFinding{m[1], m[2], m[3]})
		}
	}
	return out
}

func has(s []string, x string) bool {
	for _, y := range s {
		if x == y {
			return true
		}
	}
	return false
}

// battery runs the concrete tests kept for a property against the real code and returns
// whether one failed, with the output.
func battery(repo, verif, prop string, limit time.Duration) (ran, failed bool, out string) {
	root := filepath.Join(verif, "replay")
	repl := map[string]string{}
	pkgs := map[string]bool{}
	tag := strings.ToLower(prop)
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, "_test.go") {
			return nil
		}
		b := filepath.Base(p)
		rel, _ := filepath.Rel(root, filepath.Dir(p))
		if strings.HasPrefix(b, tag+"_") || strings.HasPrefix(b, "common_") {
			repl[filepath.Join(repo, rel, "zz_verif_"+b)] = p
		}
		if strings.HasPrefix(b, tag+"_") {
			pkgs["./"+rel] = true
		}
		return nil
	})
	if len(pkgs) == 0 {
		return false, false, "no replay tests for " + prop
	}
	for f := range repl {
		rel, _ := filepath.Rel(repo, filepath.Dir(f))
		if !pkgs["./"+rel] {
			delete(repl, f)
		}
	}
	dir, err := os.MkdirTemp("", "gvreplay")
	if err != nil {
		return false, false, err.Error()
	}
	defer os.RemoveAll(dir)
	js, _ := json.Marshal(map[string]any{"Replace": repl})
	ov := filepath.Join(dir, "overlay.json")
	os.WriteFile(ov, js, 0o644)
	var ps []string
	for p := range pkgs {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	args := append([]string{"test", "-overlay", ov, "-vet=off", "-count=1", "-p", "1", "-timeout", fmt.Sprintf("%ds", int(limit.Seconds())-20), "-run", "^TestVerif" + prop}, ps...)
	c := exec.CommandContext(ctx, "go", args...)
	c.Dir = repo
	c.Env = append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local")
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	c.Cancel = func() error { return syscall.Kill(-c.Process.Pid, syscall.SIGKILL) }
	var buf bytes.Buffer
	c.Stdout, c.Stderr = &buf, &buf
	err = c.Run()
	out = buf.String()
	if err == nil {
		return true, false, out
	}
	// a test that does not build (the code it names was renamed) is no failing input
	if strings.Contains(out, "[build failed]") || strings.Contains(out, "[setup failed]") {
		if !strings.Contains(out, "--- FAIL") {
			return false, false, out
		}
	}
	failed = strings.Contains(out, "--- FAIL") || strings.Contains(out, "panic:") || strings.Contains(out, "fatal error:")
	return true, failed, out
}

func cmdCheck(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	prop := fs.String("prop", "", "")
	fs.Parse(args)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	t0 := time.Now()
	l, err := loadAll(*repo, filepath.Join(*verif, "contracts"))
	if err != nil {
		fmt.Println("error: the tree cannot be loaded:", err)
		os.Exit(2)
	}
	var us []*Unit
	var missing []string
	ncontr := 0
	for _, c := range l.sp.contracts {
		if !has(contractProps(c), *prop) {
			continue
		}
		ncontr++
		x, err := unitsFor(l.p, l.sp, c, l.tabs)
		if err != nil {
			missing = append(missing, c.name+": "+err.Error())
			continue
		}
		us = append(us, x...)
	}
	budget := 200 * time.Second
	if tier == "thorough" {
		budget = 1200 * time.Second
	}
	for _, u := range us {
		u.propFilter = *prop
		u.budget = budget
		if tier == "thorough" {
			u.both = true
			u.vcMS = 60000
		}
	}
	runUnits(us, 8)

	known := readKnown(filepath.Join(*verif, "known_findings.txt"))
	type rec struct {
		o *Oblig
		u *Unit
	}
	var failed, knownHit []rec
	var undecided []string
	total, discharged, inst, triv, queries := 0, 0, 0, 0, 0
	by := map[string]int{}
	var solver time.Duration
	boundedObl := map[string]bool{}
	notes, inlined, underContract := map[string]bool{}, map[string]bool{}, map[string]bool{}
	for _, u := range us {
		solver += u.solverTime
		queries += u.queries
		for n := range u.notes {
			notes[n] = true
		}
		for n := range u.bounded {
			boundedObl[u.name+": "+n] = true
		}
		for n := range u.inlined {
			inlined[strings.ReplaceAll(n, l.p.module+"/", "")] = true
		}
		if u.c.fn != "" {
			underContract[u.c.fn] = true
		} else {
			underContract["lemma "+u.c.name] = true
		}
		if u.err != "" {
			e := u.err
			if i := strings.Index(e, "\n"); i > 0 {
				e = e[:i]
			}
			undecided = append(undecided, u.name+": "+e)
		}
		for _, s := range u.c.stmts {
			if s.kind == "reach" && !u.reached[s.label] && u.err == "" {
				undecided = append(undecided, u.name+": the end of the contract is not reached (vacuous)")
			}
		}
		for _, s := range u.missing() {
			if u.err == "" && has(u.propsOf(s), *prop) {
				undecided = append(undecided, u.name+"."+s.label+": the clause applied nowhere")
			}
		}
		nob := 0
		for _, n := range u.order {
			o := u.obls[n]
			if !has(o.Props, *prop) {
				continue
			}
			nob++
			total++
			inst += o.Instances
			triv += o.Trivial
			switch {
			case o.Status == "failed":
				k := false
				for _, f := range known {
					if f.prop == *prop && f.obl == o.Name {
						fmt.Printf("KNOWN-FINDING: property=%s obligation %s: %s\n", *prop, o.Name, f.text)
						k = true
						break
					}
				}
				if k {
					knownHit = append(knownHit, rec{o, u})
				} else {
					failed = append(failed, rec{o, u})
				}
			case o.Status == "undecided":
				undecided = append(undecided, o.Name+": "+o.Detail)
			case u.err != "":
				undecided = append(undecided, o.Name+": exploration incomplete")
			default:
				discharged++
				for b := range o.byset {
					by[b]++
				}
			}
		}
		if nob == 0 && u.err == "" {
			undecided = append(undecided, u.name+": no obligation was generated")
		}
	}
	undecided = append(undecided, missing...)
	if total == 0 && len(undecided) == 0 {
		undecided = append(undecided, "no obligation was generated for "+*prop)
	}
	violations := 0
	var violLines []string
	batRan, batFailed, batOut := false, false, ""
	if len(failed) > 0 || len(undecided) > 0 {
		lim := 240 * time.Second
		batRan, batFailed, batOut = battery(*repo, *verif, *prop, lim)
	}
	rdir := filepath.Join(*verif, "evidence", "replay")
	os.MkdirAll(rdir, 0o755)
	old, _ := filepath.Glob(filepath.Join(rdir, *prop+"-*"))
	for _, f := range old {
		os.Remove(f)
	}
	writeReplay := func(n int, body string) string {
		f := filepath.Join(rdir, fmt.Sprintf("%s-%d.txt", *prop, n))
		os.WriteFile(f, []byte(body), 0o644)
		return f
	}
	batNote := func() string {
		if !batRan {
			return "concrete replay: not run\n" + tail(batOut, 4000)
		}
		if batFailed {
			return "concrete replay against the real code (replay/, tests TestVerif" + *prop + "*): FAILED\n" + tail(batOut, 12000)
		}
		return "concrete replay against the real code: no failing input found\n" + tail(batOut, 2000)
	}
	for i, f := range failed {
		body := fmt.Sprintf("property %s\nfailed obligation: %s\nclause: %s\nunit: %s\nsolver: %s\n%s\n\n%s\nmodel:\n%s\n\n%s\n", *prop, f.o.Name, f.o.Clause, f.u.name, f.o.By, f.o.Detail, f.o.Path, f.o.Model, batNote())
		p := writeReplay(i, body)
		line := fmt.Sprintf("VIOLATION property=%s replay=%s", *prop, p)
		if !batFailed {
			line += " no-failing-input-found"
		}
		fmt.Printf("failed obligation %s\n", f.o.Name)
		violLines = append(violLines, line)
		violations++
	}
	if len(failed) == 0 && batFailed {
		body := fmt.Sprintf("property %s\nobligations no longer decided on this tree:\n  %s\n\n%s\n", *prop, strings.Join(undecided, "\n  "), batNote())
		p := writeReplay(0, body)
		violLines = append(violLines, fmt.Sprintf("VIOLATION property=%s replay=%s", *prop, p))
		violations++
	}
	for _, u := range undecided {
		fmt.Println("undecided:", u)
	}
	ev := map[string]any{
		"property": *prop, "tier": tier, "seed": seed, "level": "proof", "wall_s": time.Since(t0).Seconds(),
		"coverage": map[string]any{
			"obligations": total, "discharged": discharged, "instances": inst, "instances_closed_by_simplifier": triv,
			"checker_cmd":               fmt.Sprintf("/verif/bin/gv check -prop %s (symbolic weakest-precondition generation over go/ssa of /repo; z3-new -in%s)", *prop, map[bool]string{true: "; every query repeated with cvc5", false: ""}[tier == "thorough"]),
			"trusted_base":              trustedBase(),
			"obligations_by_back_end":   by,
			"solver_queries":            queries,
			"solver_s":                  solver.Seconds(),
			"contracts":                 ncontr,
			"functions_under_contract":  sortedNotes(underContract),
			"functions_executed_inside": sortedNotes(inlined),
			"bounded_not_proved":        sortedNotes(boundedObl),
			"undecided":                 append([]string{}, undecided...),
			"known_findings":            len(knownHit),
			"replay_battery_run":        batRan,
		},
		"assumptions": sortedNotes(notes),
		"violations":  violations,
	}
	js, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(*verif, "evidence", *prop+".json"), js, 0o644)
	fmt.Printf("%s: %d obligations, %d discharged, %d known findings, %d undecided, %d violations, %.1fs (solver %.1fs, %d queries)\n", *prop, total, discharged, len(knownHit), len(undecided), violations, time.Since(t0).Seconds(), solver.Seconds(), queries)
	for _, l := range violLines {
		fmt.Println(l)
	}
	if violations > 0 {
		os.Exit(1)
	}
}

func tail(s string, n int) string {
	if len(s) > n {
		return "…" + s[len(s)-n:]
	}
	return s
}

func trustedBase() []string {
	return []string{
		"the verifier gv itself (/verif/gv): SSA semantics, memory model, loop cutting, term simplifier",
		"golang.org/x/tools go/ssa and the Go type checker",
		"the SMT solvers z3 and (thorough) cvc5",
		"models of the Go standard library used by the code (sync, sync/atomic, encoding/binary, container/list, context, time, io, errors, strconv): gv/intrinsics.go",
		"encoding/json: decoding what was encoded gives the value back; decoding other bytes gives any value or an error",
		"github.com/jumboframes/armorigo/synchub and log, github.com/singchia/go-timer: operations only have the effects their contracts in gv/intrinsics.go and contracts/*.gv state",
		"github.com/singchia/yafsm: EmitEvent follows the table built by the real initFSM, one transition at a time",
		"code runs to completion between blocking points except where a contract names interference",
	}
}
