package main

import (
	"flag"
	"fmt"
	"os"
	"strings"
	"sync"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: gv unit|check ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "unit":
		cmdUnit(os.Args[2:])
	case "cover":
		cmdCover(os.Args[2:])
	case "mutants":
		cmdMutants(os.Args[2:])
	case "check":
		cmdCheck(os.Args[2:])
	default:
		fmt.Println("unknown command")
		os.Exit(2)
	}
}

type loaded struct {
	p    *Prog
	sp   *Spec
	tabs map[string][]fsmEntry
}

func loadAll(repo, specs string) (*loaded, error) {
	p, err := Load(repo)
	if err != nil {
		return nil, err
	}
	sp, err := parseSpecs(specs)
	if err != nil {
		return nil, err
	}
	tabs, err := fsmTables(p, sp)
	if err != nil {
		// units that use the machine concerned are then untranslatable, the others are not affected
		fmt.Println("note:", err)
	}
	return &loaded{p, sp, tabs}, nil
}

func runUnits(us []*Unit, workers int) {
	ch := make(chan *Unit)
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for u := range ch {
				u.run()
			}
		}()
	}
	for _, u := range us {
		ch <- u
	}
	close(ch)
	wg.Wait()
}

func cmdUnit(args []string) {
	fs := flag.NewFlagSet("unit", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	specs := fs.String("specs", "/verif/contracts", "")
	v := fs.Bool("v", false, "")
	dbg := fs.Bool("d", false, "")
	prop := fs.String("prop", "", "")
	budget := fs.Int("budget", 120, "")
	overlay := fs.String("overlay", "", "FILE=REPLACEMENT")
	first := fs.Bool("first", false, "one unit after the other, up to the first that fails")
	exact := fs.Bool("exact", false, "unit names, not patterns")
	fs.Parse(args)
	if *overlay != "" {
		kv := strings.SplitN(*overlay, "=", 2)
		b, err := os.ReadFile(kv[1])
		if err != nil {
			panic(err)
		}
		overlayFiles = map[string][]byte{kv[0]: b}
	}
	t0 := time.Now()
	l, err := loadAll(*repo, *specs)
	if err != nil {
		fmt.Println("error:", err)
		os.Exit(2)
	}
	fmt.Printf("loaded in %v\n", time.Since(t0).Round(time.Millisecond))
	var us []*Unit
	for _, c := range l.sp.contracts {
		ok := fs.NArg() == 0
		for _, pat := range fs.Args() {
			if !*exact && strings.Contains(c.name, pat) || *exact && (c.name == pat || strings.HasPrefix(pat, c.name)) || strings.TrimSuffix(c.file, ".gv") == pat {
				ok = true
			}
		}
		if *prop != "" {
			h := false
			for _, p := range contractProps(c) {
				h = h || p == *prop
			}
			ok = ok && h
		}
		if !ok {
			continue
		}
		x, err := unitsFor(l.p, l.sp, c, l.tabs)
		if err != nil {
			fmt.Println("error:", err)
			os.Exit(2)
		}
		us = append(us, x...)
	}
	for _, u := range us {
		u.debug = *dbg
		u.budget = time.Duration(*budget) * time.Second
		u.propFilter = *prop
	}
	if *first {
		runFirst(us, fs.Args())
		return
	}
	runUnits(us, 8)
	for _, u := range us {
		fmt.Printf("== %s: paths %d steps %d restarts %d queries %d solver %v wall %v\n", u.name, u.paths, u.steps, u.restarts, u.queries, u.solverTime.Round(time.Millisecond), u.wall.Round(time.Millisecond))
		if u.err != "" {
			fmt.Printf("   NOT TRANSLATED: %s\n", u.err)
		}
		for _, s := range u.c.stmts {
			if s.kind == "reach" && !u.reached[s.label] {
				fmt.Printf("   NOT REACHED: %s\n", s.label)
			}
		}
		for _, s := range u.missing() {
			if u.propFilter == "" || has(u.propsOf(s), u.propFilter) {
				fmt.Printf("   NOT APPLIED: %s\n", s.label)
			}
		}
		for _, n := range u.order {
			o := u.obls[n]
			if o.Status != "discharged" || *v {
				fmt.Printf("   %-10s %s (%d instances) %s\n", o.Status, n, o.Instances, o.Detail)
				if o.Status != "discharged" && *v {
					fmt.Println("      clause:", o.Clause)
					fmt.Println(indent(o.Path))
					fmt.Println(indent(o.Model))
				}
			}
		}
		if *v {
			for k := range u.dropped {
				fmt.Println("   dropped invariant", k)
			}
			for _, k := range sortedNotes(u.notes) {
				fmt.Println("   note:", k)
			}
		}
	}
}

func indent(s string) string { return "      " + strings.ReplaceAll(s, "\n", "\n      ") }

func contractProps(c *Contract) []string {
	m := map[string]bool{}
	for _, p := range c.props {
		m[p] = true
	}
	locks := false
	for _, s := range c.stmts {
		for _, p := range s.props {
			m[p] = true
		}
		if s.kind == "flags" {
			for _, f := range s.args {
				if f == "locks" {
					locks = true
				}
			}
		}
	}
	if locks {
		m["C23"] = true
	}
	return sortedNotes(m)
}

// runFirst runs the named units in the order given and stops at the first that does not go through.
func runFirst(us []*Unit, names []string) {
	by := map[string]*Unit{}
	for _, u := range us {
		by[u.name] = u
	}
	undecided := ""
	for _, n := range names {
		u := by[n]
		if u == nil {
			continue
		}
		u.run()
		bad := ""
		if u.err != "" {
			undecided = u.name + ": " + u.err
		}
		for _, s := range u.c.stmts {
			if s.kind == "reach" && !u.reached[s.label] {
				undecided = u.name + ": not reached " + s.label
			}
		}
		for _, s := range u.missing() {
			undecided = u.name + ": not applied " + s.label
		}
		for _, o := range u.obls {
			if o.Name == "app.stream.in.nodrop" {
				continue
			}
			if o.Status == "failed" {
				bad = o.Name
			} else if o.Status != "discharged" {
				undecided = o.Name + " undecided"
			}
		}
		if bad != "" {
			fmt.Println("RESULT failed", bad)
			return
		}
	}
	if undecided != "" {
		fmt.Println("RESULT undecided", undecided)
		return
	}
	fmt.Println("RESULT ok")
}
