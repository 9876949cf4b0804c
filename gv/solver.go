package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"sort"
	"strings"
	"time"
)

// Solver drives SMT solver processes (z3 interactively, cvc5 per query).
type Solver struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	path string
}

func startSolver(path string, args ...string) (*Solver, error) {
	c := exec.Command(path, args...)
	in, err := c.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := c.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := c.Start(); err != nil {
		return nil, err
	}
	return &Solver{cmd: c, in: in, out: bufio.NewReaderSize(out, 1<<16), path: path}, nil
}

func (s *Solver) stop() {
	if s != nil && s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) ask(script string, ms int) (string, string, error) {
	var sb strings.Builder
	sb.WriteString("(reset)\n(set-option :print-success false)\n")
	fmt.Fprintf(&sb, "(set-option :timeout %d)\n", ms)
	sb.WriteString(script)
	sb.WriteString("(echo \"@@end\")\n")
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		return "", "", err
	}
	var lines []string
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", "", err
		}
		l = strings.TrimRight(l, "\n")
		if strings.Contains(l, "@@end") {
			break
		}
		lines = append(lines, l)
	}
	if len(lines) == 0 {
		return "unknown", "", nil
	}
	r := lines[0]
	rest := strings.Join(lines[1:], "\n")
	if r != "sat" && r != "unsat" && r != "unknown" {
		return "unknown", strings.Join(lines, "\n"), nil
	}
	return r, rest, nil
}

const z3Path = "z3-new"

func (u *Unit) z3() *Solver {
	if u.sol == nil {
		s, err := startSolver(z3Path, "-in", "-smt2", "-memory:3000")
		if err != nil {
			panic(err)
		}
		u.sol = s
	}
	return u.sol
}

func qkey(ts []*Term) string {
	ids := make([]int, 0, len(ts))
	for _, t := range ts {
		ids = append(ids, t.id)
	}
	sort.Ints(ids)
	var sb strings.Builder
	last := -1
	for _, i := range ids {
		if i != last {
			fmt.Fprintf(&sb, "%x,", i)
		}
		last = i
	}
	return sb.String()
}

// relevant keeps only the conjuncts connected to the goal (last term) through shared symbols when
// it is safe to drop the others: dropping hypotheses can only make a valid formula look invalid, so
// it is tried first and the full set is used when that fails.
func (u *Unit) query(ts []*Term, ms int) string {
	k := qkey(ts)
	if r, ok := u.qcache[k]; ok {
		return r
	}
	r := u.rawQuery(ts, ms)
	u.qcache[k] = r
	return r
}

func (u *Unit) rawQuery(ts []*Term, ms int) string {
	t0 := time.Now()
	defer func() { u.solverTime += time.Since(t0) }()
	u.queries++
	r, extra, err := u.z3().ask(Script(ts, ""), ms)
	if err != nil {
		u.sol.stop()
		u.sol = nil
		return "unknown"
	}
	if extra != "" && strings.Contains(extra, "error") {
		u.lastErr = extra
		if u.debug {
			fmt.Println("solver error:", extra)
		}
	}
	return r
}

// prove decides an obligation: unsat of the negation. Returns verdict, back end and model text.
func (u *Unit) prove(ts []*Term, both bool) (string, string, string) {
	t0 := time.Now()
	defer func() { u.solverTime += time.Since(t0) }()
	script := Script(ts, "")
	u.queries++
	r, _, err := u.z3().ask(script, u.vcMS)
	if err != nil {
		u.sol.stop()
		u.sol = nil
		r = "unknown"
	}
	by := "z3"
	if r == "sat" {
		_, m, err := u.z3().ask(Script(ts, "(get-model)\n"), u.vcMS)
		if err != nil {
			u.sol.stop()
			u.sol = nil
		}
		return "sat", by, trimModel(m)
	}
	if r == "unknown" || both {
		c := u.cvc5(script)
		if r == "unknown" {
			return c, "cvc5", ""
		}
		if c == "sat" {
			return "sat", "cvc5 (z3 says unsat)", ""
		}
		if c == "unsat" {
			by = "z3+cvc5"
		}
	}
	return r, by, ""
}

func (u *Unit) cvc5(script string) string {
	c := exec.Command("cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", u.vcMS*2))
	c.Stdin = strings.NewReader("(set-logic QF_UFBV)\n" + script)
	out, _ := c.Output()
	s := strings.TrimSpace(string(out))
	if s == "sat" || s == "unsat" {
		return s
	}
	return "unknown"
}

// trimModel keeps the named symbols of a model (not the shared subterms of the script).
func trimModel(m string) string {
	var sb strings.Builder
	for i := 0; i < len(m); {
		p := strings.Index(m[i:], "(define-fun ")
		if p < 0 {
			break
		}
		p += i
		d, j, inq := 0, p, false
		for ; j < len(m); j++ {
			c := m[j]
			if c == '|' {
				inq = !inq
			}
			if inq {
				continue
			}
			if c == '(' {
				d++
			} else if c == ')' {
				d--
				if d == 0 {
					j++
					break
				}
			}
		}
		item := strings.Join(strings.Fields(m[p:j]), " ")
		i = j
		name := strings.Fields(item)[1]
		if len(name) > 1 && name[0] == 't' && strings.Trim(name[1:], "0123456789") == "" {
			continue
		}
		if len(item) > 400 {
			item = item[:400] + "…"
		}
		sb.WriteString(item + "\n")
		if sb.Len() > 8000 {
			break
		}
	}
	return sb.String()
}
