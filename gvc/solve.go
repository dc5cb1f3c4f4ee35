package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Session is an incremental solver used to prune infeasible paths. Its
// answers only ever remove paths that are proved infeasible.
type Session struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	stack   []*pcNode
	defined map[*Term]string
	decl    map[string]bool
	sorts   map[string]bool
	cache   map[*pcNode]bool
	queries int
	dead    bool

	restarts  int
	restarted bool // by the last query
}

func NewSession() *Session {
	s := &Session{defined: map[*Term]string{}, decl: map[string]bool{}, sorts: map[string]bool{}, cache: map[*pcNode]bool{}}
	s.start()
	return s
}

func (s *Session) start() {
	s.cmd = exec.Command("z3-new", "-in", "-smt2")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.out = bufio.NewReader(o)
	if err := s.cmd.Start(); err != nil {
		s.dead = true
		return
	}
	fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-option :timeout 200)\n(set-option :memory_max_size 4000)\n(set-logic ALL)\n")
}

func (s *Session) Close() {
	if s == nil || s.dead {
		return
	}
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
	s.dead = true
}

// restart replaces a solver process that ended, a few times.
func (s *Session) restart() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
	if s.restarts++; s.restarts > 20 {
		s.dead = true
		return
	}
	s.defined, s.decl, s.sorts, s.stack = map[*Term]string{}, map[string]bool{}, map[string]bool{}, nil
	s.restarted = true
	s.start()
}

func usable(t *Term) bool { return !t.quant && !t.hasBV }

// ref prints t, defining compound subterms once.
func (s *Session) ref(c *Ctx, t *Term, b *strings.Builder) string {
	if n, ok := s.defined[t]; ok {
		return n
	}
	switch t.op {
	case "int", "bool", "str":
		return c.Show(t)
	}
	declare := func(name string) {
		if s.decl[name] {
			return
		}
		s.decl[name] = true
		sig, ok := c.decls[name]
		if !ok {
			return
		}
		for _, srt := range append([]string{sig.ret}, sig.args...) {
			for us := range c.sorts {
				if !s.sorts[us] && strings.Contains(srt, us) {
					s.sorts[us] = true
					fmt.Fprintf(b, "(declare-sort %s 0)\n", us)
				}
			}
		}
		fmt.Fprintf(b, "(declare-fun %s (%s) %s)\n", smtSym(name), strings.Join(sig.args, " "), sig.ret)
	}
	if t.op == "var" {
		declare(t.sval)
		return smtSym(t.sval)
	}
	var args []string
	for _, a := range t.args {
		args = append(args, s.ref(c, a, b))
	}
	var body string
	if t.op == "constarr" {
		body = fmt.Sprintf("((as const %s) %s)", t.sort, args[0])
	} else {
		declare(t.op)
		if d, ok := c.defs[t.op]; ok && !s.decl["def:"+t.op] {
			s.decl["def:"+t.op] = true
			b.WriteString(d + "\n")
		}
		body = "(" + smtSym(t.op) + " " + strings.Join(args, " ") + ")"
	}
	n := fmt.Sprintf("$d%d", t.id)
	fmt.Fprintf(b, "(define-fun %s () %s %s)\n", n, t.sort, body)
	s.defined[t] = n
	return n
}

func (s *Session) align(c *Ctx, pc *pcNode, b *strings.Builder) {
	var path []*pcNode
	if pc != nil {
		path = make([]*pcNode, pc.n)
		for p := pc; p != nil; p = p.prev {
			path[p.n-1] = p
		}
	}
	k := 0
	for k < len(path) && k < len(s.stack) && path[k] == s.stack[k] {
		k++
	}
	if d := len(s.stack) - k; d > 0 {
		fmt.Fprintf(b, "(pop %d)\n", d)
	}
	s.stack = s.stack[:k]
	for _, p := range path[k:] {
		b.WriteString("(push 1)\n")
		if usable(p.t) {
			r := s.ref(c, p.t, b)
			fmt.Fprintf(b, "(assert %s)\n", r)
		}
		s.stack = append(s.stack, p)
	}
}

func (s *Session) ask(text string) string {
	s.queries++
	// The solver does not always heed its own time limit.
	proc := s.cmd.Process
	limit := time.AfterFunc(10*time.Second, func() { proc.Kill() })
	defer limit.Stop()
	if _, err := io.WriteString(s.in, text+"(check-sat)\n"); err != nil {
		s.restart()
		return "unknown"
	}
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			s.restart()
			return "unknown"
		}
		line = strings.TrimSpace(line)
		switch line {
		case "sat", "unsat", "unknown", "timeout":
			return line
		}
		if strings.HasPrefix(line, "(error") {
			if os.Getenv("GVC_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "prune session:", line)
			}
			if !strings.Contains(line, "canceled") {
				s.dead = true
				s.cmd.Process.Kill()
				return "unknown"
			}
		}
	}
}

// Feasible reports false only if the path condition is unsatisfiable.
func (s *Session) Feasible(c *Ctx, pc *pcNode) bool {
	if s == nil || s.dead || pc == nil {
		return true
	}
	if r, ok := s.cache[pc]; ok {
		return r
	}
	var b strings.Builder
	s.align(c, pc, &b)
	r := s.ask(b.String()) != "unsat"
	s.cache[pc] = r
	return r
}

// Implied reports true only if the path condition implies g.
func (s *Session) Implied(c *Ctx, pc *pcNode, g *Term) bool {
	if s == nil || s.dead || !usable(g) {
		return false
	}
	var b strings.Builder
	s.align(c, pc, &b)
	r := s.ref(c, c.Not(g), &b)
	fmt.Fprintf(&b, "(push 1)\n(assert %s)\n", r)
	s.restarted = false
	ans := s.ask(b.String())
	if s.dead || s.restarted {
		return false
	}
	io.WriteString(s.in, "(pop 1)\n")
	return ans == "unsat"
}

// Obligation solving ----------------------------------------------------------

type solverCfg struct {
	name string
	args func(sec float64) []string
	pre  string
}

var solvers = []solverCfg{
	{"z3-5.3.2", func(s float64) []string {
		return []string{"z3-new", "-smt2", "-in", fmt.Sprintf("-t:%d", int(s*1000)), "-memory:3000"}
	}, ""},
	{"cvc5-1.1.2", func(s float64) []string {
		return []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", int(s*1000)), "--strings-exp", "-"}
	}, ""},
	{"z3-4.8.12", func(s float64) []string {
		return []string{"z3", "-smt2", "-in", fmt.Sprintf("-t:%d", int(s*1000)), "-memory:3000"}
	}, ""},
	{"z3-5.3.2 (no mbqi)", func(s float64) []string {
		return []string{"z3-new", "-smt2", "-in", fmt.Sprintf("-t:%d", int(s*1000)), "-memory:3000", "smt.mbqi=false", "smt.random_seed=7"}
	}, ""},
	{"cvc5-1.1.2 (enum-inst)", func(s float64) []string {
		return []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", int(s*1000)), "--strings-exp", "--enum-inst", "-"}
	}, ""},
}

var solverMs [8]int64

func runSolver(ctx context.Context, idx int, script string, sec float64) (string, string) {
	cfg := solvers[idx]
	a := cfg.args(sec)
	ctx, cancel := context.WithTimeout(ctx, time.Duration((sec+1)*float64(time.Second)))
	defer cancel()
	cmd := exec.CommandContext(ctx, a[0], a[1:]...)
	cmd.Stdin = strings.NewReader(script)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	cmd.Run()
	atomic.AddInt64(&solverMs[idx], time.Since(t0).Milliseconds())
	o := out.String()
	for _, l := range strings.Split(o, "\n") {
		switch strings.TrimSpace(l) {
		case "unsat":
			return "unsat", o
		case "sat":
			return "sat", o
		case "unknown", "timeout":
			return "unknown", o
		}
	}
	return "error", o
}

// check decides one script with the portfolio.
func check(script, light string, quick, full float64) (status, solver, out string) {
	s := script + "(check-sat)\n"
	st, o := runSolver(context.Background(), 0, s, quick)
	if st == "unsat" || st == "sat" {
		return st, solvers[0].name, o
	}
	firstErr := ""
	if st == "error" {
		firstErr = o
	}
	// with fewer hypotheses, which is sound when it succeeds
	if light != "" && light != script {
		if st, o := runSolver(context.Background(), 0, light+"(check-sat)\n", quick); st == "unsat" {
			return st, solvers[0].name, o
		}
	}
	if full <= 0 {
		return "unknown", solvers[0].name, firstErr
	}
	type res struct{ st, name, out string }
	run := func(idx []int, sec float64) (res, bool) {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		ch := make(chan res, len(idx))
		for _, i := range idx {
			i := i
			go func() {
				sc := s
				if strings.HasPrefix(solvers[i].name, "cvc5") {
					sc = strings.Replace(sc, "(set-logic ALL)\n", "(set-option :produce-models true)\n(set-logic ALL)\n", 1)
				}
				st, o := runSolver(ctx, i, sc, sec)
				ch <- res{st, solvers[i].name, o}
			}()
		}
		best := res{"unknown", "", firstErr}
		for range idx {
			r := <-ch
			if r.st == "unsat" || r.st == "sat" {
				return r, true
			}
			if r.st == "error" && best.out == "" {
				best.out = r.out
			}
		}
		return best, false
	}
	r, ok := run([]int{1, 3, 2}, full/3)
	if ok {
		return r.st, r.name, r.out
	}
	r2, ok := run([]int{0, 1, 3, 4}, full)
	if ok {
		return r2.st, r2.name, r2.out
	}
	return "unknown", "portfolio", r.out
}

// failedObls counts the obligations that have failed in this run.
var failedObls int64

// solveObls decides obligations in parallel.
func (v *Verifier) solveObls(obls []*Obl, quick, full float64, workers int, stopOnFail func(o *Obl) bool) {
	type job struct {
		o      *Obl
		script string
		light  string
	}
	// identical obligations are decided once
	byScript := map[string][]*Obl{}
	var jobs []job
	for _, o := range obls {
		if o.Status != "" {
			continue
		}
		sc := v.c.Script(append(append([]*Term{}, o.Hyps...), v.c.Not(o.Goal)), nil)
		if _, ok := byScript[sc]; !ok {
			jobs = append(jobs, job{o, sc, v.c.Script(append(lightHyps(o.Hyps), v.c.Not(o.Goal)), nil)})
		}
		byScript[sc] = append(byScript[sc], o)
	}
	ch := make(chan job)
	var wg sync.WaitGroup
	var mu sync.Mutex
	stopped := map[*Cand]bool{}
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				if j.o.Cand != nil {
					mu.Lock()
					d := stopped[j.o.Cand]
					mu.Unlock()
					if d {
						continue
					}
				}
				f := full
				if j.o.Timeout > 0 && full > 0 {
					f = float64(j.o.Timeout) / 1000
				}
				// once some obligations have failed the verdict is known, and
				// the others get less time
				if n := atomic.LoadInt64(&failedObls); f > 0 && j.o.Cand == nil {
					switch {
					case n >= 8:
						f = 0
					case n >= 3 && f > 9:
						f = 9
					}
				}
				t0 := time.Now()
				st, name, out := check(j.script, j.light, quick, f)
				if st != "unsat" && j.o.Cand == nil {
					atomic.AddInt64(&failedObls, 1)
				}
				ms := time.Since(t0).Milliseconds()
				mu.Lock()
				for _, o := range byScript[j.script] {
					o.Ms, o.Solver = ms, name
					switch st {
					case "unsat":
						o.Status = "proved"
					case "sat":
						o.Status = "failed"
						o.Detail = "the solver found a state in which the obligation does not hold"
					default:
						o.Status = "unknown"
						o.Detail = firstLines(out, 3)
					}
					if o.Status != "proved" && o.Cand != nil {
						stopped[o.Cand] = true
					}
				}
				mu.Unlock()
			}
		}()
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()
}

// lightHyps leaves out the hypotheses with large quantified formulas.
func lightHyps(hyps []*Term) []*Term {
	var r []*Term
	for _, h := range hyps {
		if h.quant {
			if h.op != "forall" || h.args[0].quant || termSize(h, 60) >= 60 {
				continue
			}
		}
		r = append(r, h)
	}
	return r
}

// termSize counts the nodes of a term, up to max.
func termSize(t *Term, max int) int {
	n := 1
	for _, a := range t.args {
		if n >= max {
			return n
		}
		n += termSize(a, max-n)
	}
	return n
}

func firstLines(s string, n int) string {
	ls := strings.Split(strings.TrimSpace(s), "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, " | ")
}

// getModel asks for the values of the inputs in a failing state.
func (v *Verifier) getModel(o *Obl) {
	if len(o.Inputs) == 0 {
		return
	}
	var want []*Term
	for _, in := range o.Inputs {
		want = append(want, in.T)
	}
	sc := v.c.Script(append(append([]*Term{}, o.Hyps...), v.c.Not(o.Goal)), want)
	var b strings.Builder
	b.WriteString("(set-option :model.completion true)\n")
	b.WriteString(sc)
	b.WriteString("(check-sat)\n(get-value (")
	for _, w := range want {
		b.WriteString(v.c.Show(w) + " ")
	}
	b.WriteString("))\n")
	_, out := runSolver(context.Background(), 0, b.String(), 10)
	o.Model = map[string]string{}
	i := strings.Index(out, "((")
	if i < 0 {
		return
	}
	out = out[i+1:]
	for _, in := range o.Inputs {
		n := v.c.Show(in.T)
		k := strings.Index(out, "("+n+" ")
		if k < 0 {
			continue
		}
		rest := out[k+len(n)+2:]
		depth := 0
		inStr := false
		for j := 0; j < len(rest); j++ {
			ch := rest[j]
			if ch == '"' {
				inStr = !inStr
			}
			if inStr {
				continue
			}
			if ch == '(' {
				depth++
			}
			if ch == ')' {
				if depth == 0 {
					o.Model[in.Name] = rest[:j]
					break
				}
				depth--
			}
		}
	}
}
