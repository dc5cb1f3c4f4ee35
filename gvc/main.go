package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"
)

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(3)
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: gvc verify|ssa|list ...")
	}
	switch os.Args[1] {
	case "ssa":
		p, err := Load("/repo", []string{os.Args[2]}, nil)
		if err != nil {
			fatal("%v", err)
		}
		for _, k := range sortedKeys(p.Funcs) {
			f := p.Funcs[k]
			if f.Blocks == nil || !inRepo(f) {
				continue
			}
			if len(os.Args) > 3 && !strings.Contains(k, os.Args[3]) {
				continue
			}
			fmt.Println("==", k)
			if len(os.Args) > 3 {
				f.WriteTo(os.Stdout)
				for _, l := range findLoops(f) {
					fmt.Printf("loop %d: block %d, %s\n", l.ordinal, l.header.Index, p.Prog.Fset.Position(firstPos(l)))
				}
			}
		}
	case "verify":
		verifyMain(os.Args[2:])
	default:
		fatal("unknown command %s", os.Args[1])
	}
}

type jsonObl struct {
	Function string            `json:"function"`
	Name     string            `json:"name"`
	Pos      string            `json:"pos,omitempty"`
	Status   string            `json:"status"`
	Solver   string            `json:"solver,omitempty"`
	Ms       int64             `json:"ms"`
	Trace    []string          `json:"trace,omitempty"`
	Model    map[string]string `json:"model,omitempty"`
	Detail   string            `json:"detail,omitempty"`
	Goal     string            `json:"goal,omitempty"`
}

type jsonFunc struct {
	Function    string    `json:"function"`
	Status      string    `json:"status"` // verified, failed, missing, trusted, unsupported
	Detail      string    `json:"detail,omitempty"`
	Properties  []string  `json:"properties,omitempty"`
	Obligations int       `json:"obligations"`
	Discharged  int       `json:"discharged"`
	Trivial     int       `json:"trivial"`
	Invariants  int       `json:"invariants"`
	Paths       int       `json:"paths"`
	Ms          int64     `json:"ms"`
	Bounded     bool      `json:"bounded,omitempty"`
	Failed      []jsonObl `json:"failed,omitempty"`
}

type jsonReport struct {
	Property  string           `json:"property"`
	OK        bool             `json:"ok"`
	Functions []jsonFunc       `json:"functions"`
	Trusted   []string         `json:"trusted"`
	Models    []string         `json:"models"`
	Inlined   []string         `json:"inlined"`
	Notes     []string         `json:"notes"`
	SolverMs  map[string]int64 `json:"solver_ms"`
	BySolver  map[string]int   `json:"discharged_by"`
	Obls      int              `json:"obligations"`
	Proved    int              `json:"discharged"`
	Trivial   int              `json:"trivial"`
	WallMs    int64            `json:"wall_ms"`
	Error     string           `json:"error,omitempty"`
}

func verifyMain(args []string) {
	fs := flag.NewFlagSet("verify", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	cdir := fs.String("contracts", "/verif/contracts", "")
	prop := fs.String("property", "", "verify the contracts of this property")
	fnRe := fs.String("func", "", "verify the contracts whose key matches")
	jsonOut := fs.String("json", "", "write a report")
	verbose := fs.Bool("v", false, "")
	full := fs.Float64("timeout", 60, "seconds per obligation")
	workers := fs.Int("j", 8, "")
	quick := fs.Float64("quick", 1.5, "seconds for the first attempt with one solver")
	slow := 0
	dump := fs.String("dump", "", "directory for the SMT scripts of failed obligations")
	overlayDir := fs.String("pb", "", "directory with generated protobuf code")
	fs.Parse(args)
	dumpDir = *dump
	t0 := time.Now()
	rep := &jsonReport{Property: *prop, SolverMs: map[string]int64{}, BySolver: map[string]int{}}
	finish := func() {
		rep.WallMs = time.Since(t0).Milliseconds()
		if *jsonOut != "" {
			b, _ := json.MarshalIndent(rep, "", " ")
			os.WriteFile(*jsonOut, b, 0o644)
		}
		if rep.OK {
			os.Exit(0)
		}
		os.Exit(1)
	}
	spec, err := ReadSpecs(*cdir)
	if err != nil {
		rep.Error = "contracts: " + err.Error()
		fmt.Println(rep.Error)
		finish()
	}
	ov := map[string][]byte{}
	if *overlayDir != "" {
		filepath.Walk(*overlayDir, func(p string, fi os.FileInfo, err error) error {
			if err == nil && strings.HasSuffix(p, ".pb.go") {
				rel, _ := filepath.Rel(*overlayDir, p)
				b, _ := os.ReadFile(p)
				ov[filepath.Join(*repo, rel)] = b
			}
			return nil
		})
	}
	// proof clients: Go functions over the real code, kept in /verif
	cl, _ := filepath.Glob(filepath.Join(*cdir, "clients", "*", "*.go"))
	more, _ := filepath.Glob(filepath.Join(*cdir, "clients", "*", "*", "*.go"))
	for _, f := range append(cl, more...) {
		rel, _ := filepath.Rel(filepath.Join(*cdir, "clients"), f)
		b, _ := os.ReadFile(f)
		dst := filepath.Join(*repo, filepath.Dir(rel), "zz_verif_"+filepath.Base(f))
		ov[dst] = b
	}
	if _, err := exec.LookPath("z3-new"); err != nil {
		rep.Error = "z3-new not found"
		finish()
	}
	prog, err := Load(*repo, []string{"./..."}, ov)
	if err != nil {
		rep.Error = err.Error()
		fmt.Println(rep.Error)
		finish()
	}
	expandClosures(prog, spec)
	v := NewVerifier(prog, spec)
	opts := verifyOpts{workers: *workers, full: *full, quick: *quick, verbose: *verbose, candTimeout: 2, userTimeout: 20}

	var todo []string
	want := map[string]bool{}
	add := func(k string) {
		if !want[k] {
			want[k] = true
			todo = append(todo, k)
		}
	}
	var re *regexp.Regexp
	if *fnRe != "" {
		re = regexp.MustCompile(*fnRe)
	}
	for _, k := range sortedKeys(spec.Contracts) {
		ct := spec.Contracts[k]
		if ct.Kind != "func" || ct.Inline {
			continue
		}
		if re != nil && re.MatchString(shortFn(k)) {
			add(k)
		}
		for _, p := range ct.Props {
			if p == *prop && *prop != "" {
				add(k)
			}
		}
	}
	rep.OK = true
	record := func(r *FuncResult, props []string) {
		jf := jsonFunc{Function: shortFn(r.Key), Properties: props, Trivial: r.Trivial, Invariants: r.LiveCands, Paths: r.Paths, Ms: r.Ms}
		for _, o := range r.Obls {
			jf.Obligations++
			if o.Status == "proved" {
				jf.Discharged++
				rep.BySolver[o.Solver]++
				if o.Ms > 4000 && *verbose {
					fmt.Printf("  slow (%d ms, %s): %s %s\n", o.Ms, o.Solver, o.Name(), o.Pos)
					if *dump != "" {
						os.MkdirAll(*dump, 0o755)
						sc := v.c.Script(append(append([]*Term{}, o.Hyps...), v.c.Not(o.Goal)), nil) + "(check-sat)\n"
						slow++
						os.WriteFile(filepath.Join(*dump, fmt.Sprintf("slow%d.smt2", slow)), []byte(sc), 0o644)
					}
				}
				continue
			}
			g := v.c.Show(o.Goal)
			if len(g) > 1500 {
				g = g[:1500] + "..."
			}
			jf.Failed = append(jf.Failed, jsonObl{Function: shortFn(o.Fn), Name: o.Name(), Pos: o.Pos, Status: o.Status, Solver: o.Solver, Ms: o.Ms, Trace: o.Trace, Model: o.Model, Detail: o.Detail, Goal: g})
			if *dump != "" {
				os.MkdirAll(*dump, 0o755)
				sc := v.c.Script(append(append([]*Term{}, o.Hyps...), v.c.Not(o.Goal)), nil) + "(check-sat)\n"
				os.WriteFile(filepath.Join(*dump, fmt.Sprintf("obl%d_%d.smt2", len(rep.Functions), len(jf.Failed))), []byte(sc), 0o644)
			}
		}
		rep.Obls += jf.Obligations
		rep.Proved += jf.Discharged
		rep.Trivial += jf.Trivial
		switch {
		case r.Missing:
			jf.Status = "missing"
		case r.Trusted:
			jf.Status = "trusted"
			jf.Detail = r.Contract.Trusted
		case r.Unsup != "":
			jf.Status, jf.Detail = "unsupported", r.Unsup
		case r.SpecErr != "":
			jf.Status, jf.Detail = "unsupported", r.SpecErr
		case r.Vacuous != "":
			jf.Status, jf.Detail = "failed", "vacuous: "+r.Vacuous
		case r.OK():
			jf.Status = "verified"
		default:
			jf.Status = "failed"
			for _, cd := range r.DeadCands {
				jf.Detail += fmt.Sprintf("loop invariant not inductive (%s): %s; ", cd.why, cd.desc)
			}
		}
		if !r.OK() {
			rep.OK = false
		}
		rep.Functions = append(rep.Functions, jf)
		fmt.Printf("%-11s %s: %d/%d obligations (+%d trivial), %d ms\n", jf.Status, jf.Function, jf.Discharged, jf.Obligations, jf.Trivial, jf.Ms)
		if jf.Detail != "" && jf.Status != "trusted" {
			fmt.Printf("    %s\n", jf.Detail)
		}
		if *verbose && jf.Status != "failed" {
			for _, cd := range r.DeadCands {
				fmt.Printf("    dropped invariant (%s): %s\n", cd.why, cd.desc)
			}
		}
		for _, f := range jf.Failed {
			fmt.Printf("    FAILED %s at %s: %s %s\n", f.Name, f.Pos, f.Status, f.Detail)
			if *verbose {
				for _, t := range f.Trace {
					fmt.Printf("        %s\n", t)
				}
				fmt.Printf("        goal %s\n", f.Goal)
				for _, k := range sortedKeys(f.Model) {
					fmt.Printf("        %s = %s\n", k, f.Model[k])
				}
			}
		}
	}
	for len(todo) > 0 {
		k := todo[0]
		todo = todo[1:]
		ct := spec.Contracts[k]
		r := v.VerifyFunc(ct, opts)
		if why, bad := prog.Bad[ct.Pkg]; bad {
			r.Missing, r.Unsup = false, "the package does not load: "+why
		}
		record(r, ct.Props)
		if re == nil {
			// the contracts used at call sites carry the proof as well
			for _, k := range sortedKeys(v.called) {
				if spec.Contracts[k] != nil && spec.Contracts[k].Kind == "func" {
					add(k)
				}
			}
		}
	}
	for _, l := range spec.Lemmas {
		use := re != nil && re.MatchString("lemma "+l.Name)
		for _, p := range l.Props {
			if p == *prop && *prop != "" {
				use = true
			}
		}
		if use {
			record(v.VerifyLemma(l, opts), l.Props)
		}
	}
	if len(rep.Functions) == 0 {
		rep.OK = false
		rep.Error = "nothing to verify"
	}
	missingAll := true
	for _, f := range rep.Functions {
		if f.Status != "missing" {
			missingAll = false
		}
	}
	if missingAll {
		rep.OK = false
		rep.Error = "none of the functions under contract exists"
	}
	rep.Trusted = sortedKeys(v.trustUsed)
	rep.Models = sortedKeys(v.modelsUsed)
	rep.Inlined = sortedKeys(v.inlined)
	rep.Notes = sortedKeys(v.notes)
	for i, s := range solvers {
		if solverMs[i] > 0 {
			rep.SolverMs[s.name] = solverMs[i]
		}
	}
	sort.Strings(rep.Trusted)
	fmt.Printf("%d/%d obligations discharged (+%d trivial), %d ms, solver ms %v\n", rep.Proved, rep.Obls, rep.Trivial, time.Since(t0).Milliseconds(), rep.SolverMs)
	if *verbose {
		fmt.Println("trusted:", rep.Trusted)
		fmt.Println("models:", rep.Models)
		for _, n := range rep.Notes {
			fmt.Println("note:", n)
		}
	}
	finish()
}

// expandClosures replaces each contract written for the closures of a function
// by signature ("Parent$[func(int) error]") by one contract per closure.
func expandClosures(prog *Program, spec *Spec) {
	for _, k := range sortedKeys(spec.Contracts) {
		i := strings.Index(k, "$[")
		if i < 0 || !strings.HasSuffix(k, "]") {
			continue
		}
		ct := spec.Contracts[k]
		sig := k[i+2 : len(k)-1]
		n := 0
		for _, name := range sortedKeys(prog.Funcs) {
			if !strings.HasPrefix(name, k[:i]+"$") || strings.Trim(name[i+1:], "0123456789") != "" {
				continue
			}
			if sigKey(prog.Funcs[name].Signature) != sig || spec.Contracts[name] != nil {
				continue
			}
			c := *ct
			c.Key = name
			spec.Contracts[name] = &c
			n++
		}
		if n > 0 {
			delete(spec.Contracts, k)
		}
	}
}
