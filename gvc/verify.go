package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// FuncResult is the outcome of the verification of one contract.
type FuncResult struct {
	Key       string
	Contract  *Contract
	Missing   bool
	Unsup     string
	SpecErr   string
	Obls      []*Obl
	Trivial   int
	Rounds    int
	Paths     int
	Ms        int64
	DeadCands []*Cand
	LiveCands int
	Vacuous   string
	Trusted   bool
	CandObls  int
}

func (r *FuncResult) OK() bool {
	if r.Missing || r.Trusted {
		return true
	}
	if r.Unsup != "" || r.SpecErr != "" || r.Vacuous != "" {
		return false
	}
	for _, o := range r.Obls {
		if o.Status != "proved" {
			return false
		}
	}
	return true
}

type globState struct{}

// constGlobal gives the value of globals that never change after package
// initialisation.
func (ex *Exec) constGlobal(st *State, p PtrV) (Val, bool) {
	if ex.inInit {
		return nil, false
	}
	g := ex.v.prog.global(p.Glob)
	if g == nil {
		if !strings.HasPrefix(p.Glob, repoModule) && typeKey(p.Elem) == "error" && p.Path == "" {
			// error values of the libraries: constant, not nil, made before the call
			c := ex.c
			ex.v.modelsUsed["error variables of other packages are constant and not nil"] = true
			v := IfaceV{Tag: c.Const(sanitize("const$"+p.Glob+".tag"), sInt), Pay: c.Const(sanitize("const$"+p.Glob+".pay"), sBox)}
			st.assume(c.Not(c.Eq(v.Tag, c.Int(0))))
			st.assume(c.Lt(c.App("newerr$ref", sInt, v.Pay), ex.entryAlloc()))
			return v, true
		}
		return nil, false
	}
	if !ex.v.prog.onlyInitWrites(g) {
		return nil, false
	}
	if v, ok := ex.globalInitVal(st, g, p); ok {
		return v, true
	}
	var ts []*Term
	for _, l := range leaves(p.Elem) {
		ts = append(ts, ex.c.Const(sanitize("const$"+p.Glob+p.Path+l.Path), l.Sort))
	}
	v := ex.unpack(ts, p.Elem)
	if mt, ok := p.Elem.Underlying().(*types.Map); ok && p.Path == "" && !ex.specMode {
		ex.constMapFacts(st, g, mt, v.(*Term))
	}
	if !ex.specMode {
		for _, f := range ex.facts(v, p.Elem, ex.entryAlloc()) {
			st.assume(f)
		}
		if isIface(p.Elem) && ex.v.prog.initNonNil(g) {
			st.assume(ex.c.Not(ex.c.Eq(v.(IfaceV).Tag, ex.c.Int(0))))
			// an error made by package initialisation is none of the later ones
			st.assume(ex.c.Lt(ex.c.App("newerr$ref", sInt, v.(IfaceV).Pay), ex.entryAlloc()))
		}
		if _, ok := p.Elem.Underlying().(*types.Pointer); ok && ex.v.prog.initNonNil(g) {
			st.assume(ex.c.Not(ex.c.Eq(ex.ptrTerm(v), ex.c.Int(0))))
		}
	}
	return v, true
}

func (p *Program) global(name string) *ssa.Global {
	i := strings.LastIndexByte(name, '.')
	pk := p.Pkgs[name[:i]]
	if pk == nil {
		return nil
	}
	g, _ := pk.Members[name[i+1:]].(*ssa.Global)
	return g
}

// onlyInitWrites: the global is only assigned by package initialisation and
// its address is not taken elsewhere.
func (p *Program) onlyInitWrites(g *ssa.Global) bool {
	if p.writes == nil {
		p.writes = map[*ssa.Global]int{}
		for _, fn := range p.Funcs {
			isInit := fn.Synthetic == "package initializer"
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if _, ok := in.(*ssa.DebugRef); ok {
						continue
					}
					for _, op := range in.Operands(nil) {
						gl, ok := (*op).(*ssa.Global)
						if !ok {
							continue
						}
						switch x := in.(type) {
						case *ssa.UnOp:
							continue
						case *ssa.Store:
							if x.Addr == ssa.Value(gl) && x.Val != ssa.Value(gl) && isInit {
								continue
							}
						case *ssa.FieldAddr, *ssa.IndexAddr:
							if isInit || onlyLoaded(in.(ssa.Value)) {
								continue
							}
						}
						p.writes[gl]++
					}
				}
			}
		}
	}
	return p.writes[g] == 0
}

func onlyLoaded(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			if !onlyLoaded(x) {
				return false
			}
		case *ssa.IndexAddr:
			if !onlyLoaded(x) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// initStore finds the single store of the initial value of g.
func (p *Program) initStore(g *ssa.Global) *ssa.Store {
	fn := g.Pkg.Func("init")
	if fn == nil {
		return nil
	}
	var found *ssa.Store
	n := 0
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(g) {
				found = s
				n++
			}
		}
	}
	if n != 1 {
		return nil
	}
	return found
}

var nonNilMakers = map[string]bool{"errors.New": true, "fmt.Errorf": true, "golang.org/x/xerrors.New": true, "golang.org/x/xerrors.Errorf": true,
	"regexp.MustCompile": true}

func (p *Program) initNonNil(g *ssa.Global) bool {
	s := p.initStore(g)
	if s == nil {
		return false
	}
	switch x := s.Val.(type) {
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil {
			return nonNilMakers[f.String()]
		}
	case *ssa.MakeInterface, *ssa.Alloc, *ssa.MakeMap:
		return true
	}
	return false
}

// globalInitVal evaluates constant initialisers.
func (ex *Exec) globalInitVal(st *State, g *ssa.Global, p PtrV) (Val, bool) {
	if p.Path != "" {
		return nil, false
	}
	s := ex.v.prog.initStore(g)
	if s == nil {
		// never assigned: zero value, unless filled in by element
		fn := g.Pkg.Func("init")
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op == ssa.Value(g) {
						return nil, false
					}
				}
			}
		}
		if _, isPtr := p.Elem.Underlying().(*types.Struct); isPtr {
			return nil, false
		}
		return ex.zero(p.Elem), true
	}
	switch x := s.Val.(type) {
	case *ssa.Const:
		return ex.constVal(x), true
	case *ssa.Convert:
		if cst, ok := x.X.(*ssa.Const); ok {
			if _, isB := p.Elem.Underlying().(*types.Basic); isB {
				return ex.convert(nil, st, ex.constVal(cst), cst.Type(), x.Type()), true
			}
		}
	case *ssa.Function:
		return FuncV{Fn: x, Name: x.String()}, true
	case *ssa.MakeInterface:
		if cst, ok := x.X.(*ssa.Const); ok {
			return ex.makeIface(st, ex.constVal(cst), x.X.Type()), true
		}
	}
	return nil, false
}

// rootPanic is reached when a panic leaves the function under verification.
func (ex *Exec) rootPanic(st *State, why string) {
	if ex.suppress > 0 {
		return
	}
	ex.panics++
	ct := ex.root
	if ct == nil {
		ex.oblige(st, "no panic", why, ex.c.False(), "")
		return
	}
	env := ex.entryEnv()
	env.sink = st
	if !ct.AnyPanic {
		var ts []*Term
		for _, cl := range ct.PanicsIff {
			ts = append(ts, env.boolOf(cl.E))
		}
		for _, cl := range ct.MayPanic {
			ts = append(ts, env.boolOf(cl.E))
		}
		ex.obligeSplit(st, "no panic", why, ex.c.Or(ts...), "")
	}
	post := ex.exitEnv(st)
	for i, cl := range ct.OnPanic {
		ex.obligeSplit(st, "condition on panic", labelOr(cl, i), post.boolOf(cl.E), "")
	}
	ex.frameCheck(st, "frame on panic")
	ex.exitPCs = append(ex.exitPCs, st.hyps())
}

func (ex *Exec) entryEnv() *specEnv {
	e := &specEnv{ex: ex, st: ex.entry, old: ex.entry, vars: map[string]TV{}, pkg: ex.root.Pkg}
	for k, v := range ex.rootVars {
		e.vars[k] = v
	}
	for k, v := range ex.lets {
		e.vars[k] = v
	}
	return e
}

func (ex *Exec) exitEnv(st *State) *specEnv {
	e := ex.entryEnv()
	e.st = st
	e.old = ex.entry
	return e
}

func (ex *Exec) obligeSplit(st *State, kind, label string, g *Term, pos string) {
	if g.op == "and" {
		for _, a := range g.args {
			ex.obligeSplit(st, kind, label, a, pos)
		}
		return
	}
	if g.op == "=>" && g.args[1].op == "and" {
		for _, a := range g.args[1].args {
			ex.obligeSplit(st, kind, label, ex.c.Implies(g.args[0], a), pos)
		}
		return
	}
	ex.oblige(st, kind, label, g, pos)
}

// frameCheck: memory that existed at entry is unchanged, except for what the
// contract lists.
func (ex *Exec) frameCheck(st *State, kind string) {
	c, ct := ex.c, ex.root
	if ct.ModAll {
		for _, n := range sortedKeys(st.heap) {
			if strings.HasPrefix(n, "L:") {
				ex.oblige(st, "locks released", n, ex.lockSame(st, n), "")
			}
		}
		return
	}
	if st.epoch != ex.entry.epoch {
		ex.oblige(st, kind, "an unknown function may change any memory", c.False(), "")
		return
	}
	targets := map[string][]*Term{}
	whole := map[string]bool{}
	env := ex.entryEnv()
	env.sink = st
	for _, m := range ex.modTargets(env, ct) {
		if m.idx == nil {
			whole[m.heap] = true
		} else {
			targets[m.heap] = append(targets[m.heap], m.idx)
		}
	}
	for _, n := range sortedKeys(st.heap) {
		now := st.heap[n]
		before := ex.entry.get(n, now.sort)
		if now == before || whole[n] || strings.HasPrefix(n, "iter$") || strings.HasPrefix(n, "iterkey$") {
			continue
		}
		if strings.HasPrefix(n, "ghost$") {
			ex.oblige(st, kind, "ghost "+n[6:]+" unchanged", c.Eq(now, before), "")
			continue
		}
		switch n[:2] {
		case "G:":
			ex.oblige(st, kind, "global "+n[2:]+" unchanged", c.Eq(now, before), "")
		case "L:":
			ex.oblige(st, "locks released", n[2:], ex.lockSame(st, n), "")
		default:
			r := c.Const("frame$ref", sInt)
			pre := []*Term{c.Lt(c.Int(0), r), c.Lt(r, ex.entryAlloc())}
			for _, t := range targets[n] {
				pre = append(pre, c.Not(c.Eq(r, t)))
			}
			g := c.Implies(c.And(pre...), c.Eq(c.Select(now, r), c.Select(before, r)))
			if onlyNew(now, before, targets[n], ex.entryAlloc(), c) {
				ex.trivial++
				continue
			}
			ex.oblige(st, kind, n[2:]+" unchanged", g, "")
		}
	}
}

func (ex *Exec) lockSame(st *State, n string) *Term {
	c := ex.c
	now := st.heap[n]
	before := ex.entry.get(n, now.sort)
	if now.sort == sInt {
		return c.Eq(now, before)
	}
	var cs []*Term
	x := now
	for ; x.op == "store"; x = x.args[0] {
		cs = append(cs, c.Eq(c.Select(now, x.args[1]), c.Select(before, x.args[1])))
	}
	if x != before {
		return c.Eq(now, before)
	}
	return c.And(cs...)
}

// onlyNew: all stores on top of before are at fresh objects or listed targets.
func onlyNew(now, before *Term, targets []*Term, alloc *Term, c *Ctx) bool {
	for x := now; ; x = x.args[0] {
		if x == before {
			return true
		}
		if x.op != "store" {
			return false
		}
		idx := x.args[1]
		ok := false
		for _, t := range targets {
			if t == idx {
				ok = true
			}
		}
		if idx == alloc || idx.op == "+" && idx.args[0] == alloc && idx.args[1].op == "int" && idx.args[1].ival.Sign() >= 0 {
			ok = true
		}
		if !ok {
			return false
		}
	}
}

// exitCheck discharges the postcondition at a normal return.
func (ex *Exec) exitCheck(st *State, res []Val) {
	if ex.suppress > 0 {
		return
	}
	ex.exits++
	ct := ex.root
	env := ex.entryEnv()
	env.sink = st
	for i, cl := range ct.PanicsIff {
		ex.obligeSplit(st, "panics when required", labelOr(cl, i), ex.c.Not(env.boolOf(cl.E)), "")
	}
	post := ex.exitEnv(st)
	rs := ex.rootFn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		post.bindResult(i, rs.Len(), rs.At(i).Name(), ct, TV{V: res[i], T: rs.At(i).Type()})
	}
	for _, g := range ct.GhostSet {
		if ct.ownGhost(g) {
			post.assignGhost(g)
		}
	}
	for i, cl := range ct.Ensures {
		ex.obligeSplit(st, "postcondition", labelOr(cl, i), post.boolOf(cl.E), "")
	}
	ex.frameCheck(st, "frame")
	ex.exitPCs = append(ex.exitPCs, st.hyps())
}

func (v *Verifier) newExec(ct *Contract, fn *ssa.Function) *Exec {
	ex := &Exec{v: v, c: v.c, root: ct, rootFn: fn, maxPaths: 6000, reached: map[string]bool{}, lets: map[string]TV{}, rootVars: map[string]TV{}}
	return ex
}

// axioms asserts the axioms of the contract files.
func (ex *Exec) assumeAxioms(st *State) {
	for _, a := range ex.v.spec.Axioms {
		if !ex.v.axiomRelevant(a, ex.rootFn) {
			continue
		}
		env := &specEnv{ex: ex, st: st, old: st, vars: map[string]TV{}, pkg: a.Pkg}
		t := env.boolOf(a.E)
		parts := []*Term{t}
		if t.op == "and" {
			parts = t.args
		}
		for _, p := range parts {
			if p.op == "forall" {
				ex.c.gated[p] = true
			}
			st.assume(p)
		}
		ex.v.trustUsed["axiom "+a.Name] = true
	}
}

func (v *Verifier) axiomRelevant(a AxiomDef, fn *ssa.Function) bool {
	return fn == nil || fn.Pkg == nil || a.Pkg == fn.Pkg.Pkg.Path()
}

// run executes the function once with the current candidate invariants.
func (ex *Exec) run() (err error) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsupported:
				pos := ""
				if ex.curInstr != nil {
					pos = " (near " + ex.pos(ex.curInstr.Pos()) + ")"
				}
				err = fmt.Errorf("outside the verifier's reach: %s%s", x.msg, pos)
			case specErr:
				err = fmt.Errorf("specification: %s", x.msg)
			default:
				panic(r)
			}
		}
	}()
	c := ex.c
	fn, ct := ex.rootFn, ex.root
	st := &State{ex: ex, heap: map[string]*Term{}, alloc: ex.entryAlloc()}
	ex.entry = st
	st.assume(c.Le(c.Int(1), st.alloc))
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, names: map[string]TV{}, loops: map[*ssa.BasicBlock]*loopAct{}}
	for i, p := range fn.Params {
		name := p.Name()
		if i < len(ct.Params) {
			name = ct.Params[i]
		}
		var ts []*Term
		for _, l := range leaves(p.Type()) {
			t := c.Const(sanitize("in$"+name+l.Path), l.Sort)
			ts = append(ts, t)
			ex.inputs = append(ex.inputs, namedTerm{name + l.Path, t})
		}
		v := ex.unpack(ts, p.Type())
		for _, f := range ex.facts(v, p.Type(), st.alloc) {
			st.assume(f)
		}
		fr.env[p] = v
		fr.names[p.Name()] = TV{V: v, T: p.Type()}
		ex.rootVars[name] = TV{V: v, T: p.Type()}
	}
	ex.rootFrame = fr
	// captured variables: distinct allocated objects
	var caps []*Term
	for _, fv := range fn.FreeVars {
		pt, ok := fv.Type().Underlying().(*types.Pointer)
		if !ok {
			unsup("captured value %s", fv.Name())
		}
		t := c.Const(sanitize("cap$"+fv.Name()), sInt)
		st.assume(c.Lt(c.Int(0), t))
		st.assume(c.Lt(t, st.alloc))
		for _, o := range caps {
			st.assume(c.Not(c.Eq(o, t)))
		}
		caps = append(caps, t)
		v := ex.unpack([]*Term{t}, fv.Type())
		_ = pt
		fr.env[fv] = v
		fr.names[fv.Name()] = TV{V: v, T: fv.Type(), Addr: true}
		ex.rootVars[fv.Name()] = TV{V: v, T: fv.Type(), Addr: true}
	}
	ex.assumeAxioms(st)
	env := &specEnv{ex: ex, st: st, old: st, vars: ex.rootVars, pkg: ct.Pkg}
	for _, l := range ct.Lets {
		tv := env.eval(l.E)
		ex.lets[l.Name] = tv
		ex.rootVars[l.Name] = tv
	}
	for _, cl := range ct.Requires {
		st.assume(env.boolOf(cl.E))
	}
	// the state that old() refers to must not see later changes
	work := st.clone()
	ex.entry = st
	fr.k = func(s *State, res []Val) { ex.exitCheck(s, res) }
	ex.preHyps = st.hyps()
	ex.runBlock(fr, work, fn.Blocks[0], nil)
	return nil
}

type verifyOpts struct {
	workers     int
	full        float64
	quick       float64
	verbose     bool
	candTimeout float64
	userTimeout float64
}

// VerifyFunc verifies one function against its contract.
func (v *Verifier) VerifyFunc(ct *Contract, o verifyOpts) *FuncResult {
	t0 := time.Now()
	r := &FuncResult{Key: ct.Key, Contract: ct}
	defer func() { r.Ms = time.Since(t0).Milliseconds() }()
	fn := v.prog.Funcs[ct.Key]
	if fn == nil || fn.Blocks == nil {
		r.Missing = true
		return r
	}
	if ct.Trusted != "" {
		r.Trusted = true
		v.trustUsed[ct.Key] = true
		return r
	}
	solved := map[string]string{} // scripts of earlier rounds
	_ = solved
	for round := 1; ; round++ {
		r.Rounds = round
		if round > 25 {
			r.Unsup = "loop invariant inference does not converge"
			return r
		}
		ex := v.newExec(ct, fn)
		v.prune = NewSession()
		err := ex.run()
		v.prune.Close()
		r.Paths = ex.paths
		if err != nil {
			if strings.HasPrefix(err.Error(), "specification") {
				r.SpecErr = err.Error()
			} else {
				r.Unsup = err.Error()
			}
			return r
		}
		var cand, main []*Obl
		for _, ob := range ex.obls {
			if ob.Cand != nil {
				cand = append(cand, ob)
			} else {
				main = append(main, ob)
			}
		}
		r.CandObls = len(cand)
		// template candidates first, with a short limit
		var tmpl, user []*Obl
		for _, ob := range cand {
			if ob.Cand.user {
				user = append(user, ob)
			} else {
				tmpl = append(tmpl, ob)
			}
		}
		v.solveObls(tmpl, o.candTimeout, 0, o.workers, nil)
		dropped := dropCands(tmpl)
		if dropped == 0 || round > 12 {
			v.solveObls(user, o.quick, o.userTimeout, o.workers, nil)
			dropped += dropCands(user)
		}
		if o.verbose {
			fmt.Printf("  %s: round %d: %d obligations, %d candidate obligations, %d dropped, %d paths, %.1fs\n", shortFn(ct.Key), round, len(main), len(cand), dropped, ex.paths, time.Since(t0).Seconds())
		}
		if dropped > 0 {
			continue
		}
		for site, cs := range v.cands {
			if !strings.HasPrefix(site, fn.String()+"|") {
				continue
			}
			for _, cd := range cs {
				if cd.dead {
					if cd.user {
						r.DeadCands = append(r.DeadCands, cd)
					}
				} else {
					r.LiveCands++
				}
			}
		}
		sort.Slice(r.DeadCands, func(i, j int) bool { return r.DeadCands[i].desc < r.DeadCands[j].desc })
		v.solveObls(main, o.quick, o.full, o.workers, nil)
		for _, ob := range main {
			if ob.Status == "failed" {
				v.getModel(ob)
			}
		}
		r.Obls = append(main, cand...)
		r.Trivial = ex.trivial
		r.Vacuous = v.vacuity(ex)
		return r
	}
}

var dumpDir string

func dropCands(obls []*Obl) int {
	n := 0
	for _, ob := range obls {
		if ob.Status != "proved" && ob.Status != "" && !ob.Cand.dead {
			ob.Cand.dead = true
			if dumpDir != "" {
				fmt.Printf("    candidate dropped: %s (%s: %s)\n", ob.Cand.desc, ob.Kind, ob.Status)
			}
			if dumpDir != "" && ob.Cand.user {
				os.MkdirAll(dumpDir, 0o755)
				os.WriteFile(filepath.Join(dumpDir, fmt.Sprintf("cand%d.smt2", ob.Goal.id)), []byte("; "+ob.Cand.desc+"\n"+ob.ctx.Script(append(append([]*Term{}, ob.Hyps...), ob.ctx.Not(ob.Goal)), nil)+"(check-sat)\n"), 0o644)
			}
			ob.Cand.why = ob.Kind + ": " + ob.Status
			n++
		}
	}
	return n
}

// vacuity reports preconditions that no state satisfies, or a function that
// has no reachable exit.
func (v *Verifier) vacuity(ex *Exec) string {
	st, _, _ := check(v.c.Script(ex.preHyps, nil), "", 1, 0)
	if st == "unsat" {
		return "the precondition is unsatisfiable"
	}
	if len(ex.exitPCs) == 0 {
		return "no exit of the function is reachable"
	}
	// prefer the shortest path conditions
	sort.SliceStable(ex.exitPCs, func(i, j int) bool { return len(ex.exitPCs[i]) < len(ex.exitPCs[j]) })
	for i, pc := range ex.exitPCs {
		if i >= 20 {
			break
		}
		st, _, _ := check(v.c.Script(pc, nil), "", 1, 0)
		if st != "unsat" {
			return ""
		}
	}
	return "every exit of the function has a contradictory path condition"
}

// VerifyLemma checks a lemma over the contracts' logic.
func (v *Verifier) VerifyLemma(l Lemma, o verifyOpts) *FuncResult {
	t0 := time.Now()
	ct := &Contract{Key: "lemma " + l.Name, Pkg: l.Pkg, Loops: map[int]*LoopSpec{}}
	r := &FuncResult{Key: "lemma " + l.Name, Contract: ct}
	defer func() { r.Ms = time.Since(t0).Milliseconds() }()
	var anyFn *ssa.Function
	for _, k := range sortedKeys(v.prog.Funcs) {
		f := v.prog.Funcs[k]
		if f.Pkg != nil && f.Pkg.Pkg.Path() == l.Pkg {
			anyFn = f
			break
		}
	}
	if anyFn == nil {
		r.Missing = true
		return r
	}
	ex := v.newExec(ct, anyFn)
	v.prune = NewSession()
	defer v.prune.Close()
	func() {
		defer func() {
			if rec := recover(); rec != nil {
				switch x := rec.(type) {
				case unsupported:
					r.Unsup = x.msg
				case specErr:
					r.SpecErr = x.msg
				default:
					panic(rec)
				}
			}
		}()
		st := &State{ex: ex, heap: map[string]*Term{}, alloc: ex.entryAlloc()}
		st.assume(v.c.Le(v.c.Int(1), st.alloc))
		ex.entry = st
		ex.assumeAxioms(st)
		env := &specEnv{ex: ex, st: st, old: st, vars: map[string]TV{}, pkg: l.Pkg}
		ex.proveExpr(env, st, l.E, l.Name)
	}()
	for _, ob := range ex.obls {
		ob.Fn = "lemma " + l.Name
		ob.Kind = "lemma"
	}
	v.solveObls(ex.obls, o.quick, o.full, o.workers, nil)
	for _, ob := range ex.obls {
		if ob.Status == "failed" {
			v.getModel(ob)
		}
	}
	r.Obls = ex.obls
	r.Trivial = ex.trivial
	return r
}

// proveExpr strips quantifiers, implications and conjunctions of a goal.
func (ex *Exec) proveExpr(env *specEnv, st *State, e *Expr, label string) {
	switch {
	case e.Op == "paren":
		ex.proveExpr(env, st, e.Args[0], label)
	case e.Op == "forall":
		n := env.clone()
		n.st, n.old = st, st
		for _, d := range e.Vars {
			t := env.resolveType(e, d.Type)
			var ts []*Term
			for _, l := range leaves(t) {
				x := ex.c.Fresh("v$"+d.Name+l.Path, l.Sort)
				ts = append(ts, x)
				ex.inputs = append(ex.inputs, namedTerm{d.Name + l.Path, x})
			}
			v := ex.unpack(ts, t)
			if d.Type != "int" {
				for _, f := range ex.facts(v, t, st.alloc) {
					st.assume(f)
				}
			}
			n.vars[d.Name] = TV{V: v, T: t}
		}
		ex.proveExpr(n, st, e.Args[0], label)
	case e.Op == "let":
		n := env.clone()
		n.vars[e.Name] = env.eval(e.Args[0])
		ex.proveExpr(n, st, e.Args[1], label)
	case e.Op == "binop" && e.Name == "==>":
		s := st.clone()
		n := env.clone()
		n.st, n.old = s, s
		s.assume(n.boolOf(e.Args[0]))
		ex.proveExpr(n, s, e.Args[1], label)
	case e.Op == "binop" && e.Name == "&&":
		ex.proveExpr(env, st, e.Args[0], label)
		ex.proveExpr(env, st, e.Args[1], label)
	default:
		ex.obligeSplit(st, "lemma", label, env.boolOf(e), "")
	}
}

// constMapFacts gives the contents of a global map that is filled by package
// initialisation and only looked up afterwards.
func (ex *Exec) constMapFacts(st *State, g *ssa.Global, mt *types.Map, m *Term) {
	store := ex.v.prog.initStore(g)
	if store == nil {
		return
	}
	mk, ok := store.Val.(*ssa.MakeMap)
	if !ok {
		return
	}
	for _, fn := range ex.v.prog.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ld, ok := in.(*ssa.UnOp)
				if !ok || ld.X != ssa.Value(g) {
					continue
				}
				for _, r := range *ld.Referrers() {
					switch x := r.(type) {
					case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
					case *ssa.Call:
						if b, ok := x.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
							return
						}
					default:
						return
					}
				}
			}
		}
	}
	c := ex.c
	save := ex.inInit
	ex.inInit = true
	defer func() { ex.inInit = save }()
	k := c.FreshBVar("k", ex.keySort(mt))
	var keys []*Term
	for _, r := range *mk.Referrers() {
		switch x := r.(type) {
		case *ssa.Store, *ssa.DebugRef:
		case *ssa.MapUpdate:
			kc, ok := x.Key.(*ssa.Const)
			if !ok {
				return
			}
			kt := ex.keyTerm(st, ex.constVal(kc), mt)
			keys = append(keys, kt)
			st.assume(ex.mapHas(st, mt, m, kt))
			if v, ok := ex.initVal(st, x.Value); ok {
				got := ex.pack(ex.mapGetRaw(st, mt, m, kt), mt.Elem())
				for i, t := range ex.pack(v, mt.Elem()) {
					st.assume(c.Eq(got[i], t))
				}
			}
		default:
			return
		}
	}
	var any []*Term
	for _, kt := range keys {
		any = append(any, c.Eq(k, kt))
	}
	h := ex.mapHas(st, mt, m, k)
	st.assume(c.Forall([]*Term{k}, c.Implies(h, c.Or(any...)), []*Term{h}))
	st.assume(c.Not(c.Eq(m, c.Int(0))))
	ex.v.modelsUsed["the contents of "+g.String()+" are those of its initialiser"] = true
}

// initVal evaluates an operand of package initialisation.
func (ex *Exec) initVal(st *State, v ssa.Value) (Val, bool) {
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constVal(x), true
	case *ssa.MakeInterface:
		if w, ok := ex.initVal(st, x.X); ok {
			return ex.makeIface(st, w, x.X.Type()), true
		}
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil || f.String() != "reflect.TypeOf" {
			return nil, false
		}
		w, ok := ex.initVal(st, x.Call.Args[0])
		if !ok {
			return nil, false
		}
		ex.typeOfFacts(st, w.(IfaceV))
		return ex.typeOf(w.(IfaceV)), true
	}
	return nil, false
}

// typeOf is reflect.TypeOf: one description per dynamic type.
func (ex *Exec) typeOf(v IfaceV) Val {
	c := ex.c
	tag := c.Const("rtype$tag", sInt)
	pay := c.App("rtype", sBox, v.Tag)
	return IfaceV{Tag: c.Ite(c.Eq(v.Tag, c.Int(0)), c.Int(0), tag), Pay: c.Ite(c.Eq(v.Tag, c.Int(0)), ex.nilBox(), pay)}
}

func (ex *Exec) typeOfFacts(st *State, v IfaceV) {
	c := ex.c
	if v.Tag.hasBV {
		return
	}
	st.assume(c.Lt(c.Int(0), c.Const("rtype$tag", sInt)))
	st.assume(c.Eq(c.App("rtype$of", sInt, c.App("rtype", sBox, v.Tag)), v.Tag))
}
