package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Cand is a candidate loop invariant: it is kept as long as it is inductive.
type Cand struct {
	site, desc string
	dead       bool
	user       bool
	why        string
	gen        func(lc *loopCtx) (*Term, bool)
}

// loopCtx gives candidate invariants access to the loop at its head.
type loopCtx struct {
	ex      *Exec
	fr      *Frame // frame with current values
	st      *State // current state
	preFr   *Frame
	pre     *State // state at loop entry
	loop    *loopInfo
	phiInit []Val
	site    string
}

func (lc *loopCtx) phi(name string) (*ssa.Phi, bool) {
	for _, in := range lc.loop.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if p.Comment == name {
			return p, true
		}
	}
	return nil, false
}

// iterCount is the number of completed iterations for counting loops ($i).
func (lc *loopCtx) iterCount() (Val, bool) {
	c := lc.ex.c
	if p, ok := lc.phi("rangeindex"); ok {
		return c.Add(lc.fr.env[p].(*Term), c.Int(1)), true
	}
	var found *ssa.Phi
	for _, in := range lc.loop.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if b, ok := p.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			continue
		}
		step, start := false, false
		for i, e := range p.Edges {
			if lc.loop.blocks[lc.loop.header.Preds[i]] {
				if bo, ok := e.(*ssa.BinOp); ok && bo.Op == token.ADD && bo.X == ssa.Value(p) {
					if k, ok := bo.Y.(*ssa.Const); ok && k.Int64() == 1 {
						step = true
						continue
					}
				}
				step = false
				break
			} else if k, ok := e.(*ssa.Const); ok && k.Value != nil && k.Int64() == 0 {
				start = true
			}
		}
		if step && start {
			if found != nil {
				return nil, false
			}
			found = p
		}
	}
	if found != nil {
		return lc.fr.env[found], true
	}
	return nil, false
}

func (ex *Exec) site(fr *Frame, li *loopInfo) string {
	return fmt.Sprintf("%s|%s#%d", ex.rootFn.String(), fr.site, li.ordinal)
}

// headCond finds the branch condition of the header, if the header ends in If.
func headCond(li *loopInfo) *ssa.If {
	b := li.header
	if len(b.Instrs) == 0 {
		return nil
	}
	x, _ := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	return x
}

// constCond evaluates the header condition with the given phi values if that
// is possible without side effects and gives a constant.
func (ex *Exec) constCond(fr *Frame, st *State, li *loopInfo) (res *Term) {
	iff := headCond(li)
	if iff == nil {
		return nil
	}
	if li.blocks[li.header.Succs[0]] && li.blocks[li.header.Succs[1]] {
		return nil // not the condition of the loop
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); ok {
				res = nil
				return
			}
			panic(r)
		}
	}()
	f := fr.clone()
	s := st.clone()
	ex.suppress++
	rec := ex.recorders
	ex.recorders = nil
	defer func() { ex.suppress--; ex.recorders = rec }()
	for _, in := range li.header.Instrs {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef, *ssa.If:
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len") {
				f.env[x] = ex.lenOf(s, ex.value(f, s, x.Call.Args[0]), x.Call.Args[0].Type())
				continue
			}
			return nil
		case *ssa.Next, *ssa.Alloc, *ssa.Store, *ssa.MapUpdate, *ssa.Range:
			return nil
		case ssa.Value:
			f.env[x] = ex.eval(f, s, x)
		default:
			return nil
		}
	}
	t := ex.term(f, s, iff.Cond)
	if t.op == "bool" {
		return t
	}
	return nil
}

func (ex *Exec) enterLoop(fr *Frame, st *State, li *loopInfo, prev *ssa.BasicBlock, count int) {
	fr = fr.clone()
	initVals := ex.phiVals(fr, st, li.header, prev)
	preFr := fr.clone()
	ex.setPhis(preFr, li.header, initVals)
	maxUnroll := 0
	if ex.root != nil {
		maxUnroll = ex.root.Unroll
	}
	if t := ex.constCond(preFr, st, li); t != nil || count < maxUnroll && count > 0 {
		ex.setPhis(fr, li.header, initVals)
		fr.loops[li.header] = &loopAct{loop: li, unroll: true, count: count}
		ex.runInstrs(fr, st, li.header, 0)
		return
	}
	if ex.inSpecCall > 0 {
		unsup("loop in a function used in a specification: %s", fr.fn)
	}
	site := ex.site(fr, li)
	lc := &loopCtx{ex: ex, fr: preFr, st: st, preFr: preFr, pre: st.clone(), loop: li, phiInit: initVals, site: site}
	ex.makeCands(lc)

	// Find what the body writes: repeat dry runs until the set is stable.
	havoc := map[string]map[*Term]bool{} // nil index: whole variable
	symHead := 0
	for round := 0; ; round++ {
		if round > 8 {
			unsup("loop write set does not stabilise")
		}
		f, s := ex.havocLoop(fr, lc, havoc, true, &symHead)
		rec := &recorder{writes: map[string]map[*Term]bool{}}
		ex.recorders = append(ex.recorders, rec)
		ex.suppress++
		f.loops[li.header] = &loopAct{loop: li, dry: true, ctx: lc}
		f.k = func(*State, []Val) {}
		allocHead := s.alloc
		func() {
			saveSteps := ex.paths
			defer func() {
				ex.suppress--
				ex.recorders = ex.recorders[:len(ex.recorders)-1]
				ex.paths = saveSteps
			}()
			ex.runInstrs(f, s, li.header, 0)
		}()
		changed := false
		add := func(name string, idx *Term) {
			if havoc[name] == nil {
				havoc[name] = map[*Term]bool{}
			}
			if havoc[name][nil] || havoc[name][idx] {
				return
			}
			havoc[name][idx] = true
			changed = true
		}
		for _, name := range sortedKeys(rec.writes) {
			for idx := range rec.writes[name] {
				switch {
				case idx == nil:
					add(name, nil)
				case ex.isNewRef(idx, allocHead):
					// object allocated in this iteration
				case idx.maxSy <= symHead:
					add(name, idx)
				default:
					add(name, nil)
				}
			}
		}
		if !changed {
			break
		}
	}

	ex.frameCands(lc, havoc)
	// establish
	var live []*Cand
	for _, cd := range ex.v.cands[site] {
		if cd.dead {
			continue
		}
		g, ok := cd.gen(lc)
		if !ok {
			cd.dead = true
			cd.why = "not applicable at this loop"
			continue
		}
		live = append(live, cd)
		ex.obligeCand(st, cd, "loop invariant established", g)
	}
	_ = live
	// maintain
	f, s := ex.havocLoop(fr, lc, havoc, false, &symHead)
	act := &loopAct{loop: li, ctx: lc, names: map[string]TV{}}
	for n, v := range f.names {
		act.names[n] = v
	}
	f.loops[li.header] = act
	s.trace = append(s.trace, fmt.Sprintf("%s: arbitrary iteration of loop %d", ex.pos(token.Pos(loopPos(li))), li.ordinal))
	if !ex.feasible(s) {
		return
	}
	ex.runInstrs(f, s, li.header, 0)
}

// frameCands adds the frame of the contract as candidate invariants for the
// memory that the loop may change anywhere.
func (ex *Exec) frameCands(lc *loopCtx, havoc map[string]map[*Term]bool) {
	if ex.root == nil || ex.root.ModAll || ex.inSpecCall > 0 {
		return
	}
	for _, n := range sortedKeys(havoc) {
		if !havoc[n][nil] || len(n) < 2 || (n[:2] != "E:" && n[:2] != "H:" && n[:2] != "M:") {
			continue
		}
		srt := ex.v.heapSorts[n]
		if dom, _ := splitArr(srt); dom != sInt {
			continue
		}
		n := n
		ex.addCand(lc.site, "frame of "+n, false, func(lc *loopCtx) (*Term, bool) {
			ex, c := lc.ex, lc.ex.c
			now := lc.st.get(n, srt)
			before := ex.entry.get(n, srt)
			alloc := ex.entryAlloc()
			var tg []*Term
			for _, m := range ex.modTargets(ex.entryEnv(), ex.root) {
				if m.heap == n {
					if m.idx == nil {
						return nil, false
					}
					tg = append(tg, m.idx)
				}
			}
			if now == before {
				return c.True(), true
			}
			r := c.FreshBVar("r", sInt)
			pre := []*Term{c.Lt(c.Int(0), r), c.Lt(r, alloc)}
			for _, t := range tg {
				pre = append(pre, c.Not(c.Eq(r, t)))
			}
			return c.Forall([]*Term{r}, c.Implies(c.And(pre...), c.Eq(c.Select(now, r), c.Select(before, r)))), true
		})
	}
}

// isNewRef tells whether idx is an object allocated after the loop head.
func (ex *Exec) isNewRef(idx, allocHead *Term) bool {
	if idx == allocHead {
		return true
	}
	if idx.op == "+" && len(idx.args) == 2 && idx.args[1].op == "int" {
		b := idx.args[0]
		if b == allocHead {
			return true
		}
		// allocation counters created later (after calls) are named alloc!N
		if b.op == "var" && len(b.sval) > 6 && b.sval[:6] == "alloc!" && b.maxSy > allocHead.maxSy {
			return true
		}
	}
	if idx.op == "var" && len(idx.sval) > 6 && idx.sval[:6] == "alloc!" && idx.maxSy >= allocHead.maxSy {
		return true
	}
	return false
}

// havocLoop produces the frame and state of an arbitrary iteration.
func (ex *Exec) havocLoop(fr *Frame, lc *loopCtx, havoc map[string]map[*Term]bool, dry bool, symHead *int) (*Frame, *State) {
	c := ex.c
	f := fr.clone()
	s := lc.pre.clone()
	*symHead = c.syms
	// allocation
	na := c.Fresh("alloc", sInt)
	s.assume(c.Le(s.alloc, na))
	s.alloc = na
	// heap
	names := sortedKeys(havoc)
	for _, n := range names {
		cur, ok := s.heap[n]
		if !ok {
			srt, ok2 := ex.v.heapSorts[n]
			if !ok2 {
				continue
			}
			cur = s.get(n, srt)
		}
		if havoc[n][nil] {
			fresh := c.Fresh(n, cur.sort)
			ex.typeHeap(n, fresh, na)
			s.heap[n] = fresh
		} else {
			t := cur
			_, rng := "", ""
			_, rng = splitArr(cur.sort)
			var idxs []*Term
			for idx := range havoc[n] {
				idxs = append(idxs, idx)
			}
			sort.Slice(idxs, func(i, j int) bool { return idxs[i].id < idxs[j].id })
			for _, idx := range idxs {
				f := c.Fresh(n, rng)
				ex.typeInner(n, f, na)
				t = c.Store(t, idx, f)
			}
			s.heap[n] = t
		}
		for _, r := range ex.recorders {
			// an outer dry run sees these writes as well
			for idx := range havoc[n] {
				r.add(n, idx)
			}
		}
	}
	// loop variables
	for i, in := range lc.loop.header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		init := lc.phiInit[i]
		var v Val
		switch iv := init.(type) {
		case FuncV:
			if iv.Ref == nil {
				v = init // must stay the same function; checked at the back edge
				break
			}
			v = ex.freshVal(nameOf(phi), phi.Type())
		case IterV:
			v = init
		case PtrV:
			if iv.Kind == pObj && iv.Path == "" {
				v = ex.freshVal(nameOf(phi), phi.Type())
			} else {
				v = init
			}
		default:
			v = ex.freshVal(nameOf(phi), phi.Type())
		}
		f.env[phi] = v
		if phi.Comment != "" {
			f.names[phi.Comment] = TV{V: v, T: phi.Type()}
		}
		if _, ok := v.(FuncV); ok {
			continue
		}
		for _, fa := range ex.facts(v, phi.Type(), s.alloc) {
			s.assume(fa)
		}
	}
	if !dry {
		lc2 := *lc
		lc2.fr, lc2.st = f, s
		for _, cd := range ex.v.cands[lc.site] {
			if cd.dead {
				continue
			}
			if g, ok := cd.gen(&lc2); ok {
				s.assume(g)
			}
		}
		// type facts for havoced scalar map lengths etc. are assumed on load
	}
	return f, s
}

func nameOf(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

func (ex *Exec) backEdge(fr *Frame, st *State, act *loopAct, prev *ssa.BasicBlock) {
	if act.dry {
		return
	}
	vals := ex.phiVals(fr, st, act.loop.header, prev)
	f := fr.clone()
	// loop-carried host-level values must not change
	for i, in := range act.loop.header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		switch cur := fr.env[phi].(type) {
		case FuncV:
			if nv, ok := vals[i].(FuncV); !ok || nv.Fn != cur.Fn || nv.Ref != cur.Ref {
				unsup("function value changes in a loop")
			}
		case PtrV:
			if !(cur.Kind == pObj && cur.Path == "") {
				if nv, ok := vals[i].(PtrV); !ok || ex.ptrTerm(nv) != ex.ptrTerm(cur) {
					unsup("interior pointer changes in a loop")
				}
			}
		}
	}
	// the invariant is about the variables that the head knows: those that the
	// loop carries have new values, others those of the head
	f.names = map[string]TV{}
	for n, v := range act.names {
		f.names[n] = v
	}
	ex.setPhis(f, act.loop.header, vals)
	lc := *act.ctx
	lc.fr, lc.st = f, st
	for _, cd := range ex.v.cands[lc.site] {
		if cd.dead {
			continue
		}
		g, ok := cd.gen(&lc)
		if !ok {
			cd.dead = true
			cd.why = "not applicable at the back edge"
			continue
		}
		ex.obligeCand(st, cd, "loop invariant maintained", g)
	}
}

func (ex *Exec) obligeCand(st *State, cd *Cand, kind string, g *Term) {
	if ex.suppress > 0 {
		return
	}
	if g.isTrue() || st.has(g) {
		ex.trivial++
		return
	}
	o := &Obl{Fn: ex.rootFn.String(), Kind: kind, Label: cd.desc, Pos: cd.site, Hyps: st.hyps(), Goal: g, Trace: st.trace, Cand: cd, Inputs: ex.inputs, ctx: ex.c}
	ex.obls = append(ex.obls, o)
}

func (ex *Exec) addCand(site, desc string, user bool, gen func(lc *loopCtx) (*Term, bool)) {
	key := site + "|" + desc
	if _, ok := ex.v.candIdx[key]; ok {
		return
	}
	cd := &Cand{site: site, desc: desc, user: user, gen: gen}
	ex.v.candIdx[key] = cd
	ex.v.cands[site] = append(ex.v.cands[site], cd)
}

// makeCands creates the candidate invariants of a loop site: those written in
// the contracts and templates over the loop variables.
func (ex *Exec) makeCands(lc *loopCtx) {
	c := ex.c
	site := lc.site
	fr := lc.fr
	// user invariants: for the loop of a function with its own contract those
	// of that loop, otherwise every invariant of the root contract.
	own := ex.contractFor(fr.fn)
	var addUser2 func(ct *Contract, cl Clause, tag string, rootFirst bool)
	addUser := func(ct *Contract, cl Clause, tag string) {
		addUser2(ct, cl, tag, false)
		if fr.parent != nil && ct == ex.root {
			addUser2(ct, cl, tag+"(names of the caller) ", true)
		}
	}
	addUser2 = func(ct *Contract, cl Clause, tag string, rootFirst bool) {
		lab := cl.Text
		ex.addCand(site, tag+lab, true, func(lc *loopCtx) (t *Term, ok bool) {
			defer func() {
				if r := recover(); r != nil {
					if se, isSpec := r.(specErr); isSpec {
						ex.v.notes["loop invariant not applicable at "+shortFn(lc.site)+": "+se.msg] = true
						t, ok = nil, false
						return
					}
					panic(r)
				}
			}()
			return lc.ex.evalLoopClause(lc, ct, cl, rootFirst), true
		})
	}
	if own != nil && own.Loops[lc.loop.ordinal] != nil {
		for _, cl := range own.Loops[lc.loop.ordinal].Inv {
			addUser(own, cl, "")
		}
	} else {
		for _, ct := range []*Contract{own, ex.root} {
			if ct == nil {
				continue
			}
			var ns []int
			for n := range ct.Loops {
				ns = append(ns, n)
			}
			sort.Ints(ns)
			for _, n := range ns {
				for _, cl := range ct.Loops[n].Inv {
					addUser(ct, cl, fmt.Sprintf("(from loop %d) ", n))
				}
			}
		}
	}
	for _, ct := range []*Contract{own, ex.root} {
		if ct == nil {
			continue
		}
		for _, cl := range ct.AnyLoop {
			addUser(ct, cl, "")
		}
	}

	// templates
	iff := headCond(lc.loop)
	var cmpX, cmpY ssa.Value
	if iff != nil {
		if bo, ok := iff.Cond.(*ssa.BinOp); ok {
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ:
				cmpX, cmpY = bo.X, bo.Y
			}
		}
	}
	inLoop := func(v ssa.Value) bool {
		in, ok := v.(ssa.Instruction)
		return ok && lc.loop.blocks[in.Block()]
	}
	for i, in := range lc.loop.header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		i := i
		name := nameOf(phi)
		cur := func(lc *loopCtx) Val { return lc.fr.env[phi] }
		init := func(lc *loopCtx) Val { return lc.phiInit[i] }
		switch t := phi.Type().Underlying().(type) {
		case *types.Basic:
			switch {
			case t.Info()&types.IsInteger != 0:
				ex.addCand(site, name+" >= initial value", false, func(lc *loopCtx) (*Term, bool) {
					return c.Ge(cur(lc).(*Term), init(lc).(*Term)), true
				})
				ex.addCand(site, name+" <= initial value", false, func(lc *loopCtx) (*Term, bool) {
					return c.Le(cur(lc).(*Term), init(lc).(*Term)), true
				})
				// bound by the other operand of the loop condition
				for _, pr := range [][2]ssa.Value{{cmpX, cmpY}, {cmpY, cmpX}} {
					a, b := pr[0], pr[1]
					if a == nil {
						continue
					}
					rangeIdx := false
					if a != ssa.Value(phi) {
						bo, ok := a.(*ssa.BinOp)
						if !ok || bo.Op != token.ADD || bo.X != ssa.Value(phi) || phi.Comment != "rangeindex" {
							continue
						}
						rangeIdx = true
					}
					bound := func(lc *loopCtx) (*Term, bool) {
						if !inLoop(b) {
							if k, ok := b.(*ssa.Const); ok {
								return ex.constVal(k).(*Term), true
							}
							v, ok := lc.fr.env[b].(*Term)
							return v, ok
						}
						// len(x) evaluated in the header
						if call, ok := b.(*ssa.Call); ok {
							if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
								arg := call.Call.Args[0]
								if !inLoop(arg) || lc.isHeaderPhi(arg) {
									if v, ok := lc.fr.env[arg]; ok {
										return ex.lenOf(lc.st, v, arg.Type()), true
									}
								}
								if ld, ok := arg.(*ssa.UnOp); ok && ld.Op == token.MUL {
									if v, ok := lc.loadAddr(ld.X); ok {
										return ex.lenOf(lc.st, v, arg.Type()), true
									}
								}
							}
						}
						return nil, false
					}
					off := int64(0)
					if rangeIdx {
						off = 1
					}
					ex.addCand(site, name+" <= bound", false, func(lc *loopCtx) (*Term, bool) {
						b, ok := bound(lc)
						if !ok {
							return nil, false
						}
						return c.Le(c.Add(cur(lc).(*Term), c.Int(off)), b), true
					})
					ex.addCand(site, name+" >= bound", false, func(lc *loopCtx) (*Term, bool) {
						b, ok := bound(lc)
						if !ok {
							return nil, false
						}
						return c.Ge(c.Add(cur(lc).(*Term), c.Int(off)), b), true
					})
				}
			case t.Info()&types.IsBoolean != 0 || t.Info()&types.IsString != 0:
				ex.addCand(site, name+" unchanged", false, func(lc *loopCtx) (*Term, bool) {
					return c.Eq(cur(lc).(*Term), init(lc).(*Term)), true
				})
			}
		case *types.Slice:
			ex.addCand(site, name+" is fresh or nil", false, func(lc *loopCtx) (*Term, bool) {
				s := cur(lc).(SliceV)
				return c.Or(c.Ge(s.Arr, lc.pre.alloc), c.And(c.Eq(s.Arr, c.Int(0)), c.Eq(s.Cap, c.Int(0)))), true
			})
			ex.addCand(site, name+" is initial or fresh", false, func(lc *loopCtx) (*Term, bool) {
				s, s0 := cur(lc).(SliceV), init(lc).(SliceV)
				return c.Or(c.Ge(s.Arr, lc.pre.alloc), c.And(c.Eq(s.Arr, s0.Arr), c.Eq(s.Cap, s0.Cap), c.Eq(s.Off, s0.Off))), true
			})
			ex.addCand(site, name+" was fresh or nil since entry", false, func(lc *loopCtx) (*Term, bool) {
				s := cur(lc).(SliceV)
				return c.Or(c.Ge(s.Arr, ex.entryAlloc()), c.And(c.Eq(s.Arr, c.Int(0)), c.Eq(s.Cap, c.Int(0)))), true
			})
			ex.addCand(site, name+" offset unchanged", false, func(lc *loopCtx) (*Term, bool) {
				s, s0 := cur(lc).(SliceV), init(lc).(SliceV)
				return c.Eq(s.Off, s0.Off), true
			})
			ex.addCand(site, name+" does not shrink", false, func(lc *loopCtx) (*Term, bool) {
				s, s0 := cur(lc).(SliceV), init(lc).(SliceV)
				return c.Ge(s.Len, s0.Len), true
			})
		case *types.Pointer, *types.Map, *types.Interface:
			T := phi.Type()
			ex.addCand(site, name+" unchanged", false, func(lc *loopCtx) (*Term, bool) {
				return ex.eqVal(cur(lc), init(lc), T), true
			})
			ex.addCand(site, name+" not nil", false, func(lc *loopCtx) (*Term, bool) {
				return c.Not(ex.eqVal(cur(lc), ex.zero(T), T)), true
			})
		}
	}
	_ = fr
	// frame of memory: what existed at function entry / loop entry is unchanged
	ex.addCand(site, "memory allocated before the loop is unchanged", false, nil)
	delete(ex.v.candIdx, site+"|memory allocated before the loop is unchanged")
	ex.v.cands[site] = ex.v.cands[site][:len(ex.v.cands[site])-1]
	for _, n := range sortedKeys(ex.v.heapSorts) {
		if strings.HasPrefix(n, "L:") {
			n := n
			ex.addCand(site, n+" locks as at loop entry", false, func(lc *loopCtx) (*Term, bool) {
				srt := ex.v.heapSorts[n]
				return c.Eq(lc.st.get(n, srt), lc.pre.get(n, srt)), true
			})
			continue
		}
		if len(n) < 2 || (n[:2] != "E:" && n[:2] != "H:" && n[:2] != "M:") {
			continue
		}
		n := n
		for _, since := range []string{"loop entry", "function entry"} {
			since := since
			ex.addCand(site, n+" of objects older than "+since+" unchanged", false, func(lc *loopCtx) (*Term, bool) {
				srt := ex.v.heapSorts[n]
				now, before := lc.st.get(n, srt), lc.pre.get(n, srt)
				lim := lc.pre.alloc
				if since == "function entry" {
					lim = ex.entryAlloc()
					if lim == lc.pre.alloc {
						return c.True(), true
					}
				}
				if now == before {
					return c.True(), true
				}
				k := c.BVar("r?fr", sInt)
				return c.Forall([]*Term{k}, c.Implies(c.And(c.Le(c.Int(0), k), c.Lt(k, lim)), c.Eq(c.Select(now, k), c.Select(before, k))), []*Term{c.Select(now, k)}), true
			})
		}
	}
}

func (lc *loopCtx) isHeaderPhi(v ssa.Value) bool {
	p, ok := v.(*ssa.Phi)
	return ok && p.Block() == lc.loop.header
}

// loadAddr evaluates the load of an address expression that consists of field
// selections from values defined outside the loop.
func (lc *loopCtx) loadAddr(a ssa.Value) (v Val, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(unsupported); is {
				v, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	var addr func(a ssa.Value) (PtrV, bool)
	addr = func(a ssa.Value) (PtrV, bool) {
		if x, ok := lc.fr.env[a]; ok {
			if in, isIn := a.(ssa.Instruction); !isIn || !lc.loop.blocks[in.Block()] {
				return lc.ex.ptr(x, a.Type()), true
			}
		}
		if fa, ok := a.(*ssa.FieldAddr); ok {
			p, ok := addr(fa.X)
			if !ok {
				return PtrV{}, false
			}
			return lc.ex.fieldPtr(p, fa.Field), true
		}
		return PtrV{}, false
	}
	p, ok := addr(a)
	if !ok {
		return nil, false
	}
	return lc.ex.load(lc.st, p), true
}

func firstPos(l *loopInfo) token.Pos { return token.Pos(loopPos(l)) }
