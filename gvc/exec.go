package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Obl is one proof obligation.
type Obl struct {
	Fn, Kind, Label, Pos string
	Hyps                 []*Term
	Goal                 *Term
	Trace                []string
	Cand                 *Cand
	Inputs               []namedTerm
	ctx                  *Ctx
	// results
	Status  string // "proved", "trivial", "failed", "unknown"
	Solver  string
	Ms      int64
	Model   map[string]string
	Detail  string
	Timeout int
}

type namedTerm struct {
	Name string
	T    *Term
}

func (o *Obl) Name() string {
	n := shortFn(o.Fn) + ": " + o.Kind
	if o.Label != "" {
		n += " [" + o.Label + "]"
	}
	return n
}

// Verifier holds what is shared between the functions that are verified.
type Verifier struct {
	prog       *Program
	spec       *Spec
	c          *Ctx
	heapSorts  map[string]string
	leafKind   map[string]leafKind
	typeIDs    map[string]int64
	typeByID   map[int64]types.Type
	boxed      map[*Term]boxInfo
	interior   map[*Term]PtrV
	funcVals   map[int]funcEntry
	cands      map[string][]*Cand // by site
	candIdx    map[string]*Cand
	globInit   map[string]*globState
	trustUsed  map[string]bool
	modelsUsed map[string]bool
	inlined    map[string]bool
	called     map[string]bool // contracts used at call sites
	prune      *Session
	guards     map[string]Guard
	notes      map[string]bool
	axiomsDone bool
}

func NewVerifier(p *Program, s *Spec) *Verifier {
	v := &Verifier{prog: p, spec: s, c: NewCtx(), heapSorts: map[string]string{}, leafKind: map[string]leafKind{}, typeIDs: map[string]int64{}, typeByID: map[int64]types.Type{},
		boxed: map[*Term]boxInfo{}, interior: map[*Term]PtrV{}, funcVals: map[int]funcEntry{}, cands: map[string][]*Cand{}, candIdx: map[string]*Cand{},
		globInit: map[string]*globState{}, trustUsed: map[string]bool{}, modelsUsed: map[string]bool{}, inlined: map[string]bool{}, called: map[string]bool{},
		guards: map[string]Guard{}, notes: map[string]bool{}}
	for _, g := range s.Guards {
		v.guards[g.Type+"."+g.Field] = g
	}
	return v
}

func (v *Verifier) typeID(t types.Type) int64 {
	k := typeKey(t)
	if id, ok := v.typeIDs[k]; ok {
		return id
	}
	// stable small ids
	id := int64(len(v.typeIDs) + 1)
	v.typeIDs[k] = id
	v.typeByID[id] = t
	return id
}

// Exec verifies one function.
type Exec struct {
	v          *Verifier
	c          *Ctx
	root       *Contract
	rootFn     *ssa.Function
	entry      *State
	rootFrame  *Frame
	obls       []*Obl
	trivial    int
	suppress   int
	recorders  []*recorder
	paths      int
	maxPaths   int
	unsup      []string
	specMode   bool
	inputs     []namedTerm
	exits      int
	panics     int
	curInstr   ssa.Instruction
	reached    map[string]bool // labels of normal exits reached (vacuity)
	exitPCs    [][]*Term
	inSpecCall int
	rootVars   map[string]TV
	lets       map[string]TV
	lockedOnce bool
	inInit     bool
	preHyps    []*Term
	steps      int
}

func (ex *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		if ex.curInstr != nil {
			p = ex.curInstr.Pos()
		}
		if !p.IsValid() {
			return ""
		}
	}
	pp := ex.v.prog.Prog.Fset.Position(p)
	f := pp.Filename
	if i := strings.LastIndex(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, pp.Line)
}

// oblige records a proof obligation and assumes it afterwards.
func (ex *Exec) oblige(st *State, kind, label string, goal *Term, pos string) {
	if ex.suppress > 0 {
		if ex.inSpecCall == 0 {
			st.assume(goal)
		}
		return
	}
	if goal.isTrue() {
		ex.trivial++
		return
	}
	if st.infeasible() {
		return
	}
	if st.has(goal) {
		ex.trivial++
		return
	}
	o := &Obl{Fn: ex.rootFn.String(), Kind: kind, Label: label, Pos: pos, Hyps: st.hyps(), Goal: goal, Trace: st.trace, Inputs: ex.inputs}
	if ex.root != nil {
		o.Timeout = ex.root.TimeoutMS
	}
	ex.obls = append(ex.obls, o)
	st.assume(goal)
}

// feasible asks the incremental solver whether the path can be taken.
func (ex *Exec) feasible(st *State) bool {
	if st.infeasible() {
		return false
	}
	return ex.v.prune.Feasible(ex.c, st.pc)
}

// implied asks whether the path condition implies g (quick check).
func (ex *Exec) implied(st *State, g *Term) bool {
	if g.isTrue() || st.has(g) {
		return true
	}
	if g.isFalse() {
		return false
	}
	return ex.v.prune.Implied(ex.c, st.pc, g)
}

// branch splits the path on cond.
func (ex *Exec) branch(st *State, cond *Term, what string, yes, no func(*State)) {
	if cond.isTrue() {
		yes(st)
		return
	}
	if cond.isFalse() {
		no(st)
		return
	}
	if st.has(cond) {
		yes(st)
		return
	}
	if st.has(ex.c.Not(cond)) {
		no(st)
		return
	}
	a := st.clone()
	a.assumeBranch(cond)
	if ex.feasible(a) {
		a.trace = append(a.trace, what+": true")
		yes(a)
	}
	b := st.clone()
	b.assumeBranch(ex.c.Not(cond))
	if ex.feasible(b) {
		b.trace = append(b.trace, what+": false")
		no(b)
	}
}

// value evaluates an SSA operand.
func (ex *Exec) value(fr *Frame, st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constVal(x)
	case *ssa.Global:
		et := x.Type().Underlying().(*types.Pointer).Elem()
		return PtrV{Kind: pGlobal, Glob: x.String(), Root: et, Elem: et}
	case *ssa.Function:
		f := FuncV{Fn: x, Name: x.String()}
		if st != nil && x.Parent() != nil && len(x.FreeVars) == 0 {
			ex.assumeDefines(st, f, x.Signature)
		}
		return f
	case *ssa.Builtin:
		return FuncV{Builtin: x, Name: x.Name()}
	}
	if r, ok := fr.env[v]; ok {
		return r
	}
	unsup("value %s of %s not available", v.Name(), fr.fn)
	return nil
}

func (ex *Exec) constVal(x *ssa.Const) Val {
	t := x.Type()
	if x.Value == nil {
		return ex.zero(t)
	}
	return ex.constOf(x.Value, t)
}

func (ex *Exec) constOf(cv constant.Value, t types.Type) Val {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		unsup("constant of type %s", t)
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return ex.c.Bool(constant.BoolVal(cv))
	case b.Info()&types.IsString != 0:
		return ex.c.Str(constant.StringVal(cv))
	case b.Info()&types.IsInteger != 0:
		cv = constant.ToInt(cv)
		if i, ok := constant.Int64Val(cv); ok {
			return ex.c.Int(i)
		}
		z, _ := new(big.Int).SetString(cv.ExactString(), 10)
		return ex.c.BigInt(z)
	case b.Info()&types.IsFloat != 0:
		s := cv.ExactString()
		return ex.c.Const("f64$"+sanitize(s), sF64)
	}
	if b.Info()&types.IsComplex != 0 {
		return ex.c.Const("complex$"+sanitize(cv.ExactString()), sBox)
	}
	unsup("constant %s", cv)
	return nil
}

func (ex *Exec) term(fr *Frame, st *State, v ssa.Value) *Term {
	x := ex.value(fr, st, v)
	if t, ok := x.(*Term); ok {
		return t
	}
	unsup("expected scalar for %s, got %T", v.Name(), x)
	return nil
}

// run executes block b entered from prev.
func (ex *Exec) runBlock(fr *Frame, st *State, b, prev *ssa.BasicBlock) {
	ex.steps++
	if ex.steps > 400000 {
		unsup("step limit")
	}
	// leaving a dry loop ends the dry run
	for _, a := range fr.loops {
		if a.dry && !a.loop.blocks[b] {
			return
		}
	}
	for h, a := range fr.loops {
		if !a.loop.blocks[b] {
			delete(fr.loops, h)
		}
	}
	loops := findLoops(fr.fn)
	if li, ok := loops[b]; ok {
		if act, ok := fr.loops[b]; ok && li.blocks[prev] {
			if !act.unroll {
				ex.backEdge(fr, st, act, prev)
				return
			}
			// unrolling: decide again for this iteration
			n := *act
			n.count++
			delete(fr.loops, b)
			if n.count > 300 {
				unsup("loop unrolled more than 300 times")
			}
			ex.enterLoop(fr, st, li, prev, n.count)
			return
		}
		ex.enterLoop(fr, st, li, prev, 0)
		return
	}
	ex.phis(fr, st, b, prev)
	ex.runInstrs(fr, st, b, 0)
}

func predIndex(b, prev *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == prev {
			return i
		}
	}
	return -1
}

func (ex *Exec) phiVals(fr *Frame, st *State, b, prev *ssa.BasicBlock) []Val {
	var vals []Val
	idx := predIndex(b, prev)
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, ex.value(fr, st, phi.Edges[idx]))
	}
	return vals
}

func (ex *Exec) setPhis(fr *Frame, b *ssa.BasicBlock, vals []Val) {
	for i, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		fr.env[phi] = vals[i]
		if phi.Comment != "" {
			fr.names[phi.Comment] = TV{V: vals[i], T: phi.Type()}
		}
	}
}

func (ex *Exec) phis(fr *Frame, st *State, b, prev *ssa.BasicBlock) {
	if prev == nil {
		return
	}
	ex.setPhis(fr, b, ex.phiVals(fr, st, b, prev))
}

// runInstrs executes b from instruction i.
func (ex *Exec) runInstrs(fr *Frame, st *State, b *ssa.BasicBlock, i int) {
	c := ex.c
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		ex.curInstr = in
		switch x := in.(type) {
		case *ssa.Phi:
		case *ssa.DebugRef:
			ex.debugRef(fr, st, x)
		case *ssa.If:
			cond := ex.term(fr, st, x.Cond)
			what := fmt.Sprintf("%s %s", ex.pos(x.Cond.Pos()), x.Cond.String())
			done := 0
			ex.branch(st, cond, what, func(s *State) {
				done++
				ex.runBlock(fr.clone(), s, b.Succs[0], b)
			}, func(s *State) {
				done++
				ex.runBlock(fr.clone(), s, b.Succs[1], b)
			})
			return
		case *ssa.Jump:
			ex.runBlock(fr, st, b.Succs[0], b)
			return
		case *ssa.Return:
			var res []Val
			for _, r := range x.Results {
				res = append(res, ex.value(fr, st, r))
			}
			ex.paths++
			if ex.paths > ex.maxPaths {
				unsup("more than %d paths", ex.maxPaths)
			}
			fr.k(st, res)
			return
		case *ssa.Panic:
			ex.doPanic(fr, st, "panic at "+ex.pos(x.Pos()))
			return
		case *ssa.RunDefers:
			ds := fr.defers
			fr.defers = nil
			ex.runDefers(fr, st, ds, func(s *State) {
				ex.runInstrs(fr.clone(), s, b, i+1)
			})
			return
		case *ssa.Defer:
			d := deferred{call: x}
			for _, a := range x.Call.Args {
				d.args = append(d.args, ex.value(fr, st, a))
			}
			if !x.Call.IsInvoke() {
				d.fn = ex.value(fr, st, x.Call.Value)
			} else {
				d.fn = ex.value(fr, st, x.Call.Value)
			}
			fr.defers = append(fr.defers, d)
		case *ssa.Call:
			i := i
			var args []Val
			for _, a := range x.Call.Args {
				args = append(args, ex.value(fr, st, a))
			}
			fv := ex.value(fr, st, x.Call.Value)
			ex.call(fr, st, &x.Call, x, fv, args, func(s *State, res []Val) {
				f := fr.clone()
				switch len(res) {
				case 0:
				case 1:
					f.env[x] = res[0]
				default:
					f.env[x] = TupleV(res)
				}
				ex.runInstrs(f, s, b, i+1)
			})
			return
		case *ssa.Store:
			p := ex.ptr(ex.value(fr, st, x.Addr), x.Addr.Type())
			ex.checkNil(st, p, "store", ex.pos(x.Pos()))
			ex.guardAccess(fr, st, p, true, ex.pos(x.Pos()))
			ex.store(st, p, ex.value(fr, st, x.Val))
		case *ssa.MapUpdate:
			mt := x.Map.Type().Underlying().(*types.Map)
			m := ex.term(fr, st, x.Map)
			ex.oblige(st, "no panic", "assignment to a nil map", c.Not(c.Eq(m, c.Int(0))), ex.pos(x.Pos()))
			k := ex.keyTerm(st, ex.value(fr, st, x.Key), mt)
			ex.mapSet(st, mt, m, k, ex.value(fr, st, x.Value))
		case *ssa.Go, *ssa.Send, *ssa.Select, *ssa.MakeChan:
			unsup("instruction %s", in)
		default:
			v, ok := in.(ssa.Value)
			if !ok {
				unsup("instruction %T", in)
			}
			r := ex.eval(fr, st, v)
			fr.env[v] = r
		}
	}
}

func (ex *Exec) debugRef(fr *Frame, st *State, x *ssa.DebugRef) {
	obj := x.Object()
	if obj == nil {
		return
	}
	vr, ok := obj.(*types.Var)
	if !ok || vr.IsField() {
		return
	}
	if x.IsAddr {
		if v, ok := fr.env[x.X]; ok {
			fr.names[vr.Name()] = TV{V: v, T: x.X.Type(), Addr: true, Pos: vr.Pos()}
		}
		return
	}
	if cur, ok := fr.names[vr.Name()]; ok && cur.Addr && cur.Pos == vr.Pos() {
		return // the variable is in memory, so the value will be outdated
	}
	if v, ok := fr.env[x.X]; ok {
		fr.names[vr.Name()] = TV{V: v, T: x.X.Type()}
	} else if cst, ok := x.X.(*ssa.Const); ok {
		func() {
			defer func() { recover() }()
			fr.names[vr.Name()] = TV{V: ex.constVal(cst), T: cst.Type()}
		}()
	}
}

func (ex *Exec) ptr(v Val, t types.Type) PtrV {
	switch p := v.(type) {
	case PtrV:
		return p
	case *Term:
		pt, ok := t.Underlying().(*types.Pointer)
		if !ok {
			unsup("not a pointer: %s", t)
		}
		return ex.ptrOf(p, pt.Elem()).(PtrV)
	}
	unsup("pointer from %T", v)
	return PtrV{}
}

func (ex *Exec) checkNil(st *State, p PtrV, what, pos string) {
	if p.Kind != pObj {
		return
	}
	ex.nonNil(st, p.Idx[0], what, pos)
}

func (ex *Exec) nonNil(st *State, ref *Term, what, pos string) {
	if ref.op == "+" || ref == ex.entryAlloc() {
		return // freshly allocated
	}
	if ex.root != nil && ex.root.NoNilCheck && ex.suppress == 0 {
		st.assume(ex.c.Not(ex.c.Eq(ref, ex.c.Int(0))))
		return
	}
	ex.oblige(st, "no nil dereference", what, ex.c.Not(ex.c.Eq(ref, ex.c.Int(0))), pos)
}

func (ex *Exec) entryAlloc() *Term { return ex.c.Const("alloc@0", sInt) }

// eval evaluates a value instruction with a single outcome.
func (ex *Exec) eval(fr *Frame, st *State, v ssa.Value) Val {
	c := ex.c
	switch x := v.(type) {
	case *ssa.Alloc:
		et := x.Type().Underlying().(*types.Pointer).Elem()
		ref := st.newRef()
		p := PtrV{Kind: pObj, Root: et, Idx: []*Term{ref}, Elem: et}
		if at, ok := et.Underlying().(*types.Array); ok {
			for _, l := range leaves(at.Elem()) {
				ex.setElemArr(st, at.Elem(), l, ref, c.ConstArr(sInt, ex.zeroLeaf(l)))
			}
		} else {
			ex.store(st, p, ex.zero(et))
		}
		if x.Comment != "" {
			fr.names[x.Comment] = TV{V: p, T: x.Type(), Addr: true, Pos: x.Pos()}
		}
		return p
	case *ssa.BinOp:
		return ex.binop(fr, st, x)
	case *ssa.UnOp:
		return ex.unop(fr, st, x)
	case *ssa.ChangeType:
		return ex.changeType(ex.value(fr, st, x.X), x.X.Type(), x.Type())
	case *ssa.ChangeInterface:
		return ex.value(fr, st, x.X)
	case *ssa.Convert:
		return ex.convert(fr, st, ex.value(fr, st, x.X), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		unsup("multiconvert")
	case *ssa.Extract:
		t := ex.value(fr, st, x.Tuple).(TupleV)
		return t[x.Index]
	case *ssa.Field:
		s := ex.value(fr, st, x.X).(StructV)
		return s.F[x.Field]
	case *ssa.FieldAddr:
		p := ex.ptr(ex.value(fr, st, x.X), x.X.Type())
		ex.checkNil(st, p, "field of a nil pointer", ex.pos(x.Pos()))
		return ex.fieldPtr(p, x.Field)
	case *ssa.Index:
		switch xt := x.X.Type().Underlying().(type) {
		case *types.Array:
			a := ex.value(fr, st, x.X).(ArrayV)
			idx := ex.term(fr, st, x.Index)
			ex.boundsCheck(st, idx, c.Int(xt.Len()), x)
			return ex.arrayAt(a, idx, xt.Elem())
		case *types.Basic:
			s := ex.term(fr, st, x.X)
			idx := ex.term(fr, st, x.Index)
			return ex.strIndex(st, s, idx, x)
		}
		unsup("index of %s", x.X.Type())
	case *ssa.IndexAddr:
		idx := ex.term(fr, st, x.Index)
		switch xt := x.X.Type().Underlying().(type) {
		case *types.Slice:
			s := ex.value(fr, st, x.X).(SliceV)
			ex.boundsCheck(st, idx, s.Len, x)
			return ex.elemPtr(s, xt.Elem(), idx)
		case *types.Pointer:
			at := xt.Elem().Underlying().(*types.Array)
			p := ex.ptr(ex.value(fr, st, x.X), x.X.Type())
			ex.boundsCheck(st, idx, c.Int(at.Len()), x)
			if p.Kind == pObj && p.Path == "" {
				return PtrV{Kind: pElem, Root: at.Elem(), Idx: []*Term{p.Idx[0], idx}, Elem: at.Elem()}
			}
			if idx.op != "int" {
				unsup("symbolic index into an embedded array")
			}
			p.Path += fmt.Sprintf("[%s]", idx.ival)
			p.Elem = at.Elem()
			return p
		}
		unsup("indexaddr of %s", x.X.Type())
	case *ssa.Lookup:
		if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
			m := ex.term(fr, st, x.X)
			k := ex.keyTerm(st, ex.value(fr, st, x.Index), mt)
			has := ex.mapHas(st, mt, m, k)
			val := ex.iteVal(has, ex.mapGetRaw(st, mt, m, k), ex.zero(mt.Elem()), mt.Elem())
			if x.CommaOk {
				return TupleV{val, has}
			}
			return val
		}
		return ex.strIndex(st, ex.term(fr, st, x.X), ex.term(fr, st, x.Index), x)
	case *ssa.MakeClosure:
		f := FuncV{Fn: x.Fn.(*ssa.Function), Name: x.Fn.String()}
		for _, b := range x.Bindings {
			f.Bind = append(f.Bind, ex.value(fr, st, b))
		}
		ex.defineClosure(st, &f, x.Type())
		return f
	case *ssa.MakeInterface:
		return ex.makeIface(st, ex.value(fr, st, x.X), x.X.Type())
	case *ssa.MakeMap:
		return ex.newMap(st, x.Type().Underlying().(*types.Map))
	case *ssa.MakeSlice:
		ln, cp := ex.term(fr, st, x.Len), ex.term(fr, st, x.Cap)
		ex.oblige(st, "no panic", "make slice length", c.And(c.Le(c.Int(0), ln), c.Le(ln, cp)), ex.pos(x.Pos()))
		return ex.newSlice(st, x.Type().Underlying().(*types.Slice).Elem(), ln, cp)
	case *ssa.Range:
		return ex.makeIter(fr, st, x)
	case *ssa.Next:
		return ex.next(fr, st, x)
	case *ssa.Slice:
		return ex.slice(fr, st, x)
	case *ssa.SliceToArrayPointer:
		unsup("slice to array pointer")
	case *ssa.TypeAssert:
		return ex.typeAssert(fr, st, x)
	}
	unsup("instruction %T %s", v, v)
	return nil
}

func (ex *Exec) fieldPtr(p PtrV, i int) PtrV {
	s := p.Elem.Underlying().(*types.Struct)
	p.Path += "." + fieldName(s, i)
	p.Elem = s.Field(i).Type()
	return p
}

func (ex *Exec) arrayAt(a ArrayV, idx *Term, et types.Type) Val {
	if idx.op == "int" && idx.ival.IsInt64() {
		k := idx.ival.Int64()
		if k >= 0 && k < int64(len(a.E)) {
			return a.E[k]
		}
	}
	if len(a.E) == 0 {
		return ex.zero(et)
	}
	r := a.E[len(a.E)-1]
	for i := len(a.E) - 2; i >= 0; i-- {
		r = ex.iteVal(ex.c.Eq(idx, ex.c.Int(int64(i))), a.E[i], r, et)
	}
	return r
}

func (ex *Exec) boundsCheck(st *State, idx, ln *Term, in ssa.Instruction) {
	c := ex.c
	ex.oblige(st, "index in range", "", c.And(c.Le(c.Int(0), idx), c.Lt(idx, ln)), ex.pos(in.Pos()))
}

func (ex *Exec) strIndex(st *State, s, idx *Term, in ssa.Instruction) Val {
	ex.boundsCheck(st, idx, ex.c.StrLen(s), in)
	return ex.byteAt(st, s, idx)
}

func (ex *Exec) byteAt(st *State, s, idx *Term) *Term {
	r := ex.c.CodeAt(s, idx)
	if !r.isConst() && st != nil && !r.hasBV {
		st.assume(ex.c.And(ex.c.Le(ex.c.Int(0), r), ex.c.Le(r, ex.c.Int(255))))
	}
	return r
}

// wrap reduces an unbounded result to the machine type t. If the result
// provably stays in range on this path, the plain term is kept.
func (ex *Exec) wrap(st *State, r *Term, t types.Type) *Term {
	c := ex.c
	lo, hi, bits, signed := intRange(t)
	if r.op == "int" {
		if r.ival.Cmp(lo) >= 0 && r.ival.Cmp(hi) <= 0 {
			return r
		}
		m := new(big.Int).Lsh(big.NewInt(1), bits)
		z := new(big.Int).Mod(r.ival, m)
		if signed && z.Cmp(hi) > 0 {
			z.Sub(z, m)
		}
		return c.BigInt(z)
	}
	in := c.And(c.Le(c.BigInt(lo), r), c.Le(r, c.BigInt(hi)))
	if r.hasBV {
		return r
	}
	if ex.implied(st, in) {
		st.assume(in)
		return r
	}
	m := c.BigInt(new(big.Int).Lsh(big.NewInt(1), bits))
	var w *Term
	if signed {
		half := c.BigInt(new(big.Int).Lsh(big.NewInt(1), bits-1))
		w = c.Sub(c.ModE(c.Add(r, half), m), half)
	} else {
		w = c.ModE(r, m)
	}
	return c.Ite(in, r, w)
}

func (ex *Exec) binop(fr *Frame, st *State, x *ssa.BinOp) Val {
	a, b := ex.value(fr, st, x.X), ex.value(fr, st, x.Y)
	return ex.binopVals(st, x.Op, a, b, x.X.Type(), x.Y.Type(), x.Type(), ex.pos(x.Pos()))
}

func (ex *Exec) binopVals(st *State, op token.Token, a, b Val, ta, tb, tr types.Type, pos string) Val {
	c := ex.c
	switch op {
	case token.EQL, token.NEQ:
		// comparison between interface and concrete is preceded by MakeInterface
		var e *Term
		if isNilConst(tb) && !isIface(ta) {
			b = ex.zero(ta)
		}
		if fa, ok := a.(FuncV); ok && fa.Ref == nil && (fa.Fn != nil || fa.Builtin != nil) {
			e = c.False() // comparison of a known function with nil
		} else {
			e = ex.eqVal(a, b, ta)
		}
		if op == token.NEQ {
			return c.Not(e)
		}
		return e
	}
	bt, ok := ta.Underlying().(*types.Basic)
	if !ok {
		unsup("binop on %s", ta)
	}
	x, y := a.(*Term), b.(*Term)
	if bt.Info()&types.IsString != 0 {
		switch op {
		case token.ADD:
			return c.Concat(x, y)
		case token.LSS:
			return c.Raw("str.<", sBool, x, y)
		case token.LEQ:
			return c.Raw("str.<=", sBool, x, y)
		case token.GTR:
			return c.Raw("str.<", sBool, y, x)
		case token.GEQ:
			return c.Raw("str.<=", sBool, y, x)
		}
	}
	if bt.Info()&types.IsBoolean != 0 {
		switch op {
		case token.AND:
			return c.And(x, y)
		case token.OR:
			return c.Or(x, y)
		case token.XOR:
			return c.Not(c.Eq(x, y))
		}
	}
	if bt.Info()&types.IsFloat != 0 {
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return c.App("f64"+op.String(), sBool, x, y)
		}
		return c.App("f64"+sanitize(op.String()), sF64, x, y)
	}
	switch op {
	case token.LSS:
		return c.Lt(x, y)
	case token.LEQ:
		return c.Le(x, y)
	case token.GTR:
		return c.Gt(x, y)
	case token.GEQ:
		return c.Ge(x, y)
	case token.ADD:
		return ex.wrap(st, c.Add(x, y), tr)
	case token.SUB:
		return ex.wrap(st, c.Sub(x, y), tr)
	case token.MUL:
		return ex.wrap(st, c.Mul(x, y), tr)
	case token.QUO, token.REM:
		ex.oblige(st, "no panic", "division by zero", c.Not(c.Eq(y, c.Int(0))), pos)
		// Go truncates towards zero; SMT-LIB division is Euclidean.
		q := c.DivE(x, y)
		m := c.ModE(x, y)
		neg := c.And(c.Lt(x, c.Int(0)), c.Not(c.Eq(m, c.Int(0))))
		var tq *Term
		if y.op == "int" && y.ival.Sign() > 0 {
			tq = c.Ite(neg, c.Add(q, c.Int(1)), q)
		} else {
			tq = c.Ite(neg, c.Ite(c.Gt(y, c.Int(0)), c.Add(q, c.Int(1)), c.Sub(q, c.Int(1))), q)
		}
		if ex.implied(st, c.Le(c.Int(0), x)) {
			tq = q
		}
		if op == token.QUO {
			return ex.wrap(st, tq, tr)
		}
		if tq == q {
			return m
		}
		return c.Sub(x, c.Mul(y, tq))
	case token.SHL:
		if y.op == "int" && y.ival.IsInt64() && y.ival.Int64() >= 0 && y.ival.Int64() < 64 {
			return ex.wrap(st, c.Mul(x, c.BigInt(new(big.Int).Lsh(big.NewInt(1), uint(y.ival.Int64())))), tr)
		}
	case token.SHR:
		if y.op == "int" && y.ival.IsInt64() && y.ival.Int64() >= 0 && y.ival.Int64() < 64 {
			return c.DivE(x, c.BigInt(new(big.Int).Lsh(big.NewInt(1), uint(y.ival.Int64())))) // floor for negative too
		}
	case token.AND:
		if y.op == "int" {
			// x & (2^k-1)
			p := new(big.Int).Add(y.ival, big.NewInt(1))
			if y.ival.Sign() >= 0 && new(big.Int).And(p, y.ival).Sign() == 0 {
				return c.ModE(x, c.BigInt(p))
			}
		}
	}
	r := c.App("bits$"+sanitize(op.String())+"$"+tr.String(), sInt, x, y)
	lo, hi, _, _ := intRange(tr)
	st.assume(c.And(c.Le(c.BigInt(lo), r), c.Le(r, c.BigInt(hi))))
	return r
}

func isNilConst(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

func isIface(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

func (ex *Exec) unop(fr *Frame, st *State, x *ssa.UnOp) Val {
	c := ex.c
	switch x.Op {
	case token.MUL:
		p := ex.ptr(ex.value(fr, st, x.X), x.X.Type())
		ex.checkNil(st, p, "load", ex.pos(x.Pos()))
		ex.guardAccess(fr, st, p, false, ex.pos(x.Pos()))
		return ex.load(st, p)
	case token.NOT:
		return c.Not(ex.term(fr, st, x.X))
	case token.SUB:
		t := ex.term(fr, st, x.X)
		if t.sort == sF64 {
			return c.App("f64neg", sF64, t)
		}
		return ex.wrap(st, c.Sub(c.Int(0), t), x.Type())
	case token.XOR:
		t := ex.term(fr, st, x.X)
		_, hi, _, signed := intRange(x.Type())
		if signed {
			return c.Sub(c.Int(-1), t)
		}
		return c.Sub(c.BigInt(hi), t)
	}
	unsup("unop %s", x.Op)
	return nil
}

func (ex *Exec) changeType(v Val, from, to types.Type) Val {
	if p, ok := v.(PtrV); ok {
		if pt, ok := to.Underlying().(*types.Pointer); ok {
			if typeKey(pt.Elem()) != typeKey(p.Elem) {
				unsup("pointer conversion %s to %s", from, to)
			}
		}
	}
	return v
}

func (ex *Exec) convert(fr *Frame, st *State, v Val, from, to types.Type) Val {
	c := ex.c
	fu, tu := from.Underlying(), to.Underlying()
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	switch {
	case fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		return ex.wrap(st, v.(*Term), to)
	case fok && tok && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
		return v
	case fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
		return ex.runeToString(st, v.(*Term))
	case fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
		return c.App("i2f$"+tb.Name(), sF64, v.(*Term))
	case fok && tok && fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
		r := c.App("f2i$"+tb.Name(), sInt, v.(*Term))
		lo, hi, _, _ := intRange(to)
		st.assume(c.And(c.Le(c.BigInt(lo), r), c.Le(r, c.BigInt(hi))))
		return r
	case fok && tok && fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
		if fb.Kind() == tb.Kind() || tb.Kind() == types.Float64 {
			return v // widening keeps the value
		}
		r := c.App("f2f$float32", sF64, v.(*Term))
		if !r.hasBV {
			st.assume(c.Eq(c.App("f2f$float32", sF64, r), r))
		}
		return r
	}
	if fok && fb.Info()&types.IsString != 0 {
		if sl, ok := tu.(*types.Slice); ok {
			s := v.(*Term)
			eb := sl.Elem().Underlying().(*types.Basic)
			if eb.Kind() == types.Uint8 {
				n := c.StrLen(s)
				r := ex.newSlice(st, sl.Elem(), n, n)
				if s.op == "str" && len(s.sval) <= 64 {
					for i := 0; i < len(s.sval); i++ {
						ex.store(st, ex.elemPtr(r, sl.Elem(), c.Int(int64(i))), c.Int(int64(s.sval[i])))
					}
					return r
				}
				a := c.Fresh("bytes", arr(sInt, sInt))
				k := c.FreshBVar("k", sInt)
				st.assume(c.Forall([]*Term{k}, c.Implies(c.And(c.Le(c.Int(0), k), c.Lt(k, n)), c.And(c.Eq(c.Select(a, k), c.CodeAt(s, k)), c.Le(c.Int(0), c.Select(a, k)), c.Le(c.Select(a, k), c.Int(255)))), []*Term{c.Select(a, k)}))
				l := leaves(sl.Elem())[0]
				ex.setElemArr(st, sl.Elem(), l, r.Arr, a)
				st.assume(c.Eq(c.App("bytes2str", sStr, a, c.Int(0), n), s))
				ex.c.decls["bytes2str"] = funSig{args: []string{arr(sInt, sInt), sInt, sInt}, ret: sStr}
				return r
			}
			if eb.Kind() == types.Int32 {
				// []rune(s): an uninterpreted decoding, the same for the same string
				a := c.App("runes$arr", arr(sInt, sInt), s)
				n := c.App("runes$len", sInt, s)
				st.assume(c.And(c.Le(c.Int(0), n), c.Le(n, c.StrLen(s)), c.Eq(c.Eq(n, c.Int(0)), c.Eq(c.StrLen(s), c.Int(0)))))
				k := c.FreshBVar("k", sInt)
				st.assume(c.Forall([]*Term{k}, c.And(c.Le(c.Int(0), c.Select(a, k)), c.Le(c.Select(a, k), c.Int(0x10FFFF))), []*Term{c.Select(a, k)}))
				r := ex.newSlice(st, sl.Elem(), n, n)
				l := leaves(sl.Elem())[0]
				ex.setElemArr(st, sl.Elem(), l, r.Arr, a)
				return r
			}
		}
	}
	if sl, ok := fu.(*types.Slice); ok && tok && tb.Info()&types.IsString != 0 {
		eb := sl.Elem().Underlying().(*types.Basic)
		s := v.(SliceV)
		l := leaves(sl.Elem())[0]
		a := ex.elemArr(st, sl.Elem(), l, s.Arr)
		if eb.Kind() == types.Uint8 {
			r := c.App("bytes2str", sStr, a, s.Off, s.Len)
			st.assume(c.Eq(c.StrLen(r), s.Len))
			k := c.FreshBVar("k", sInt)
			st.assume(c.Forall([]*Term{k}, c.Implies(c.And(c.Le(c.Int(0), k), c.Lt(k, s.Len)), c.Eq(c.CodeAt(r, k), c.Select(a, c.Add(s.Off, k)))), []*Term{c.CodeAt(r, k)}))
			return r
		}
		if eb.Kind() == types.Int32 {
			return c.App("runes2str", sStr, a, s.Off, s.Len)
		}
	}
	if _, ok := fu.(*types.Slice); ok {
		if _, ok := tu.(*types.Slice); ok {
			return v
		}
	}
	if typeKey(fu) == typeKey(tu) {
		return v
	}
	unsup("conversion %s to %s", from, to)
	return nil
}

// runeToString is string(r).
func (ex *Exec) runeToString(st *State, r *Term) *Term {
	c := ex.c
	if r.op == "int" && r.ival.IsInt64() {
		return c.Str(string(rune(r.ival.Int64())))
	}
	t := c.App("rune2str", sStr, r)
	ascii := c.And(c.Le(c.Int(0), r), c.Lt(r, c.Int(128)))
	if !r.hasBV {
		st.assume(c.Implies(ascii, c.Eq(t, c.Raw("str.from_code", sStr, r))))
		st.assume(c.And(c.Le(c.Int(1), c.StrLen(t)), c.Le(c.StrLen(t), c.Int(4))))
		st.assume(c.Implies(c.Not(ascii), c.And(c.Le(c.Int(2), c.StrLen(t)), c.Le(c.Int(128), c.CodeAt(t, c.Int(0))))))
	}
	return t
}

func (ex *Exec) slice(fr *Frame, st *State, x *ssa.Slice) Val {
	c := ex.c
	opt := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return ex.term(fr, st, v)
	}
	lo, hi, max := opt(x.Low), opt(x.High), opt(x.Max)
	if lo == nil {
		lo = c.Int(0)
	}
	pos := ex.pos(x.Pos())
	switch xt := x.X.Type().Underlying().(type) {
	case *types.Basic:
		s := ex.term(fr, st, x.X)
		n := c.StrLen(s)
		if hi == nil {
			hi = n
		}
		ex.oblige(st, "slice in range", "", c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, n)), pos)
		return ex.substr(s, lo, hi)
	case *types.Slice:
		s := ex.value(fr, st, x.X).(SliceV)
		if hi == nil {
			hi = s.Len
		}
		if max == nil {
			max = s.Cap
		}
		ex.oblige(st, "slice in range", "", c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, max), c.Le(max, s.Cap)), pos)
		return SliceV{s.Arr, c.Add(s.Off, lo), c.Sub(hi, lo), c.Sub(max, lo)}
	case *types.Pointer:
		at := xt.Elem().Underlying().(*types.Array)
		p := ex.ptr(ex.value(fr, st, x.X), x.X.Type())
		if p.Kind != pObj || p.Path != "" {
			unsup("slice of an embedded array")
		}
		n := c.Int(at.Len())
		if hi == nil {
			hi = n
		}
		if max == nil {
			max = n
		}
		ex.oblige(st, "slice in range", "", c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, max), c.Le(max, n)), pos)
		return SliceV{p.Idx[0], lo, c.Sub(hi, lo), c.Sub(max, lo)}
	}
	unsup("slice of %s", x.X.Type())
	return nil
}

func (ex *Exec) substr(s, lo, hi *Term) *Term {
	c := ex.c
	if s.op == "str" && lo.op == "int" && hi.op == "int" && lo.ival.Sign() >= 0 && hi.ival.Cmp(big.NewInt(int64(len(s.sval)))) <= 0 && lo.ival.Cmp(hi.ival) <= 0 {
		return c.Str(s.sval[lo.ival.Int64():hi.ival.Int64()])
	}
	if lo.op == "int" && lo.ival.Sign() == 0 && hi.op == "str.len" && hi.args[0] == s {
		return s
	}
	return c.Raw("str.substr", sStr, s, lo, c.Sub(hi, lo))
}

func (ex *Exec) implementsTerm(tag *Term, it types.Type) *Term {
	c := ex.c
	iface := it.Underlying().(*types.Interface)
	if iface.Empty() {
		return c.Not(c.Eq(tag, c.Int(0)))
	}
	if tag.op == "int" {
		if t, ok := ex.v.typeByID[tag.ival.Int64()]; ok {
			return c.Bool(types.Implements(t, iface))
		}
		return c.False()
	}
	return c.And(c.Not(c.Eq(tag, c.Int(0))), c.App("implements$"+typeKey(it), sBool, tag))
}

func (ex *Exec) typeAssert(fr *Frame, st *State, x *ssa.TypeAssert) Val {
	c := ex.c
	iv := ex.value(fr, st, x.X).(IfaceV)
	pos := ex.pos(x.Pos())
	if isIface(x.AssertedType) {
		var ok *Term
		if iv.Dyn != nil {
			ok = c.Bool(types.Implements(iv.Dyn, x.AssertedType.Underlying().(*types.Interface)))
		} else {
			ok = ex.implementsTerm(iv.Tag, x.AssertedType)
			// relate to the known concrete types
			if ok.op != "bool" && !x.AssertedType.Underlying().(*types.Interface).Empty() {
				for _, id := range sortedInt64(ex.v.typeByID) {
					t := ex.v.typeByID[id]
					im := types.Implements(t, x.AssertedType.Underlying().(*types.Interface))
					a := c.App("implements$"+typeKey(x.AssertedType), sBool, c.Int(id))
					if im {
						st.assume(a)
					} else {
						st.assume(c.Not(a))
					}
				}
				// static type already guarantees it
				if types.Implements(x.X.Type(), x.AssertedType.Underlying().(*types.Interface)) {
					ok = c.Not(c.Eq(iv.Tag, c.Int(0)))
				}
			}
		}
		if x.CommaOk {
			zero := IfaceV{Tag: c.Int(0), Pay: ex.nilBox()}
			if ok.isTrue() {
				return TupleV{iv, ok}
			}
			if ok.isFalse() {
				return TupleV{zero, ok}
			}
			return TupleV{IfaceV{Tag: c.Ite(ok, iv.Tag, zero.Tag), Pay: c.Ite(ok, iv.Pay, zero.Pay)}, ok}
		}
		ex.oblige(st, "type assertion holds", shortType(x.AssertedType), ok, pos)
		return iv
	}
	var ok *Term
	if iv.Dyn != nil {
		ok = c.Bool(types.Identical(iv.Dyn, x.AssertedType))
	} else {
		ok = c.Eq(iv.Tag, c.Int(ex.v.typeID(x.AssertedType)))
	}
	if ok.isFalse() {
		if x.CommaOk {
			return TupleV{ex.zero(x.AssertedType), ok}
		}
		ex.oblige(st, "type assertion holds", shortType(x.AssertedType), ok, pos)
		return ex.zero(x.AssertedType)
	}
	v, ext := ex.unboxAs(iv, x.AssertedType)
	if !ok.isTrue() {
		st.assume(c.Implies(ok, c.And(append(ex.facts(v, x.AssertedType, st.alloc), ext)...)))
	}
	if x.CommaOk {
		return TupleV{ex.iteVal(ok, v, ex.zero(x.AssertedType), x.AssertedType), ok}
	}
	ex.oblige(st, "type assertion holds", shortType(x.AssertedType), ok, pos)
	return v
}

// Iteration -----------------------------------------------------------------

func (ex *Exec) makeIter(fr *Frame, st *State, x *ssa.Range) Val {
	ex.c.names["iter"]++
	id := fmt.Sprintf("iter%d", ex.c.names["iter"])
	if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
		it := IterV{ID: id, Map: ex.term(fr, st, x.X), MapT: mt}
		st.set("iter$"+id, ex.c.ConstArr(ex.keySort(mt), ex.c.False()), nil)
		st.set("iter$"+id+"n", ex.c.Int(0), nil)
		it.Dom0, it.Len0 = ex.mapDom(st, mt, it.Map), ex.mapLen(st, mt, it.Map)
		return it
	}
	it := IterV{ID: id, Str: ex.term(fr, st, x.X)}
	st.set("iter$"+id, ex.c.Int(0), nil)
	return it
}

func (ex *Exec) next(fr *Frame, st *State, x *ssa.Next) Val {
	c := ex.c
	it := ex.value(fr, st, x.Iter).(IterV)
	if it.Map != nil {
		vis := st.heap["iter$"+it.ID]
		ks := ex.keySort(it.MapT)
		k := c.Fresh("key", ks)
		ok := c.Fresh("more", sBool)
		dom := ex.mapDom(st, it.MapT, it.Map)
		nonnil := c.Not(c.Eq(it.Map, c.Int(0)))
		st.assume(c.Implies(ok, c.And(nonnil, c.Select(dom, k), c.Not(c.Select(vis, k)))))
		q := c.FreshBVar("k", ks)
		st.assume(c.Implies(c.And(c.Not(ok), nonnil), c.Forall([]*Term{q}, c.Implies(c.Select(dom, q), c.Select(vis, q)), []*Term{c.Select(dom, q)})))
		kv := ex.keyVal(k, it.MapT)
		for _, f := range ex.facts(kv, it.MapT.Key(), st.alloc) {
			st.assume(c.Implies(ok, f))
		}
		val := ex.mapGetRaw(st, it.MapT, it.Map, k)
		// As long as the keys are those at the start, each is visited once.
		n := st.heap["iter$"+it.ID+"n"]
		same := c.Eq(dom, it.Dom0)
		st.assume(c.Implies(c.And(nonnil, ok, same), c.Lt(n, it.Len0)))
		st.assume(c.Implies(c.And(nonnil, c.Not(ok), same), c.Eq(n, it.Len0)))
		st.set("iter$"+it.ID+"n", c.Ite(ok, c.Add(n, c.Int(1)), n), nil)
		st.set("iter$"+it.ID, c.Ite(ok, c.Store(vis, k, c.True()), vis), nil)
		st.heap["iterkey$"+it.ID] = k
		return TupleV{ok, kv, val}
	}
	pos := st.heap["iter$"+it.ID]
	s := it.Str
	ok := c.Lt(pos, c.StrLen(s))
	r, w := ex.decodeRune(st, s, pos, ok)
	st.set("iter$"+it.ID, c.Ite(ok, c.Add(pos, w), pos), nil)
	return TupleV{ok, pos, r}
}

// decodeRune gives the rune of s at byte position pos and its width.
func (ex *Exec) decodeRune(st *State, s, pos, valid *Term) (*Term, *Term) {
	c := ex.c
	r := c.App("runeat", sInt, s, pos)
	w := c.App("runewidth", sInt, s, pos)
	b := c.CodeAt(s, pos)
	facts := c.And(c.Le(c.Int(1), w), c.Le(w, c.Int(4)), c.Le(c.Add(pos, w), c.StrLen(s)), c.Le(c.Int(0), r), c.Le(r, c.Int(0x10FFFF)),
		c.Le(c.Int(0), b), c.Le(b, c.Int(255)),
		c.Implies(c.Lt(b, c.Int(128)), c.And(c.Eq(r, b), c.Eq(w, c.Int(1)))),
		c.Implies(c.Ge(b, c.Int(128)), c.Ge(r, c.Int(128))))
	if !facts.hasBV {
		st.assume(c.Implies(valid, facts))
	}
	return r, w
}

// Panics and defers ---------------------------------------------------------

func (ex *Exec) runDefers(fr *Frame, st *State, ds []deferred, k func(*State)) {
	if len(ds) == 0 {
		k(st)
		return
	}
	d := ds[len(ds)-1]
	ex.call(fr, st, &d.call.Call, d.call, d.fn, d.args, func(s *State, _ []Val) {
		ex.runDefers(fr, s, ds[:len(ds)-1], k)
	})
}

func (ex *Exec) doPanic(fr *Frame, st *State, why string) {
	if ex.suppress > 0 {
		return
	}
	for _, a := range fr.loops {
		if a.dry {
			return
		}
	}
	ds := fr.defers
	fr = fr.clone()
	fr.defers = nil
	ex.runDefers(fr, st, ds, func(s *State) {
		if fr.parent != nil {
			ex.doPanic(fr.parent, s, why)
			return
		}
		ex.rootPanic(s, why)
	})
}

func sortedInt64(m map[int64]types.Type) []int64 {
	var ks []int64
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	return ks
}

// defineClosure assumes what the contract of a function literal defines about
// the function value: meanings of logical functions at that value, in terms of
// what it has captured. The body of the literal is verified against the same
// terms by its postconditions.
func (ex *Exec) defineClosure(st *State, f *FuncV, t types.Type) {
	ct := ex.contractFor(f.Fn)
	if ct == nil || len(ct.Defines) == 0 {
		return
	}
	f.Ref = ex.c.Fresh("closure", sInt)
	st.assume(ex.c.Lt(ex.c.Int(0), f.Ref))
	ex.assumeDefines(st, *f, t)
}

func (ex *Exec) assumeDefines(st *State, f FuncV, t types.Type) {
	ct := ex.contractFor(f.Fn)
	if ct == nil || len(ct.Defines) == 0 {
		return
	}
	vars := map[string]TV{"self": {V: f, T: t}}
	for i, fv := range f.Fn.FreeVars {
		vars[fv.Name()] = TV{V: f.Bind[i], T: fv.Type(), Addr: true}
	}
	env := &specEnv{ex: ex, st: st, old: st, vars: vars, pkg: ct.Pkg}
	for _, cl := range ct.Defines {
		ex.v.trustUsed["the meaning of "+shortFn(f.Name)+" as a value is what it captured when it was made"] = true
		st.assume(env.boolOf(cl.E))
	}
}
