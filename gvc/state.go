package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type pcNode struct {
	t      *Term
	prev   *pcNode
	n      int
	branch bool // a branch decision (not a fact)
}

// State is the symbolic machine state on one path.
type State struct {
	ex         *Exec
	pc         *pcNode
	heap       map[string]*Term
	epoch      int
	epochAlloc *Term
	alloc      *Term
	trace      []string
}

func (s *State) clone() *State {
	n := &State{ex: s.ex, pc: s.pc, heap: make(map[string]*Term, len(s.heap)+4), epoch: s.epoch, epochAlloc: s.epochAlloc, alloc: s.alloc}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.trace = s.trace[:len(s.trace):len(s.trace)]
	return n
}

func (s *State) has(t *Term) bool {
	for p := s.pc; p != nil; p = p.prev {
		if p.t == t {
			return true
		}
	}
	return false
}

func (s *State) assume(t *Term) { s.assume0(t, false) }

// assumeBranch records a branch decision.
func (s *State) assumeBranch(t *Term) { s.assume0(t, true) }

func (s *State) assume0(t *Term, branch bool) {
	if t.isTrue() || t.hasBV {
		// A fact about a bound variable says nothing outside its quantifier.
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			s.assume0(a, branch)
		}
		return
	}
	if s.has(t) {
		return
	}
	n := 1
	if s.pc != nil {
		n = s.pc.n + 1
	}
	s.pc = &pcNode{t: t, prev: s.pc, n: n, branch: branch}
}

func (s *State) hyps() []*Term {
	if s.pc == nil {
		return nil
	}
	out := make([]*Term, s.pc.n)
	for p := s.pc; p != nil; p = p.prev {
		out[p.n-1] = p.t
	}
	return out
}

func (s *State) infeasible() bool { return s.pc != nil && s.pc.t.isFalse() }

// get reads a heap variable.
func (s *State) get(name, srt string) *Term {
	if t, ok := s.heap[name]; ok {
		return t
	}
	s.ex.v.heapSorts[name] = srt
	epoch := s.epoch
	if strings.HasPrefix(name, "L:") {
		epoch = 0
	}
	t := s.ex.c.Const(sanitize(fmt.Sprintf("%s@%d", name, epoch)), srt)
	s.heap[name] = t
	alloc := s.epochAlloc
	if s.epoch == 0 {
		alloc = s.ex.entryAlloc()
	}
	if alloc != nil {
		s.ex.typeHeap(name, t, alloc)
	}
	return t
}

func (s *State) set(name string, t *Term, idx *Term) {
	s.ex.v.heapSorts[name] = t.sort
	if _, ok := s.heap[name]; !ok {
		s.get(name, t.sort)
	}
	s.heap[name] = t
	for _, r := range s.ex.recorders {
		r.add(name, idx)
	}
}

// recorder collects the heap writes of a dry run of a loop body.
type recorder struct {
	writes map[string]map[*Term]bool // nil index = whole variable
}

func (r *recorder) add(name string, idx *Term) {
	if r.writes[name] == nil {
		r.writes[name] = map[*Term]bool{}
	}
	r.writes[name][idx] = true
}

// typeHeap records the typing axiom of a heap symbol: references stored in
// allocated objects are allocated.
func (ex *Exec) typeHeap(name string, t, alloc *Term) {
	c := ex.c
	if t.op != "var" || c.symAx[t.sval] != nil {
		return
	}
	switch ex.v.leafKind[name] {
	case lkRef, lkSliceArr:
	default:
		return
	}
	var bvs, pre []*Term
	x := t
	for strings.HasPrefix(x.sort, "(Array ") {
		ks, _ := splitArr(x.sort)
		b := c.FreshBVar("r", ks)
		if len(bvs) == 0 {
			pre = append(pre, c.Le(c.Int(0), b), c.Lt(b, alloc))
		}
		bvs = append(bvs, b)
		x = c.Select(x, b)
	}
	f := c.And(c.Le(c.Int(0), x), c.Lt(x, alloc))
	if len(bvs) > 0 {
		f = c.Forall(bvs, c.Implies(c.And(pre...), f), []*Term{x})
	}
	c.symAx[t.sval] = []*Term{f}
}

// typeInner is typeHeap for the contents of one object (array or map).
func (ex *Exec) typeInner(name string, t, alloc *Term) {
	c := ex.c
	if t.op != "var" || c.symAx[t.sval] != nil {
		return
	}
	switch ex.v.leafKind[name] {
	case lkRef, lkSliceArr:
	default:
		return
	}
	x := t
	var bvs []*Term
	for strings.HasPrefix(x.sort, "(Array ") {
		ks, _ := splitArr(x.sort)
		b := c.FreshBVar("r", ks)
		bvs = append(bvs, b)
		x = c.Select(x, b)
	}
	f := c.And(c.Le(c.Int(0), x), c.Lt(x, alloc))
	if len(bvs) > 0 {
		f = c.Forall(bvs, f, []*Term{x})
	}
	c.symAx[t.sval] = []*Term{f}
}

// newRef allocates a fresh reference.
func (s *State) newRef() *Term {
	r := s.alloc
	s.alloc = s.ex.c.Add(s.alloc, s.ex.c.Int(1))
	return r
}

// Memory --------------------------------------------------------------------

func heapName(p PtrV, path string) string {
	switch p.Kind {
	case pObj:
		return "H:" + typeKey(p.Root) + p.Path + path
	case pElem:
		return "E:" + typeKey(p.Root) + p.Path + path
	}
	return "G:" + p.Glob + p.Path + path
}

func (ex *Exec) readLeaf(st *State, p PtrV, l Leaf) *Term {
	c := ex.c
	n := heapName(p, l.Path)
	ex.v.leafKind[n] = l.Kind
	switch p.Kind {
	case pObj:
		return c.Select(st.get(n, arr(sInt, l.Sort)), p.Idx[0])
	case pElem:
		return c.Select(c.Select(st.get(n, arr(sInt, arr(sInt, l.Sort))), p.Idx[0]), p.Idx[1])
	}
	return st.get(n, l.Sort)
}

func (ex *Exec) writeLeaf(st *State, p PtrV, l Leaf, v *Term) {
	c := ex.c
	if l.Kind == lkRef {
		if _, ok := ex.v.interior[v]; ok {
			unsup("interior pointer stored in memory")
		}
	}
	n := heapName(p, l.Path)
	ex.v.leafKind[n] = l.Kind
	switch p.Kind {
	case pObj:
		st.set(n, c.Store(st.get(n, arr(sInt, l.Sort)), p.Idx[0], v), p.Idx[0])
	case pElem:
		h := st.get(n, arr(sInt, arr(sInt, l.Sort)))
		st.set(n, c.Store(h, p.Idx[0], c.Store(c.Select(h, p.Idx[0]), p.Idx[1], v)), p.Idx[0])
	default:
		st.set(n, v, nil)
	}
}

// load reads the pointee of p.
func (ex *Exec) load(st *State, p PtrV) Val {
	if at, ok := p.Elem.Underlying().(*types.Array); ok && p.Kind == pObj && p.Path == "" {
		a := ArrayV{}
		for i := int64(0); i < at.Len(); i++ {
			a.E = append(a.E, ex.load(st, PtrV{Kind: pElem, Root: at.Elem(), Idx: []*Term{p.Idx[0], ex.c.Int(i)}, Elem: at.Elem()}))
		}
		return a
	}
	if p.Kind == pGlobal {
		if v, ok := ex.constGlobal(st, p); ok {
			return v
		}
	}
	var ts []*Term
	for _, l := range leaves(p.Elem) {
		ts = append(ts, ex.readLeaf(st, p, l))
	}
	v := ex.unpack(ts, p.Elem)
	if !ex.specMode {
		for _, f := range ex.loadFacts(v, p.Elem, st.alloc) {
			if !f.hasBV {
				st.assume(f)
			}
		}
	}
	return v
}

// loadFacts is facts restricted to leaves that were read from unknown memory.
func (ex *Exec) loadFacts(v Val, t types.Type, alloc *Term) []*Term {
	ts := ex.pack(v, t)
	any := false
	for _, x := range ts {
		if x.op == "select" || x.op == "var" {
			any = true
		}
	}
	if !any {
		return nil
	}
	return ex.facts(v, t, alloc)
}

func (ex *Exec) store(st *State, p PtrV, v Val) {
	if at, ok := p.Elem.Underlying().(*types.Array); ok && p.Kind == pObj && p.Path == "" {
		for i, e := range v.(ArrayV).E {
			ex.store(st, PtrV{Kind: pElem, Root: at.Elem(), Idx: []*Term{p.Idx[0], ex.c.Int(int64(i))}, Elem: at.Elem()}, e)
		}
		return
	}
	ts := ex.pack(v, p.Elem)
	for i, l := range leaves(p.Elem) {
		ex.writeLeaf(st, p, l, ts[i])
	}
}

// Slices --------------------------------------------------------------------

func (ex *Exec) elemPtr(s SliceV, elem types.Type, i *Term) PtrV {
	return PtrV{Kind: pElem, Root: elem, Idx: []*Term{s.Arr, ex.c.Add(s.Off, i)}, Elem: elem}
}

// elemArrays returns, per leaf of elem, the heap name.
func elemHeap(elem types.Type, l Leaf) string { return "E:" + typeKey(elem) + l.Path }

func (ex *Exec) elemArr(st *State, elem types.Type, l Leaf, arrRef *Term) *Term {
	ex.v.leafKind[elemHeap(elem, l)] = l.Kind
	return ex.c.Select(st.get(elemHeap(elem, l), arr(sInt, arr(sInt, l.Sort))), arrRef)
}

func (ex *Exec) setElemArr(st *State, elem types.Type, l Leaf, arrRef, v *Term) {
	n := elemHeap(elem, l)
	ex.v.leafKind[n] = l.Kind
	h := st.get(n, arr(sInt, arr(sInt, l.Sort)))
	st.set(n, ex.c.Store(h, arrRef, v), arrRef)
}

// appendVals models append(s, vals...) exactly: in place when the capacity
// suffices and into a new array otherwise (same offset, which Go cannot observe).
func (ex *Exec) appendVals(st *State, s SliceV, elem types.Type, vals []Val) SliceV {
	c := ex.c
	n := int64(len(vals))
	if n == 0 {
		return s
	}
	newLen := c.Add(s.Len, c.Int(n))
	fits := c.Le(newLen, s.Cap)
	ref := st.newRef()
	ncap := c.Fresh("cap", sInt)
	st.assume(c.Le(newLen, ncap))
	st.assume(c.Le(c.Add(s.Off, ncap), c.BigInt(maxInt)))
	tgt := c.Ite(fits, s.Arr, ref)
	for li, l := range leaves(elem) {
		a := ex.elemArr(st, elem, l, s.Arr)
		for j, v := range vals {
			a = c.Store(a, c.Add(s.Off, c.Add(s.Len, c.Int(int64(j)))), ex.pack(v, elem)[li])
		}
		ex.setElemArr(st, elem, l, tgt, a)
	}
	return SliceV{tgt, s.Off, newLen, c.Ite(fits, s.Cap, ncap)}
}

// appendSlice models append(s, t...).
func (ex *Exec) appendSlice(st *State, s SliceV, elem types.Type, t SliceV) SliceV {
	c := ex.c
	if t.Len.op == "int" && t.Len.ival.IsInt64() && t.Len.ival.Int64() <= 16 {
		var vals []Val
		for i := int64(0); i < t.Len.ival.Int64(); i++ {
			vals = append(vals, ex.load(st, ex.elemPtr(t, elem, c.Int(i))))
		}
		return ex.appendVals(st, s, elem, vals)
	}
	newLen := c.Add(s.Len, t.Len)
	// Go panics (out of memory) rather than overflowing the length.
	st.assume(c.Le(newLen, c.BigInt(maxInt)))
	fits := c.Le(newLen, s.Cap)
	ref := st.newRef()
	ncap := c.Fresh("cap", sInt)
	st.assume(c.Le(newLen, ncap))
	st.assume(c.Le(c.Add(s.Off, ncap), c.BigInt(maxInt)))
	tgt := c.Ite(fits, s.Arr, ref)
	for _, l := range leaves(elem) {
		src := ex.elemArr(st, elem, l, t.Arr)
		dst := ex.elemArr(st, elem, l, s.Arr)
		a := c.Fresh("appended", arr(sInt, l.Sort))
		k := c.FreshBVar("k", sInt)
		start := c.Add(s.Off, s.Len)
		inNew := c.And(c.Le(start, k), c.Lt(k, c.Add(start, t.Len)))
		st.assume(c.Forall([]*Term{k}, c.Eq(c.Select(a, k), c.Ite(inNew, c.Select(src, c.Add(t.Off, c.Sub(k, start))), c.Select(dst, k))), []*Term{c.Select(a, k)}))
		ex.setElemArr(st, elem, l, tgt, a)
	}
	return SliceV{tgt, s.Off, newLen, c.Ite(fits, s.Cap, ncap)}
}

// copySlice models copy(dst, src).
func (ex *Exec) copySlice(st *State, dst SliceV, elem types.Type, srcLen *Term, srcAt func(l Leaf, i *Term) *Term) *Term {
	c := ex.c
	n := c.Ite(c.Le(dst.Len, srcLen), dst.Len, srcLen)
	for _, l := range leaves(elem) {
		old := ex.elemArr(st, elem, l, dst.Arr)
		a := c.Fresh("copied", arr(sInt, l.Sort))
		k := c.FreshBVar("k", sInt)
		in := c.And(c.Le(dst.Off, k), c.Lt(k, c.Add(dst.Off, n)))
		st.assume(c.Forall([]*Term{k}, c.Eq(c.Select(a, k), c.Ite(in, srcAt(l, c.Sub(k, dst.Off)), c.Select(old, k))), []*Term{c.Select(a, k)}))
		ex.setElemArr(st, elem, l, dst.Arr, a)
	}
	return n
}

func (ex *Exec) newSlice(st *State, elem types.Type, ln, cp *Term) SliceV {
	ref := st.newRef()
	for _, l := range leaves(elem) {
		ex.setElemArr(st, elem, l, ref, ex.c.ConstArr(sInt, ex.zeroLeaf(l)))
	}
	return SliceV{ref, ex.c.Int(0), ln, cp}
}

// Maps ----------------------------------------------------------------------

func (ex *Exec) keySort(mt *types.Map) string {
	ls := leaves(mt.Key())
	if len(ls) == 1 {
		return ls[0].Sort
	}
	return sBox
}

func (ex *Exec) keyTerm(st *State, k Val, mt *types.Map) *Term {
	ls := leaves(mt.Key())
	ts := ex.pack(k, mt.Key())
	if len(ls) == 1 {
		return ts[0]
	}
	key := typeKey(mt.Key())
	t := ex.c.App("key$"+key, sBox, ts...)
	if sym := sanitize("key$" + key); ex.c.symAx[sym] == nil {
		// keys and their components correspond one to one
		var bvs, back []*Term
		for i, x := range ts {
			bvs = append(bvs, ex.c.FreshBVar(fmt.Sprintf("c%d", i), x.sort))
		}
		kt := ex.c.App("key$"+key, sBox, bvs...)
		var cs []*Term
		b := ex.c.FreshBVar("b", sBox)
		for i, x := range ts {
			u := fmt.Sprintf("unkey$%s$%d", key, i)
			cs = append(cs, ex.c.Eq(ex.c.App(u, x.sort, kt), bvs[i]))
			back = append(back, ex.c.App(u, x.sort, b))
		}
		ex.c.symAx[sym] = []*Term{ex.c.Forall(bvs, ex.c.And(cs...), []*Term{kt}),
			ex.c.Forall([]*Term{b}, ex.c.Eq(ex.c.App("key$"+key, sBox, back...), b), []*Term{back[0]})}
	}
	if st != nil {
		for i, x := range ts {
			f := ex.c.Eq(ex.c.App(fmt.Sprintf("unkey$%s$%d", key, i), x.sort, t), x)
			if !f.hasBV {
				st.assume(f)
			}
		}
	}
	return t
}

func (ex *Exec) keyVal(t *Term, mt *types.Map) Val {
	ls := leaves(mt.Key())
	if len(ls) == 1 {
		return ex.unpack([]*Term{t}, mt.Key())
	}
	key := typeKey(mt.Key())
	if t.op == sanitize("key$"+key) {
		return ex.unpack(t.args, mt.Key())
	}
	var ts []*Term
	for i, l := range ls {
		ts = append(ts, ex.c.App(fmt.Sprintf("unkey$%s$%d", key, i), l.Sort, t))
	}
	return ex.unpack(ts, mt.Key())
}

func mapName(mt *types.Map, part string) string {
	return "M:" + typeKey(mt.Key()) + "=>" + typeKey(mt.Elem()) + "#" + part
}

func (ex *Exec) mapDom(st *State, mt *types.Map, m *Term) *Term {
	return ex.c.Select(st.get(mapName(mt, "dom"), arr(sInt, arr(ex.keySort(mt), sBool))), m)
}

func (ex *Exec) mapHas(st *State, mt *types.Map, m, k *Term) *Term {
	return ex.c.And(ex.c.Not(ex.c.Eq(m, ex.c.Int(0))), ex.c.Select(ex.mapDom(st, mt, m), k))
}

func (ex *Exec) mapGetRaw(st *State, mt *types.Map, m, k *Term) Val {
	var ts []*Term
	for _, l := range leaves(mt.Elem()) {
		ex.v.leafKind[mapName(mt, "val"+l.Path)] = l.Kind
		h := st.get(mapName(mt, "val"+l.Path), arr(sInt, arr(ex.keySort(mt), l.Sort)))
		ts = append(ts, ex.c.Select(ex.c.Select(h, m), k))
	}
	v := ex.unpack(ts, mt.Elem())
	if !ex.specMode {
		for _, f := range ex.loadFacts(v, mt.Elem(), st.alloc) {
			if !f.hasBV {
				st.assume(f)
			}
		}
	}
	return v
}

func (ex *Exec) mapLen(st *State, mt *types.Map, m *Term) *Term {
	return ex.c.Ite(ex.c.Eq(m, ex.c.Int(0)), ex.c.Int(0), ex.c.Select(st.get(mapName(mt, "len"), arr(sInt, sInt)), m))
}

func (ex *Exec) mapSet(st *State, mt *types.Map, m, k *Term, v Val) {
	c := ex.c
	dn := mapName(mt, "dom")
	had := c.Select(ex.mapDom(st, mt, m), k)
	ln := mapName(mt, "len")
	lh := st.get(ln, arr(sInt, sInt))
	st.set(ln, c.Store(lh, m, c.Ite(had, c.Select(lh, m), c.Add(c.Select(lh, m), c.Int(1)))), m)
	d := st.get(dn, arr(sInt, arr(ex.keySort(mt), sBool)))
	st.set(dn, c.Store(d, m, c.Store(c.Select(d, m), k, c.True())), m)
	ts := ex.pack(v, mt.Elem())
	for i, l := range leaves(mt.Elem()) {
		n := mapName(mt, "val"+l.Path)
		ex.v.leafKind[n] = l.Kind
		h := st.get(n, arr(sInt, arr(ex.keySort(mt), l.Sort)))
		st.set(n, c.Store(h, m, c.Store(c.Select(h, m), k, ts[i])), m)
	}
}

func (ex *Exec) mapDelete(st *State, mt *types.Map, m, k *Term) {
	c := ex.c
	dn := mapName(mt, "dom")
	had := c.Select(ex.mapDom(st, mt, m), k)
	ln := mapName(mt, "len")
	lh := st.get(ln, arr(sInt, sInt))
	st.set(ln, c.Store(lh, m, c.Ite(had, c.Sub(c.Select(lh, m), c.Int(1)), c.Select(lh, m))), m)
	d := st.get(dn, arr(sInt, arr(ex.keySort(mt), sBool)))
	st.set(dn, c.Store(d, m, c.Store(c.Select(d, m), k, c.False())), m)
}

func (ex *Exec) newMap(st *State, mt *types.Map) *Term {
	c := ex.c
	ref := st.newRef()
	dn := mapName(mt, "dom")
	d := st.get(dn, arr(sInt, arr(ex.keySort(mt), sBool)))
	st.set(dn, c.Store(d, ref, c.ConstArr(ex.keySort(mt), c.False())), ref)
	ln := mapName(mt, "len")
	lh := st.get(ln, arr(sInt, sInt))
	st.set(ln, c.Store(lh, ref, c.Int(0)), ref)
	return ref
}

// Frames --------------------------------------------------------------------

// TV is a value with its Go type (nil type for purely logical sorts).
type TV struct {
	V    Val
	T    types.Type
	Addr bool      // V is the address of the variable
	Pos  token.Pos // of the variable, if it is in memory
}

type deferred struct {
	call *ssa.Defer
	fn   Val
	args []Val
}

type loopAct struct {
	loop    *loopInfo
	unroll  bool
	count   int
	dry     bool
	ctx     *loopCtx
	names   map[string]TV // of the variables at the head of the arbitrary iteration
	dryExit func(*State)
}

// Frame is the activation of one function on a path.
type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	names  map[string]TV
	defers []deferred
	parent *Frame
	depth  int
	loops  map[*ssa.BasicBlock]*loopAct
	site   string
	k      func(*State, []Val)
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]Val, len(f.env)+4)
	for k, v := range f.env {
		n.env[k] = v
	}
	n.names = make(map[string]TV, len(f.names)+2)
	for k, v := range f.names {
		n.names[k] = v
	}
	n.loops = make(map[*ssa.BasicBlock]*loopAct, len(f.loops))
	for k, v := range f.loops {
		a := *v
		n.loops[k] = &a
	}
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	return &n
}

// Loops ---------------------------------------------------------------------

type loopInfo struct {
	header  *ssa.BasicBlock
	blocks  map[*ssa.BasicBlock]bool
	ordinal int
}

var loopCache = map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{}

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	if l, ok := loopCache[fn]; ok {
		return l
	}
	res := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			li := res[h]
			if li == nil {
				li = &loopInfo{header: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
				res[h] = li
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if li.blocks[x] {
					continue
				}
				li.blocks[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	var ls []*loopInfo
	for _, l := range res {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool {
		pi, pj := loopPos(ls[i]), loopPos(ls[j])
		if pi != pj {
			return pi < pj
		}
		return ls[i].header.Index < ls[j].header.Index
	})
	for i, l := range ls {
		l.ordinal = i + 1
	}
	loopCache[fn] = res
	return res
}

// loopPos is the smallest source position inside the loop.
func loopPos(l *loopInfo) int {
	best := int(^uint(0) >> 1)
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			if p := int(in.Pos()); p > 0 && p < best {
				best = p
			}
		}
	}
	return best
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func shortFn(s string) string { return strings.ReplaceAll(s, repoModule+"/", "") }
