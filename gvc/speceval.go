package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// specEnv evaluates specification expressions in a state.
type specEnv struct {
	ex      *Exec
	st      *State // state the expression talks about
	sink    *State // state whose path condition receives typing facts (default st)
	old     *State // state for old(...)
	oldVars map[string]TV
	vars    map[string]TV
	pkg     string
	lc      *loopCtx
	bound   int // number of enclosing quantifiers
	depth   int
}

// mathMap is the type of ghost maps (total SMT arrays).
type mathMap struct{ K, V types.Type }

func (m *mathMap) Underlying() types.Type { return m }
func (m *mathMap) String() string         { return "ghost map[" + m.K.String() + "]" + m.V.String() }

var tInt = types.Typ[types.Int]
var tBool = types.Typ[types.Bool]
var tString = types.Typ[types.String]
var tNil = types.Typ[types.UntypedNil]

func (e *specEnv) fail(x *Expr, f string, a ...interface{}) {
	pos := ""
	if x != nil {
		pos = x.Pos + ": "
	}
	panic(specErr{pos + fmt.Sprintf(f, a...)})
}

func (e *specEnv) clone() *specEnv {
	n := *e
	n.vars = make(map[string]TV, len(e.vars)+2)
	for k, v := range e.vars {
		n.vars[k] = v
	}
	return &n
}

func (e *specEnv) factSink() *State {
	if e.sink != nil {
		return e.sink
	}
	return e.st
}

func (e *specEnv) assumeFacts(fs []*Term) {
	s := e.factSink()
	for _, f := range fs {
		if !f.hasBV {
			s.assume(f)
		}
	}
}

func (e *specEnv) boolOf(x *Expr) *Term {
	v := e.eval(x)
	t, ok := v.V.(*Term)
	if !ok || t.sort != sBool {
		e.fail(x, "expected a boolean")
	}
	return t
}

func (e *specEnv) termOf(x *Expr) *Term {
	v := e.eval(x)
	t, ok := v.V.(*Term)
	if !ok {
		e.fail(x, "expected a scalar, got %T", v.V)
	}
	return t
}

// bindResult names a result of a call in the postcondition.
func (e *specEnv) bindResult(i, n int, name string, ct *Contract, v TV) {
	if n == 1 {
		e.vars["result"] = v
	}
	e.vars[fmt.Sprintf("result%d", i)] = v
	if i == n-1 && typeKey(v.T) == "error" {
		e.vars["err"] = v
	}
	if name != "" && name != "_" {
		e.vars[name] = v
	}
	if ct != nil && i < len(ct.Results) {
		e.vars[ct.Results[i]] = v
	}
}

// loadSpec reads memory and records the typing facts of what was read.
func (e *specEnv) loadSpec(p PtrV) Val {
	ex := e.ex
	save := ex.specMode
	ex.specMode = true
	v := ex.load(e.st, p)
	ex.specMode = save
	e.assumeFacts(ex.loadFacts(v, p.Elem, e.st.alloc))
	return v
}

func (e *specEnv) resolveType(x *Expr, t string) types.Type {
	if r := e.typeOf(t); r != nil {
		return r
	}
	e.fail(x, "unknown type %s", t)
	return nil
}

func (e *specEnv) typeOf(t string) types.Type {
	t = strings.TrimSpace(t)
	switch {
	case strings.HasPrefix(t, "*"):
		if r := e.typeOf(t[1:]); r != nil {
			return types.NewPointer(r)
		}
		return nil
	case strings.HasPrefix(t, "[]"):
		if r := e.typeOf(t[2:]); r != nil {
			return types.NewSlice(r)
		}
		return nil
	case strings.HasPrefix(t, "map["):
		i := strings.IndexByte(t, ']')
		k, v := e.typeOf(t[4:i]), e.typeOf(t[i+1:])
		if k != nil && v != nil {
			return types.NewMap(k, v)
		}
		return nil
	case strings.HasPrefix(t, "seq["):
		if r := e.typeOf(t[4 : len(t)-1]); r != nil {
			return &mathMap{tInt, r}
		}
		return nil
	case t == "any":
		return types.NewInterfaceType(nil, nil)
	}
	if o := types.Universe.Lookup(t); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type()
		}
	}
	pk := e.ex.v.prog.Typs[e.pkg]
	if i := strings.IndexByte(t, '.'); i >= 0 {
		pk = e.importNamed(t[:i])
		t = t[i+1:]
	}
	if pk == nil {
		return nil
	}
	if tn, ok := pk.Scope().Lookup(t).(*types.TypeName); ok {
		return tn.Type()
	}
	return nil
}

func (e *specEnv) importNamed(n string) *types.Package {
	pk := e.ex.v.prog.Typs[e.pkg]
	if pk == nil {
		// contracts that belong to no package of the repository
		return e.ex.v.prog.Typs[n]
	}
	for _, im := range pk.Imports() {
		if im.Name() == n {
			return im
		}
	}
	if pk.Name() == n {
		return pk
	}
	return nil
}

func (e *specEnv) lookup(n string) (TV, bool) {
	if v, ok := e.vars[n]; ok {
		return v, true
	}
	return TV{}, false
}

func (e *specEnv) deref(v TV) TV {
	if v.Addr {
		p := e.ex.ptr(v.V, v.T)
		return TV{V: e.loadSpec(p), T: p.Elem}
	}
	return v
}

func (e *specEnv) pkgObj(x *Expr, pk *types.Package, n string) (TV, bool) {
	ex := e.ex
	switch o := pk.Scope().Lookup(n).(type) {
	case *types.Const:
		if o.Val().Kind() == constant.Unknown {
			return TV{}, false
		}
		t := o.Type()
		if b, ok := t.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			t = types.Default(t)
			if o.Val().Kind() == constant.Int {
				z, _ := new(big.Int).SetString(o.Val().ExactString(), 10)
				return TV{V: ex.c.BigInt(z), T: tInt}, true
			}
		}
		return TV{V: ex.constOf(o.Val(), t), T: t}, true
	case *types.Var:
		g := pk.Path() + "." + n
		p := PtrV{Kind: pGlobal, Glob: g, Root: o.Type(), Elem: o.Type()}
		return TV{V: e.loadSpec(p), T: o.Type()}, true
	case *types.Func:
		fn := ex.v.prog.Prog.FuncValue(o)
		if fn != nil {
			return TV{V: FuncV{Fn: fn, Name: fn.String()}, T: o.Type()}, true
		}
	}
	return TV{}, false
}

func (e *specEnv) ident(x *Expr, n string) TV {
	if v, ok := e.lookup(n); ok {
		return e.deref(v)
	}
	ex := e.ex
	if n == "$i" && e.lc != nil {
		if v, ok := e.lc.iterCount(); ok {
			return TV{V: v, T: tInt}
		}
		e.fail(x, "no iteration counter")
	}
	if g, ok := ex.v.spec.Ghosts[n]; ok {
		return e.ghost(g)
	}
	if pk := ex.v.prog.Typs[e.pkg]; pk != nil {
		if v, ok := e.pkgObj(x, pk, n); ok {
			return v
		}
	}
	if d, ok := ex.v.spec.Preds[n]; ok && len(d.Params) == 0 {
		return e.applyPred(x, d, nil)
	}
	switch n {
	case "maxInt":
		return TV{V: ex.c.BigInt(maxInt), T: tInt}
	}
	e.fail(x, "unknown name %s", n)
	return TV{}
}

func (e *specEnv) ghostType(g GhostVar) types.Type {
	env := &specEnv{ex: e.ex, pkg: g.Pkg}
	if strings.HasPrefix(g.Type, "map[") {
		m := env.resolveType(nil, g.Type).(*types.Map)
		return &mathMap{m.Key(), m.Elem()}
	}
	return env.resolveType(nil, g.Type)
}

func (e *specEnv) ghostSort(t types.Type) string {
	if m, ok := t.(*mathMap); ok {
		return arr(e.ghostSort(m.K), e.ghostSort(m.V))
	}
	ls := leaves(t)
	if len(ls) != 1 {
		return sBox
	}
	return ls[0].Sort
}

// boxed gives the single term that stands for a value in ghost state.
func (e *specEnv) boxed(x *Expr, v TV, t types.Type) *Term {
	if _, ok := t.(*mathMap); ok {
		return v.V.(*Term)
	}
	v.V = e.coerce(x, v, t)
	if len(leaves(t)) == 1 {
		return e.scalar(x, TV{V: v.V, T: t})
	}
	return e.ex.keyTerm(e.sinkIfFree(), v.V, types.NewMap(t, tInt))
}

func (e *specEnv) unboxed(r *Term, t types.Type) Val {
	return e.ex.keyVal(r, types.NewMap(t, tInt))
}

func (e *specEnv) ghost(g GhostVar) TV {
	t := e.ghostType(g)
	v := e.st.get("ghost$"+g.Name, e.ghostSort(t))
	if _, ok := t.(*mathMap); ok {
		return TV{V: v, T: t}
	}
	return TV{V: e.unboxed(v, t), T: t}
}

func (e *specEnv) assignGhost(g GhostAssign) {
	switch g.Target.Op {
	case "id":
		gv, ok := e.ex.v.spec.Ghosts[g.Target.Name]
		if !ok {
			e.fail(g.Target, "not a ghost variable: %s", g.Target.Name)
		}
		v := e.eval(g.E)
		e.st.set("ghost$"+gv.Name, e.boxed(g.E, v, e.ghostType(gv)), nil)
	case "index":
		gv, ok := e.ex.v.spec.Ghosts[g.Target.Args[0].Name]
		if !ok {
			e.fail(g.Target, "not a ghost variable")
		}
		cur := e.ghost(gv)
		i := e.boxed(g.Target, e.eval(g.Target.Args[1]), cur.T.(*mathMap).K)
		v := e.boxed(g.E, e.eval(g.E), cur.T.(*mathMap).V)
		e.st.set("ghost$"+gv.Name, e.ex.c.Store(cur.V.(*Term), i, v), nil)
	default:
		e.fail(g.Target, "ghost target")
	}
}

// scalar gives the single term of a value.
func (e *specEnv) scalar(x *Expr, v TV) *Term {
	if t, ok := v.V.(*Term); ok {
		return t
	}
	ts := e.ex.pack(v.V, v.T)
	if len(ts) != 1 {
		e.fail(x, "composite value where a scalar is needed")
	}
	return ts[0]
}

func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (e *specEnv) eval(x *Expr) TV {
	ex, c := e.ex, e.ex.c
	e.depth++
	defer func() { e.depth-- }()
	if e.depth > 200 {
		e.fail(x, "expression too deep")
	}
	switch x.Op {
	case "int":
		z, ok := new(big.Int).SetString(x.Name, 0)
		if !ok {
			e.fail(x, "bad number %s", x.Name)
		}
		return TV{V: c.BigInt(z), T: tInt}
	case "str":
		return TV{V: c.Str(x.Name), T: tString}
	case "bool":
		return TV{V: c.Bool(x.Name == "true"), T: tBool}
	case "nil":
		return TV{V: nil, T: tNil}
	case "paren":
		return e.eval(x.Args[0])
	case "id":
		return e.ident(x, x.Name)
	case "old":
		if e.old == nil {
			e.fail(x, "old() not available here")
		}
		n := e.clone()
		n.sink = e.factSink()
		n.st = e.old
		if e.oldVars != nil {
			for k, v := range e.oldVars {
				n.vars[k] = v
			}
		}
		return n.eval(x.Args[0])
	case "let":
		v := e.eval(x.Args[0])
		n := e.clone()
		n.vars[x.Name] = v
		return n.eval(x.Args[1])
	case "forall", "exists":
		return e.quant(x)
	case "unop":
		switch x.Name {
		case "!":
			return TV{V: c.Not(e.boolOf(x.Args[0])), T: tBool}
		case "-":
			return TV{V: c.Sub(c.Int(0), e.termOf(x.Args[0])), T: tInt}
		case "*":
			v := e.eval(x.Args[0])
			p := ex.ptr(v.V, v.T)
			return TV{V: e.loadSpec(p), T: p.Elem}
		case "&":
			return e.addrOf(x.Args[0])
		}
	case "binop":
		return e.binop(x)
	case "field":
		return e.field(x)
	case "index":
		return e.index(x)
	case "slice":
		v := e.eval(x.Args[0])
		lo := c.Int(0)
		if x.Args[1] != nil {
			lo = e.termOf(x.Args[1])
		}
		switch s := v.V.(type) {
		case *Term:
			hi := c.StrLen(s)
			if x.Args[2] != nil {
				hi = e.termOf(x.Args[2])
			}
			return TV{V: ex.substr(s, lo, hi), T: v.T}
		case SliceV:
			hi := s.Len
			if x.Args[2] != nil {
				hi = e.termOf(x.Args[2])
			}
			return TV{V: SliceV{s.Arr, c.Add(s.Off, lo), c.Sub(hi, lo), c.Sub(s.Cap, lo)}, T: v.T}
		}
		e.fail(x, "slice of %s", v.T)
	case "call":
		return e.call(x)
	}
	e.fail(x, "unsupported expression %s %s", x.Op, x.Name)
	return TV{}
}

func (e *specEnv) addrOf(x *Expr) TV {
	if x.Op == "field" {
		v := e.eval(x.Args[0])
		if pt, ok := v.T.Underlying().(*types.Pointer); ok {
			p := e.ex.ptr(v.V, v.T)
			if fp, ok := e.fieldPath(pt.Elem(), p, x.Name); ok {
				return TV{V: fp, T: types.NewPointer(fp.Elem)}
			}
		}
	}
	if x.Op == "index" {
		v := e.eval(x.Args[0])
		if s, ok := v.V.(SliceV); ok {
			et := v.T.Underlying().(*types.Slice).Elem()
			return TV{V: e.ex.elemPtr(s, et, e.termOf(x.Args[1])), T: types.NewPointer(et)}
		}
	}
	if x.Op == "id" {
		if v, ok := e.lookup(x.Name); ok && v.Addr {
			return TV{V: v.V, T: v.T}
		}
		if pk := e.ex.v.prog.Typs[e.pkg]; pk != nil {
			if o, ok := pk.Scope().Lookup(x.Name).(*types.Var); ok {
				return TV{V: PtrV{Kind: pGlobal, Glob: pk.Path() + "." + x.Name, Root: o.Type(), Elem: o.Type()}, T: types.NewPointer(o.Type())}
			}
		}
	}
	e.fail(x, "cannot take the address")
	return TV{}
}

// fieldPath finds field n, following embedded structs.
func (e *specEnv) fieldPath(t types.Type, p PtrV, n string) (PtrV, bool) {
	obj, index, _ := types.LookupFieldOrMethod(t, true, e.ex.v.prog.Typs[pkgOfType(t)], n)
	if _, ok := obj.(*types.Var); !ok {
		return p, false
	}
	for i, fi := range index {
		if i > 0 {
			if pt, ok := p.Elem.Underlying().(*types.Pointer); ok {
				v := e.loadSpec(p)
				p = e.ex.ptr(v, types.NewPointer(pt.Elem()))
			}
		}
		p = e.ex.fieldPtr(p, fi)
	}
	return p, true
}

func pkgOfType(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path()
	}
	return ""
}

func (e *specEnv) field(x *Expr) TV {
	// qualified identifier
	if x.Args[0].Op == "id" {
		if _, ok := e.lookup(x.Args[0].Name); !ok {
			if pk := e.importNamed(x.Args[0].Name); pk != nil {
				if v, ok := e.pkgObj(x, pk, x.Name); ok {
					return v
				}
				e.fail(x, "no %s in package %s", x.Name, x.Args[0].Name)
			}
		}
	}
	v := e.eval(x.Args[0])
	if tv, ok := v.V.(TupleV); ok {
		i, err := strconv.Atoi(x.Name)
		if err != nil || i >= len(tv) {
			e.fail(x, "tuple field %s", x.Name)
		}
		return TV{V: tv[i], T: v.T.(*types.Tuple).At(i).Type()}
	}
	switch u := v.T.Underlying().(type) {
	case *types.Pointer:
		p := e.ex.ptr(v.V, v.T)
		if fp, ok := e.fieldPath(u.Elem(), p, x.Name); ok {
			return TV{V: e.loadSpec(fp), T: fp.Elem}
		}
	case *types.Struct:
		obj, index, _ := types.LookupFieldOrMethod(v.T, true, e.ex.v.prog.Typs[pkgOfType(v.T)], x.Name)
		if _, ok := obj.(*types.Var); ok {
			cur := v
			for _, fi := range index {
				if pt, ok := cur.T.Underlying().(*types.Pointer); ok {
					fp := e.ex.fieldPtr(e.ex.ptr(cur.V, cur.T), fi)
					_ = pt
					cur = TV{V: e.loadSpec(fp), T: fp.Elem}
					continue
				}
				st := cur.T.Underlying().(*types.Struct)
				cur = TV{V: cur.V.(StructV).F[fi], T: st.Field(fi).Type()}
			}
			return cur
		}
	}
	e.fail(x, "no field %s in %s", x.Name, v.T)
	return TV{}
}

func (e *specEnv) index(x *Expr) TV {
	ex, c := e.ex, e.ex.c
	v := e.eval(x.Args[0])
	if mm, ok := v.T.(*mathMap); ok {
		i := e.boxed(x, e.eval(x.Args[1]), mm.K)
		r := c.Select(v.V.(*Term), i)
		if _, ok := mm.V.(*mathMap); ok {
			return TV{V: r, T: mm.V}
		}
		return TV{V: e.unboxed(r, mm.V), T: mm.V}
	}
	switch u := v.T.Underlying().(type) {
	case *types.Slice:
		p := ex.elemPtr(v.V.(SliceV), u.Elem(), e.termOf(x.Args[1]))
		return TV{V: e.loadSpec(p), T: u.Elem()}
	case *types.Basic:
		i := e.termOf(x.Args[1])
		r := c.CodeAt(v.V.(*Term), i)
		return TV{V: r, T: types.Typ[types.Uint8]}
	case *types.Map:
		k := e.coerce(x, e.eval(x.Args[1]), u.Key())
		kt := ex.keyTerm(e.sinkIfFree(), k, u)
		m := v.V.(*Term)
		has := ex.mapHas(e.st, u, m, kt)
		save := ex.specMode
		ex.specMode = true
		raw := ex.mapGetRaw(e.st, u, m, kt)
		ex.specMode = save
		e.assumeFacts(ex.loadFacts(raw, u.Elem(), e.st.alloc))
		return TV{V: ex.iteVal(has, raw, ex.zero(u.Elem()), u.Elem()), T: u.Elem()}
	case *types.Array:
		i := e.termOf(x.Args[1])
		return TV{V: ex.arrayAt(v.V.(ArrayV), i, u.Elem()), T: u.Elem()}
	}
	e.fail(x, "index of %s", v.T)
	return TV{}
}

func (e *specEnv) sinkIfFree() *State { return e.factSink() }

// coerce converts nil and concrete values to the wanted type.
func (e *specEnv) coerce(x *Expr, v TV, t types.Type) Val {
	if v.T == tNil {
		return e.ex.zero(t)
	}
	if isIface(t) && !isIface(v.T) {
		return e.ex.makeIface(e.factSink(), v.V, v.T)
	}
	if _, ok := t.(*mathMap); ok {
		if sv, ok := v.V.(SliceV); ok {
			return e.contents(x, sv, v.T)
		}
	}
	return v.V
}

// contents is the sequence of the elements of a slice in the current state.
func (e *specEnv) contents(x *Expr, s SliceV, t types.Type) *Term {
	c := e.ex.c
	el := t.Underlying().(*types.Slice).Elem()
	ls := leaves(el)
	if len(ls) != 1 {
		mt := types.NewMap(el, tInt)
		n := "seqof$" + sanitize(typeKey(el))
		srt := arr(sInt, sBox)
		var as, avs, els []*Term
		i, o := c.FreshBVar("i", sInt), c.FreshBVar("o", sInt)
		for j, l := range ls {
			as = append(as, e.ex.elemArr(e.st, el, l, s.Arr))
			av := c.FreshBVar(fmt.Sprintf("a%d", j), arr(sInt, l.Sort))
			avs = append(avs, av)
			els = append(els, c.Select(av, c.Add(o, i)))
		}
		if len(c.symAx[n]) == 0 {
			k := e.ex.keyTerm(nil, e.ex.unpack(els, el), mt)
			avs = append(avs, o)
			t := c.Select(c.App(n, srt, avs...), i)
			c.symAx[n] = append(c.symAx[n], c.Forall(append(avs, i), c.Eq(t, k), []*Term{t}))
		}
		return c.App(n, srt, append(as, s.Off)...)
	}
	a := e.ex.elemArr(e.st, el, ls[0], s.Arr)
	if s.Off.op == "int" && s.Off.ival.Sign() == 0 {
		return a
	}
	srt := arr(sInt, ls[0].Sort)
	n := "seqfrom$" + ls[0].Sort
	if len(c.symAx[n]) == 0 {
		av, o, i := c.FreshBVar("a", srt), c.FreshBVar("o", sInt), c.FreshBVar("i", sInt)
		t := c.Select(c.App(n, srt, av, o), i)
		c.symAx[n] = append(c.symAx[n], c.Forall([]*Term{av, o, i}, c.Eq(t, c.Select(av, c.Add(o, i))), []*Term{t}))
		z := c.App(n, srt, av, c.Int(0))
		c.symAx[n] = append(c.symAx[n], c.Forall([]*Term{av}, c.Eq(z, av), []*Term{z}))
	}
	return c.App(n, srt, a, s.Off)
}

func (e *specEnv) equal(x *Expr, a, b TV) *Term {
	ex := e.ex
	if a.T == tNil && b.T == tNil {
		return ex.c.True()
	}
	if a.T == tNil {
		a = TV{V: ex.zero(b.T), T: b.T}
	}
	if b.T == tNil {
		b = TV{V: ex.zero(a.T), T: a.T}
	}
	if _, ok := a.T.(*mathMap); ok {
		return ex.c.Eq(a.V.(*Term), b.V.(*Term))
	}
	if isIface(a.T) && !isIface(b.T) {
		b = TV{V: e.coerce(x, b, a.T), T: a.T}
	}
	if isIface(b.T) && !isIface(a.T) {
		a = TV{V: e.coerce(x, a, b.T), T: b.T}
	}
	if sa, ok := a.V.(SliceV); ok {
		sb := b.V.(SliceV)
		if sb.Arr.op == "int" {
			return ex.c.Eq(sa.Arr, sb.Arr)
		}
		e.fail(x, "slices compare with seqeq or same")
	}
	if len(leaves(a.T)) != len(leaves(b.T)) {
		e.fail(x, "comparison of %s and %s", a.T, b.T)
	}
	ta, tb := ex.pack(a.V, a.T), ex.pack(b.V, b.T)
	var cs []*Term
	for i := range ta {
		if ta[i].sort != tb[i].sort {
			e.fail(x, "comparison of %s and %s", a.T, b.T)
		}
		if ta[i].sort == sF64 {
			cs = append(cs, ex.c.App("f64eq", sBool, ta[i], tb[i]))
			continue
		}
		cs = append(cs, ex.c.Eq(ta[i], tb[i]))
	}
	return ex.c.And(cs...)
}

func (e *specEnv) binop(x *Expr) TV {
	c := e.ex.c
	bl := func(t *Term) TV { return TV{V: t, T: tBool} }
	switch x.Name {
	case "&&":
		return bl(c.And(e.boolOf(x.Args[0]), e.boolOf(x.Args[1])))
	case "||":
		return bl(c.Or(e.boolOf(x.Args[0]), e.boolOf(x.Args[1])))
	case "==>":
		a := e.boolOf(x.Args[0])
		if a.isFalse() {
			return bl(c.True())
		}
		return bl(c.Implies(a, e.boolOf(x.Args[1])))
	case "<==>":
		return bl(c.Eq(e.boolOf(x.Args[0]), e.boolOf(x.Args[1])))
	case "==", "!=":
		r := e.equal(x, e.eval(x.Args[0]), e.eval(x.Args[1]))
		if x.Name == "!=" {
			r = c.Not(r)
		}
		return bl(r)
	}
	av := e.eval(x.Args[0])
	a, ok := av.V.(*Term)
	if !ok {
		e.fail(x, "operand of %s", x.Name)
	}
	b := e.termOf(x.Args[1])
	if a.sort == sStr {
		switch x.Name {
		case "+":
			return TV{V: c.Concat(a, b), T: tString}
		case "<":
			return bl(c.Raw("str.<", sBool, a, b))
		case "<=":
			return bl(c.Raw("str.<=", sBool, a, b))
		case ">":
			return bl(c.Raw("str.<", sBool, b, a))
		case ">=":
			return bl(c.Raw("str.<=", sBool, b, a))
		}
	}
	if a.sort != sInt || b.sort != sInt {
		e.fail(x, "operands of %s: %s %s", x.Name, a.sort, b.sort)
	}
	in := func(t *Term) TV { return TV{V: t, T: tInt} }
	switch x.Name {
	case "<":
		return bl(c.Lt(a, b))
	case "<=":
		return bl(c.Le(a, b))
	case ">":
		return bl(c.Gt(a, b))
	case ">=":
		return bl(c.Ge(a, b))
	case "+":
		return in(c.Add(a, b))
	case "-":
		return in(c.Sub(a, b))
	case "*":
		return in(c.Mul(a, b))
	case "/":
		return in(c.DivE(a, b))
	case "%":
		return in(c.ModE(a, b))
	}
	e.fail(x, "operator %s", x.Name)
	return TV{}
}

func (e *specEnv) quant(x *Expr) TV {
	c := e.ex.c
	n := e.clone()
	n.bound++
	var bvs []*Term
	var typing []*Term
	for _, d := range x.Vars {
		t := e.resolveType(x, d.Type)
		var ts []*Term
		for _, l := range leaves(t) {
			b := c.FreshBVar(d.Name+l.Path, l.Sort)
			ts = append(ts, b)
			bvs = append(bvs, b)
			switch l.Kind {
			case lkInt:
				if d.Type != "int" {
					lo, hi, _, _ := intRange(l.T)
					typing = append(typing, c.Le(c.BigInt(lo), b), c.Le(b, c.BigInt(hi)))
				}
			}
		}
		n.vars[d.Name] = TV{V: e.ex.unpack(ts, t), T: t}
	}
	n.sink = e.factSink()
	body := n.boolOf(x.Args[0])
	var pats [][]*Term
	for _, p := range x.Pats {
		var ts []*Term
		for _, pe := range p {
			v := n.eval(pe)
			ts = append(ts, n.ex.pack(v.V, v.T)...)
		}
		pats = append(pats, ts)
	}
	if x.Op == "forall" {
		return TV{V: c.Forall(bvs, c.Implies(c.And(typing...), body), pats...), T: tBool}
	}
	return TV{V: c.Exists(bvs, c.And(append(typing, body)...), pats...), T: tBool}
}

func (e *specEnv) applyPred(x *Expr, d *PredDef, args []TV) TV {
	if len(args) != len(d.Params) {
		e.fail(x, "%s needs %d arguments", d.Name, len(d.Params))
	}
	denv := &specEnv{ex: e.ex, st: e.st, sink: e.factSink(), old: e.old, vars: map[string]TV{}, pkg: d.Pkg, depth: e.depth, bound: e.bound}
	var ts []*Term
	for i, p := range d.Params {
		t := denv.resolveType(x, p.Type)
		v := e.coerce(x, args[i], t)
		denv.vars[p.Name] = TV{V: v, T: t}
		if d.Logic {
			ts = append(ts, e.ex.pack(v, t)...)
		}
	}
	rt := denv.resolveType(x, d.Ret)
	if d.Logic {
		var out []*Term
		for _, l := range leaves(rt) {
			out = append(out, e.ex.c.App("logic$"+d.Name+l.Path, l.Sort, ts...))
		}
		return TV{V: e.ex.unpack(out, rt), T: rt}
	}
	v := denv.eval(d.Body)
	if _, ok := rt.(*mathMap); ok {
		return TV{V: denv.coerce(x, v, rt), T: rt}
	}
	if !types.Identical(v.T, rt) {
		v = TV{V: e.coerce(x, v, rt), T: rt}
	}
	return v
}

// goCall evaluates a Go function as a pure function: every path is executed
// and the results are merged.
func (e *specEnv) goCall(x *Expr, fn *ssa.Function, args, bind []Val) TV {
	ex, c := e.ex, e.ex.c
	st := e.st.clone()
	if e.sink != nil {
		st.pc = e.sink.pc
	}
	start := st.pc
	startN := 0
	if start != nil {
		startN = start.n
	}
	symBefore := c.syms
	bv := false
	for i, a := range args {
		var t types.Type
		if r := fn.Signature.Recv(); r != nil {
			if i == 0 {
				t = r.Type()
			} else {
				t = fn.Signature.Params().At(i - 1).Type()
			}
		} else {
			t = fn.Signature.Params().At(i).Type()
		}
		for _, tm := range ex.pack(a, t) {
			if tm.hasBV {
				bv = true
			}
		}
	}
	type outcome struct {
		cond []*Term
		res  []Val
	}
	var outs []outcome
	ex.suppress++
	ex.inSpecCall++
	rec := ex.recorders
	ex.recorders = nil
	savePaths := ex.paths
	saveMode := ex.specMode
	ex.specMode = bv
	defer func() {
		ex.suppress--
		ex.inSpecCall--
		ex.recorders = rec
		ex.paths = savePaths
		ex.specMode = saveMode
	}()
	sink := e.factSink()
	ex.callFn(nil, st, fn, args, bind, x.Pos, func(s *State, res []Val) {
		var conds []*Term
		var nodes []*pcNode
		for p := s.pc; p != nil && p.n > startN; p = p.prev {
			nodes = append(nodes, p)
		}
		for i := len(nodes) - 1; i >= 0; i-- {
			p := nodes[i]
			if p.branch {
				conds = append(conds, p.t)
			} else if !p.t.hasBV {
				f := c.Implies(c.And(conds...), p.t)
				if !f.hasBV {
					sink.assume(f)
				}
			}
		}
		outs = append(outs, outcome{conds, res})
	})
	if len(outs) == 0 {
		e.fail(x, "call of %s never returns", fn)
	}
	rs := fn.Signature.Results()
	var final []Val
	for i := 0; i < rs.Len(); i++ {
		v := outs[len(outs)-1].res[i]
		for j := len(outs) - 2; j >= 0; j-- {
			v = ex.iteVal(c.And(outs[j].cond...), outs[j].res[i], v, rs.At(i).Type())
		}
		if bv {
			for _, t := range ex.pack(v, rs.At(i).Type()) {
				if c.freshSince(t, symBefore) {
					e.fail(x, "call of %s under a quantifier introduces fresh values", fn)
				}
			}
		}
		final = append(final, v)
	}
	switch len(final) {
	case 0:
		e.fail(x, "call of %s has no result", fn)
	case 1:
		return TV{V: final[0], T: rs.At(0).Type()}
	}
	return TV{V: TupleV(final), T: rs}
}

// freshSince tells whether t contains a fresh constant made after index n.
func (c *Ctx) freshSince(t *Term, n int) bool {
	if t.maxSy <= n {
		return false
	}
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t.maxSy <= n || seen[t] {
			return false
		}
		seen[t] = true
		if t.op == "var" && strings.Contains(t.sval, "!") {
			return true
		}
		for _, a := range t.args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

func (e *specEnv) goArgs(x *Expr, sig *types.Signature, recv *TV, args []*Expr) []Val {
	var vals []Val
	if recv != nil {
		vals = append(vals, recv.V)
	}
	n := sig.Params().Len()
	if sig.Variadic() {
		e.fail(x, "variadic function in a specification")
	}
	if n != len(args) {
		e.fail(x, "wrong number of arguments")
	}
	for i, a := range args {
		vals = append(vals, e.coerce(a, e.eval(a), sig.Params().At(i).Type()))
	}
	return vals
}

func (e *specEnv) call(x *Expr) TV {
	ex, c := e.ex, e.ex.c
	f := x.Args[0]
	args := x.Args[1:]
	need := func(n int) {
		if len(args) != n {
			e.fail(x, "%s needs %d arguments", f.Name, n)
		}
	}
	bl := func(t *Term) TV { return TV{V: t, T: tBool} }
	in := func(t *Term) TV { return TV{V: t, T: tInt} }
	sv := func(t *Term) TV { return TV{V: t, T: tString} }
	if f.Op == "id" {
		if v, ok := e.lookup(f.Name); ok {
			return e.callValue(x, e.deref(v), args)
		}
		switch f.Name {
		case "len":
			need(1)
			v := e.eval(args[0])
			if m, ok := v.T.Underlying().(*types.Map); ok {
				l := ex.mapLen(e.st, m, v.V.(*Term))
				if !l.hasBV {
					e.factSink().assume(c.And(c.Le(c.Int(0), l), c.Le(l, c.BigInt(maxInt))))
				}
				return in(l)
			}
			return in(ex.lenOf(e.factSink(), v.V, v.T))
		case "cap":
			need(1)
			return in(e.eval(args[0]).V.(SliceV).Cap)
		case "ite":
			need(3)
			p := e.boolOf(args[0])
			a, b := e.eval(args[1]), e.eval(args[2])
			if a.T == tNil {
				a = TV{V: ex.zero(b.T), T: b.T}
			}
			if b.T == tNil {
				b = TV{V: ex.zero(a.T), T: a.T}
			}
			return TV{V: ex.iteVal(p, a.V, b.V, a.T), T: a.T}
		case "min", "max":
			need(2)
			a, b := e.termOf(args[0]), e.termOf(args[1])
			if f.Name == "min" {
				return in(c.Ite(c.Le(a, b), a, b))
			}
			return in(c.Ite(c.Le(a, b), b, a))
		case "has":
			need(2)
			v := e.eval(args[0])
			m := v.T.Underlying().(*types.Map)
			k := ex.keyTerm(e.factSink(), e.coerce(x, e.eval(args[1]), m.Key()), m)
			return bl(ex.mapHas(e.st, m, v.V.(*Term), k))
		case "visited":
			need(1)
			if e.lc == nil {
				e.fail(x, "visited outside a loop invariant")
			}
			for _, in := range e.lc.loop.header.Instrs {
				if nx, ok := in.(*ssa.Next); ok {
					it, ok := e.lc.fr.env[nx.Iter].(IterV)
					if ok && it.Map != nil {
						k := ex.keyTerm(e.factSink(), e.coerce(x, e.eval(args[0]), it.MapT.Key()), it.MapT)
						return bl(c.Select(e.st.heap["iter$"+it.ID], k))
					}
				}
			}
			e.fail(x, "not a map range loop")
		case "visits":
			// how many entries a range over a map has visited
			if e.lc == nil {
				e.fail(x, "visits outside a loop invariant")
			}
			for _, ins := range e.lc.loop.header.Instrs {
				if nx, ok := ins.(*ssa.Next); ok {
					it, ok := e.lc.fr.env[nx.Iter].(IterV)
					if ok && it.Map != nil {
						return in(e.st.heap["iter$"+it.ID+"n"])
					}
				}
			}
			e.fail(x, "not a map range loop")
		case "strpos":
			// byte position of a range over a string
			for _, ins := range e.lc.loop.header.Instrs {
				if nx, ok := ins.(*ssa.Next); ok {
					it, ok := e.lc.fr.env[nx.Iter].(IterV)
					if ok && it.Map == nil {
						return in(e.st.heap["iter$"+it.ID])
					}
				}
			}
			e.fail(x, "not a string range loop")
		case "hasPrefix":
			need(2)
			return bl(c.HasPrefix(e.termOf(args[0]), e.termOf(args[1])))
		case "hasSuffix":
			need(2)
			return bl(c.Raw("str.suffixof", sBool, e.termOf(args[1]), e.termOf(args[0])))
		case "contains":
			need(2)
			return bl(c.Raw("str.contains", sBool, e.termOf(args[0]), e.termOf(args[1])))
		case "indexOf":
			need(2)
			return in(c.Raw("str.indexof", sInt, e.termOf(args[0]), e.termOf(args[1]), c.Int(0)))
		case "lastIndexOf":
			need(2)
			return in(ex.lastIndex(e.factSink(), e.termOf(args[0]), e.termOf(args[1])))
		case "strfrom":
			need(1)
			return sv(c.Raw("str.from_code", sStr, e.termOf(args[0])))
		case "runestr":
			need(1)
			return sv(ex.runeToString(e.factSink(), e.termOf(args[0])))
		case "runeat":
			need(2)
			r, _ := ex.decodeRune(e.factSink(), e.termOf(args[0]), e.termOf(args[1]), c.And(c.Le(c.Int(0), e.termOf(args[1])), c.Lt(e.termOf(args[1]), c.StrLen(e.termOf(args[0])))))
			return TV{V: r, T: types.Typ[types.Int32]}
		case "runewidth":
			need(2)
			_, w := ex.decodeRune(e.factSink(), e.termOf(args[0]), e.termOf(args[1]), c.And(c.Le(c.Int(0), e.termOf(args[1])), c.Lt(e.termOf(args[1]), c.StrLen(e.termOf(args[0])))))
			return in(w)
		case "fresh":
			need(1)
			v := e.eval(args[0])
			if e.old == nil {
				e.fail(x, "fresh needs an old state")
			}
			var r *Term
			switch y := v.V.(type) {
			case SliceV:
				r = y.Arr
			default:
				r = e.scalar(x, v)
			}
			return bl(c.And(c.Ge(r, e.old.alloc), c.Lt(r, e.st.alloc)))
		case "allocated":
			need(1)
			v := e.eval(args[0])
			r := e.scalar(x, v)
			return bl(c.And(c.Gt(r, c.Int(0)), c.Lt(r, e.st.alloc)))
		case "arrof":
			need(1)
			return in(e.eval(args[0]).V.(SliceV).Arr)
		case "runes":
			need(1)
			return TV{V: c.App("runes$arr", arr(sInt, sInt), e.termOf(args[0])), T: &mathMap{tInt, types.Typ[types.Int32]}}
		case "runecount":
			need(1)
			return in(c.App("runes$len", sInt, e.termOf(args[0])))
		case "contents":
			need(1)
			v := e.eval(args[0])
			return TV{V: e.contents(x, v.V.(SliceV), v.T), T: &mathMap{tInt, v.T.Underlying().(*types.Slice).Elem()}}
		case "offof":
			need(1)
			return in(e.eval(args[0]).V.(SliceV).Off)
		case "same":
			need(2)
			a, b := e.eval(args[0]), e.eval(args[1])
			ta, tb := ex.pack(a.V, a.T), ex.pack(b.V, b.T)
			var cs []*Term
			for i := range ta {
				cs = append(cs, c.Eq(ta[i], tb[i]))
			}
			return bl(c.And(cs...))
		case "seqeq":
			need(2)
			return bl(e.seqeq(x, e.eval(args[0]), e.eval(args[1])))
		case "pre":
			need(1)
			if e.lc == nil {
				e.fail(x, "pre() outside a loop invariant")
			}
			return e.loopEnvAt(e.lc.preFr, e.lc.pre).eval(args[0])
		case "ext":
			// ext("strings.ToLower#0", args...): an external pure function
			name := args[0].Name
			return e.extCall(x, name, args[1:])
		case "is":
			v := e.eval(args[0])
			t := e.resolveType(x, args[1].Name)
			iv, ok := v.V.(IfaceV)
			if !ok {
				e.fail(x, "is() of a non-interface value %s", v.T)
			}
			if isIface(t) {
				return bl(ex.implementsTerm(iv.Tag, t))
			}
			if iv.Dyn != nil {
				return bl(c.Bool(types.Identical(iv.Dyn, t)))
			}
			return bl(c.Eq(iv.Tag, c.Int(ex.v.typeID(t))))
		case "as":
			v := e.eval(args[0])
			t := e.resolveType(x, args[1].Name)
			iv, ok := v.V.(IfaceV)
			if !ok {
				e.fail(x, "as() of a non-interface value %s", v.T)
			}
			if isIface(t) {
				return TV{V: iv, T: t}
			}
			r, extn := ex.unboxAs(iv, t)
			isT := c.Eq(iv.Tag, c.Int(ex.v.typeID(t)))
			if iv.Dyn == nil {
				fs := c.Implies(isT, c.And(append(ex.facts(r, t, e.st.alloc), extn)...))
				if !fs.hasBV {
					e.factSink().assume(fs)
				}
			}
			return TV{V: r, T: t}
		case "boxed":
			v := e.eval(args[0])
			t := e.resolveType(x, args[1].Name)
			return TV{V: ex.makeIface(e.factSink(), v.V, t), T: types.NewInterfaceType(nil, nil)}
		case "zero":
			t := e.resolveType(x, args[0].Name)
			return TV{V: ex.zero(t), T: t}
		case "tagof":
			return in(c.Int(ex.v.typeID(e.resolveType(x, args[0].Name))))
		case "tag":
			need(1)
			return in(e.eval(args[0]).V.(IfaceV).Tag)
		case "errtext":
			need(1)
			iv := e.eval(args[0]).V.(IfaceV)
			return sv(c.App("error$text", sStr, iv.Tag, iv.Pay))
		case "lockstate":
			need(1)
			a := e.addrOf(args[0])
			p := a.V.(PtrV)
			if p.Kind != pObj {
				return in(e.st.get(lockHeap(p), sInt))
			}
			return in(c.Select(e.st.get(lockHeap(p), arr(sInt, sInt)), p.Idx[0]))
		case "deref":
			need(1)
			v := e.eval(args[0])
			p := ex.ptr(v.V, v.T)
			return TV{V: e.loadSpec(p), T: p.Elem}
		case "nonneg":
			need(1)
			return bl(c.Le(c.Int(0), e.termOf(args[0])))
		}
		if d, ok := ex.v.spec.Preds[f.Name]; ok {
			var vs []TV
			for _, a := range args {
				vs = append(vs, e.eval(a))
			}
			return e.applyPred(x, d, vs)
		}
		if t := e.typeOf(f.Name); t != nil {
			need(1)
			v := e.eval(args[0])
			return e.convert(x, v, t)
		}
		if pk := ex.v.prog.Typs[e.pkg]; pk != nil {
			if v, ok := e.pkgObj(x, pk, f.Name); ok {
				return e.callValue(x, v, args)
			}
		}
		e.fail(x, "unknown function %s", f.Name)
	}
	if f.Op == "field" {
		if f.Args[0].Op == "id" {
			if _, ok := e.lookup(f.Args[0].Name); !ok {
				if pk := e.importNamed(f.Args[0].Name); pk != nil {
					if tn, ok := pk.Scope().Lookup(f.Name).(*types.TypeName); ok {
						need(1)
						return e.convert(x, e.eval(args[0]), tn.Type())
					}
					if v, ok := e.pkgObj(x, pk, f.Name); ok {
						return e.callValue(x, v, args)
					}
					// a function of a package that is not in SSA form
					if fo, ok := pk.Scope().Lookup(f.Name).(*types.Func); ok {
						return e.extSig(x, pk.Path()+"."+f.Name, fo.Type().(*types.Signature), args)
					}
				}
			}
		}
		recv := e.eval(f.Args[0])
		return e.method(x, recv, f.Name, args)
	}
	e.fail(x, "call")
	return TV{}
}

func (e *specEnv) convert(x *Expr, v TV, t types.Type) TV {
	if v.T == tNil {
		return TV{V: e.ex.zero(t), T: t}
	}
	if isIface(t) {
		return TV{V: e.coerce(x, v, t), T: t}
	}
	if isIntT(v.T) && isIntT(t) {
		return TV{V: v.V, T: t}
	}
	if fb, ok := v.T.Underlying().(*types.Basic); ok && fb.Kind() == types.Float64 {
		if tb, ok := t.Underlying().(*types.Basic); ok && tb.Kind() == types.Float32 {
			return TV{V: e.ex.c.App("f2f$float32", sF64, v.V.(*Term)), T: t}
		}
	}
	if sl, ok := v.T.Underlying().(*types.Slice); ok && isStringT(t) && isByteT(sl.Elem()) {
		c, s := e.ex.c, v.V.(SliceV)
		a := e.ex.elemArr(e.st, sl.Elem(), leaves(sl.Elem())[0], s.Arr)
		r := c.App("bytes2str", sStr, a, s.Off, s.Len)
		e.assumeFacts([]*Term{c.Eq(c.StrLen(r), s.Len)})
		return TV{V: r, T: t}
	}
	if len(leaves(v.T)) == len(leaves(t)) && !(isIntT(v.T) != isIntT(t)) {
		return TV{V: v.V, T: t}
	}
	e.fail(x, "conversion of %s to %s", v.T, t)
	return TV{}
}

func (e *specEnv) seqeq(x *Expr, a, b TV) *Term {
	ex, c := e.ex, e.ex.c
	if a.T == tNil || b.T == tNil {
		e.fail(x, "seqeq with nil")
	}
	sa, ok1 := a.V.(SliceV)
	sb, ok2 := b.V.(SliceV)
	if !ok1 || !ok2 {
		e.fail(x, "seqeq of non-slices")
	}
	et := a.T.Underlying().(*types.Slice).Elem()
	k := c.FreshBVar("k", sInt)
	save := ex.specMode
	ex.specMode = true
	va := ex.load(e.st, ex.elemPtr(sa, et, k))
	vb := ex.load(e.st, ex.elemPtr(sb, et, k))
	ex.specMode = save
	ta, tb := ex.pack(va, et), ex.pack(vb, et)
	var cs []*Term
	for i := range ta {
		cs = append(cs, c.Eq(ta[i], tb[i]))
	}
	return c.And(c.Eq(sa.Len, sb.Len), c.Forall([]*Term{k}, c.Implies(c.And(c.Le(c.Int(0), k), c.Lt(k, sa.Len)), c.And(cs...))))
}

func (e *specEnv) callValue(x *Expr, v TV, args []*Expr) TV {
	ex := e.ex
	f, ok := v.V.(FuncV)
	if !ok {
		e.fail(x, "call of a non-function")
	}
	sig := v.T.Underlying().(*types.Signature)
	if f.Fn != nil {
		if f.Fn.Blocks == nil || !inRepo(f.Fn) {
			if _, ok := models[f.Fn.String()]; !ok {
				return e.extSig(x, f.Fn.String(), sig, args)
			}
		}
		return e.goCall(x, f.Fn, e.goArgs(x, f.Fn.Signature, nil, args), f.Bind)
	}
	vals := e.goArgs(x, sig, nil, args)
	ts := []*Term{ex.funcTerm(f)}
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, ex.argTerms(e.st, vals[i], sig.Params().At(i).Type())...)
	}
	return e.multi(sig, func(i int, rt types.Type) Val {
		return e.ex.ufValue(e.quietState(), fmt.Sprintf("fnval#%d$%s", i, typeKey(sig)), rt, ts)
	})
}

// quietState receives the typing facts of uninterpreted results.
func (e *specEnv) quietState() *State { return e.factSink() }

func (e *specEnv) multi(sig *types.Signature, f func(i int, rt types.Type) Val) TV {
	rs := sig.Results()
	if rs.Len() == 1 {
		return TV{V: f(0, rs.At(0).Type()), T: rs.At(0).Type()}
	}
	var vs TupleV
	for i := 0; i < rs.Len(); i++ {
		vs = append(vs, f(i, rs.At(i).Type()))
	}
	return TV{V: vs, T: rs}
}

func (e *specEnv) extSig(x *Expr, name string, sig *types.Signature, args []*Expr) TV {
	var ts []*Term
	vals := e.goArgs(x, sig, nil, args)
	if name == "reflect.TypeOf" {
		e.ex.typeOfFacts(e.quietState(), vals[0].(IfaceV))
		return TV{V: e.ex.typeOf(vals[0].(IfaceV)), T: sig.Results().At(0).Type()}
	}
	for i, v := range vals {
		ts = append(ts, e.ex.argTerms(e.st, v, sig.Params().At(i).Type())...)
	}
	return e.multi(sig, func(i int, rt types.Type) Val {
		return e.ex.ufValue(e.quietState(), fmt.Sprintf("ext$%s#%d", name, i), rt, ts)
	})
}

func (e *specEnv) extCall(x *Expr, name string, args []*Expr) TV {
	base := name
	if i := strings.LastIndexByte(name, '#'); i >= 0 {
		base = name[:i]
	}
	fn := e.ex.v.prog.Funcs[base]
	if fn == nil {
		e.fail(x, "unknown external function %s", base)
	}
	var ts []*Term
	sig := fn.Signature
	idx, _ := strconv.Atoi(name[len(base)+1:])
	j := 0
	if r := sig.Recv(); r != nil {
		v := e.eval(args[0])
		ts = append(ts, e.ex.argTerms(e.st, v.V, r.Type())...)
		j = 1
	}
	for i := 0; i < sig.Params().Len(); i++ {
		v := e.eval(args[j+i])
		ts = append(ts, e.ex.argTerms(e.st, e.coerce(x, v, sig.Params().At(i).Type()), sig.Params().At(i).Type())...)
	}
	rt := sig.Results().At(idx).Type()
	return TV{V: e.ex.ufValue(e.quietState(), fmt.Sprintf("ext$%s#%d", base, idx), rt, ts), T: rt}
}

func (e *specEnv) method(x *Expr, recv TV, name string, args []*Expr) TV {
	ex := e.ex
	// a field holding a function
	if st, ok := derefType(recv.T).Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				fe := &Expr{Op: "field", Name: name, Args: []*Expr{x.Args[0].Args[0]}, Pos: x.Pos}
				return e.callValue(x, e.eval(fe), args)
			}
		}
	}
	t := recv.T
	if isIface(t) {
		iv := recv.V.(IfaceV)
		if iv.Dyn != nil {
			recv = TV{V: iv.DynVal, T: iv.Dyn}
			t = iv.Dyn
		} else if typeKey(t) == "reflect.Type" {
			return e.reflectMethod(x, recv, "iface (reflect.Type)."+name, name, args)
		} else if ct := e.ifaceContract(t, name); ct != nil && ct.PureUF {
			return e.reflectMethod(x, recv, ct.Key, name, args)
		} else {
			e.fail(x, "method call on an interface value in a specification")
		}
	}
	ms := types.NewMethodSet(t)
	var sel *types.Selection
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			sel = ms.At(i)
		}
	}
	if sel == nil {
		e.fail(x, "no method %s on %s", name, t)
	}
	fn := ex.v.prog.Prog.MethodValue(sel)
	if fn == nil {
		e.fail(x, "no body for method %s on %s", name, t)
	}
	vals := e.goArgs(x, sel.Type().(*types.Signature), &recv, args)
	if (fn.Blocks == nil || !inRepo(fn)) && models[fn.String()] == nil {
		var ts []*Term
		ts = append(ts, ex.argTerms(e.st, vals[0], t)...)
		sig := fn.Signature
		for i := 0; i < sig.Params().Len(); i++ {
			ts = append(ts, ex.argTerms(e.st, vals[i+1], sig.Params().At(i).Type())...)
		}
		return e.multi(sig, func(i int, rt types.Type) Val {
			return e.ex.ufValue(e.quietState(), fmt.Sprintf("ext$%s#%d", fn.String(), i), rt, ts)
		})
	}
	return e.goCall(x, fn, vals, nil)
}

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// modTarget lists the heap locations named by a modifies expression.
func (e *specEnv) modTarget(x *Expr) []modTarget {
	ex := e.ex
	reg := func(name, srt string, ls ...Leaf) string {
		ex.v.heapSorts[name] = srt
		for _, l := range ls {
			ex.v.leafKind[name] = l.Kind
		}
		return name
	}
	var out []modTarget
	ptrTargets := func(p PtrV) {
		if at, ok := p.Elem.Underlying().(*types.Array); ok && p.Kind == pObj && p.Path == "" {
			for _, l := range leaves(at.Elem()) {
				out = append(out, modTarget{reg(elemHeap(at.Elem(), l), arr(sInt, arr(sInt, l.Sort)), l), p.Idx[0]})
			}
			return
		}
		for _, l := range leaves(p.Elem) {
			n := heapName(p, l.Path)
			switch p.Kind {
			case pObj:
				out = append(out, modTarget{reg(n, arr(sInt, l.Sort), l), p.Idx[0]})
			case pElem:
				out = append(out, modTarget{reg(n, arr(sInt, arr(sInt, l.Sort)), l), p.Idx[0]})
			default:
				out = append(out, modTarget{reg(n, l.Sort), nil})
			}
		}
	}
	switch x.Op {
	case "paren":
		return e.modTarget(x.Args[0])
	case "id":
		if g, ok := ex.v.spec.Ghosts[x.Name]; ok {
			return []modTarget{{reg("ghost$"+g.Name, e.ghostSort(e.ghostType(g))), nil}}
		}
		a := e.addrOf(x)
		ptrTargets(ex.ptr(a.V, a.T))
		return out
	case "unop":
		if x.Name == "*" {
			v := e.eval(x.Args[0])
			ptrTargets(ex.ptr(v.V, v.T))
			return out
		}
	case "field":
		a := e.addrOf(x)
		ptrTargets(ex.ptr(a.V, a.T))
		return out
	case "call":
		n := x.Args[0].Name
		switch n {
		case "all":
			v := e.eval(x.Args[1])
			ptrTargets(ex.ptr(v.V, v.T))
			return out
		case "elems":
			v := e.eval(x.Args[1])
			et := v.T.Underlying().(*types.Slice).Elem()
			for _, l := range leaves(et) {
				out = append(out, modTarget{reg(elemHeap(et, l), arr(sInt, arr(sInt, l.Sort)), l), v.V.(SliceV).Arr})
			}
			return out
		case "entries":
			v := e.eval(x.Args[1])
			mt := v.T.Underlying().(*types.Map)
			ks := ex.keySort(mt)
			m := v.V.(*Term)
			out = append(out, modTarget{reg(mapName(mt, "dom"), arr(sInt, arr(ks, sBool))), m}, modTarget{reg(mapName(mt, "len"), arr(sInt, sInt)), m})
			for _, l := range leaves(mt.Elem()) {
				out = append(out, modTarget{reg(mapName(mt, "val"+l.Path), arr(sInt, arr(ks, l.Sort)), l), m})
			}
			return out
		case "allentries":
			mt := e.resolveType(x, typeText(x.Args[1])).Underlying().(*types.Map)
			ks := ex.keySort(mt)
			out = append(out, modTarget{reg(mapName(mt, "dom"), arr(sInt, arr(ks, sBool))), nil}, modTarget{reg(mapName(mt, "len"), arr(sInt, sInt)), nil})
			for _, l := range leaves(mt.Elem()) {
				out = append(out, modTarget{reg(mapName(mt, "val"+l.Path), arr(sInt, arr(ks, l.Sort)), l), nil})
			}
			return out
		case "heap":
			// heap(T) or heap(T.f): that memory of every object
			arg := x.Args[1]
			path := ""
			for arg.Op == "field" && e.typeOf(typeText(arg)) == nil {
				path = "." + arg.Name + path
				arg = arg.Args[0]
			}
			t := e.resolveType(x, typeText(arg))
			for _, l := range leaves(t) {
				if path == "" || l.Path == path || strings.HasPrefix(l.Path, path+".") || strings.HasPrefix(l.Path, path+"[") {
					out = append(out, modTarget{reg("H:"+typeKey(t)+l.Path, arr(sInt, l.Sort), l), nil})
				}
			}
			if len(out) == 0 {
				e.fail(x, "no such field")
			}
			return out
		case "allelems":
			t := e.resolveType(x, typeText(x.Args[1]))
			for _, l := range leaves(t) {
				out = append(out, modTarget{reg(elemHeap(t, l), arr(sInt, arr(sInt, l.Sort)), l), nil})
			}
			return out
		}
	}
	e.fail(x, "modifies target")
	return nil
}

func typeText(x *Expr) string {
	switch x.Op {
	case "id", "type":
		return x.Name
	case "str":
		return x.Name
	case "field":
		return typeText(x.Args[0]) + "." + x.Name
	case "unop":
		return "*" + typeText(x.Args[0])
	}
	return "?"
}

// loop clauses ---------------------------------------------------------------

func (ex *Exec) loopEnv(lc *loopCtx, ct *Contract) *specEnv {
	e := &specEnv{ex: ex, st: lc.st, old: ex.entry, vars: map[string]TV{}, lc: lc, pkg: ct.Pkg}
	e.oldVars = ex.rootVars
	e.fillNames(lc.fr)
	return e
}

func (e *specEnv) fillNames(fr *Frame) {
	var chain []*Frame
	for f := fr; f != nil; f = f.parent {
		chain = append(chain, f)
	}
	for k, v := range e.ex.rootVars {
		e.vars[k] = v
	}
	for i := len(chain) - 1; i >= 0; i-- {
		for k, v := range chain[i].names {
			e.vars[k] = v
		}
	}
	for k, v := range e.ex.lets {
		if _, ok := e.vars[k]; !ok {
			e.vars[k] = v
		}
	}
}

func (e *specEnv) loopEnvAt(fr *Frame, st *State) *specEnv {
	n := &specEnv{ex: e.ex, st: st, sink: e.factSink(), old: e.old, oldVars: e.oldVars, vars: map[string]TV{}, pkg: e.pkg, bound: e.bound, depth: e.depth}
	lc := *e.lc
	lc.fr, lc.st = fr, st
	n.lc = &lc
	n.fillNames(fr)
	for k, v := range e.vars { // quantified variables stay
		if _, ok := n.vars[k]; !ok {
			n.vars[k] = v
		}
	}
	return n
}

// evalLoopClause evaluates an invariant at a loop head. In a function that is
// inlined into the one under contract, rootFirst gives the names of the latter
// precedence over those of the inlined function.
func (ex *Exec) evalLoopClause(lc *loopCtx, ct *Contract, cl Clause, rootFirst bool) *Term {
	e := ex.loopEnv(lc, ct)
	if rootFirst {
		for k, v := range ex.rootVars {
			e.vars[k] = v
		}
		f := lc.fr
		for f.parent != nil {
			f = f.parent
		}
		for k, v := range f.names {
			e.vars[k] = v
		}
	}
	return e.boolOf(cl.E)
}

// ifaceContract finds the contract of an interface method.
func (e *specEnv) ifaceContract(t types.Type, name string) *Contract {
	cs := e.ex.v.spec.Contracts
	if ct := cs["iface ("+typeKey(types.Unalias(t))+")."+name]; ct != nil {
		return ct
	}
	it := t.Underlying().(*types.Interface)
	for i := 0; i < it.NumMethods(); i++ {
		if m := it.Method(i); m.Name() == name {
			return cs["iface ("+recvNamed(m)+")."+name]
		}
	}
	return nil
}

// reflectMethod is a method of reflect.Type, an uninterpreted function.
func (e *specEnv) reflectMethod(x *Expr, recv TV, key, name string, args []*Expr) TV {
	it := recv.T.Underlying().(*types.Interface)
	for i := 0; i < it.NumMethods(); i++ {
		m := it.Method(i)
		if m.Name() != name {
			continue
		}
		sig := m.Type().(*types.Signature)
		iv := recv.V.(IfaceV)
		ts := []*Term{iv.Tag, iv.Pay}
		for j, v := range e.goArgs(x, sig, nil, args) {
			ts = append(ts, e.ex.argTerms(e.st, v, sig.Params().At(j).Type())...)
		}
		return e.multi(sig, func(i int, rt types.Type) Val {
			return e.ex.ufValue(e.quietState(), fmt.Sprintf("ext$%s#%d", key, i), rt, ts)
		})
	}
	e.fail(x, "no method %s", name)
	return TV{}
}

func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isByteT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}
