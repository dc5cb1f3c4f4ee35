package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic Go value. Scalars are *Term.
type Val interface{}

type SliceV struct{ Arr, Off, Len, Cap *Term }

// IfaceV is an interface value; Dyn/DynVal are set when the dynamic type is
// known on this path.
type IfaceV struct {
	Tag, Pay *Term
	Dyn      types.Type
	DynVal   Val
}

type StructV struct{ F []Val }

type ArrayV struct{ E []Val }

type TupleV []Val

type ptrKind int

const (
	pObj  ptrKind = iota // Idx = [ref]
	pElem                // Idx = [arr, index]
	pGlobal
)

// PtrV is a pointer. A pointer to a whole heap object has kind pObj and an
// empty path.
type PtrV struct {
	Kind ptrKind
	Root types.Type
	Glob string
	Idx  []*Term
	Path string
	Elem types.Type
}

type FuncV struct {
	Fn        *ssa.Function
	Bind      []Val
	Ref       *Term // for unknown function values
	Name      string
	Builtin   *ssa.Builtin
	RecvBound Val // bound method receiver etc.
}

type IterV struct {
	ID         string // heap variable with the iteration state
	Map        *Term
	MapT       *types.Map
	Str        *Term
	Dom0, Len0 *Term // keys and size of the map at the start
}

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

func typeKey(t types.Type) string {
	return types.TypeString(unalias(t), func(p *types.Package) string { return p.Path() })
}

// unalias replaces the aliases in a type by what they stand for.
func unalias(t types.Type) types.Type {
	switch u := types.Unalias(t).(type) {
	case *types.Pointer:
		return types.NewPointer(unalias(u.Elem()))
	case *types.Slice:
		return types.NewSlice(unalias(u.Elem()))
	case *types.Array:
		return types.NewArray(unalias(u.Elem()), u.Len())
	case *types.Map:
		return types.NewMap(unalias(u.Key()), unalias(u.Elem()))
	case *types.Chan:
		return types.NewChan(u.Dir(), unalias(u.Elem()))
	case *types.Tuple:
		return unaliasTuple(u)
	case *types.Signature:
		return types.NewSignatureType(nil, nil, nil, unaliasTuple(u.Params()), unaliasTuple(u.Results()), u.Variadic())
	default:
		return u
	}
}

func unaliasTuple(t *types.Tuple) *types.Tuple {
	var vs []*types.Var
	for i := 0; i < t.Len(); i++ {
		v := t.At(i)
		vs = append(vs, types.NewParam(v.Pos(), v.Pkg(), v.Name(), unalias(v.Type())))
	}
	return types.NewTuple(vs...)
}

// isTextBuffer tells whether t is a library type that accumulates text. Such
// a value is represented by the text it holds.
func isTextBuffer(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
	case "strings.Builder", "bytes.Buffer":
		return true
	}
	return false
}

// repType is the type whose structure represents the values of t.
func repType(t types.Type) types.Type {
	if isTextBuffer(t) {
		return types.Typ[types.String]
	}
	return t.Underlying()
}

type leafKind int

const (
	lkInt leafKind = iota
	lkBool
	lkStr
	lkFloat
	lkRef
	lkFunc
	lkSliceArr
	lkSliceOff
	lkSliceLen
	lkSliceCap
	lkTag
	lkPay
	lkOpaque
)

type Leaf struct {
	Path string
	Sort string
	Kind leafKind
	T    types.Type
}

var leafCache = map[string][]Leaf{}

func leaves(t types.Type) []Leaf {
	k := typeKey(t)
	if l, ok := leafCache[k]; ok {
		return l
	}
	leafCache[k] = nil
	l := leaves0(t, 0)
	leafCache[k] = l
	return l
}

func leaves0(t types.Type, depth int) []Leaf {
	if depth > 12 {
		unsup("type too deep: %s", t)
	}
	switch u := repType(t).(type) {
	case *mathMap:
		sort := func(t types.Type) string {
			if ls := leaves(t); len(ls) == 1 {
				return ls[0].Sort
			}
			return sBox
		}
		return []Leaf{{"", arr(sort(u.K), sort(u.V)), lkOpaque, t}}
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []Leaf{{"", sBool, lkBool, t}}
		case u.Info()&types.IsInteger != 0:
			return []Leaf{{"", sInt, lkInt, t}}
		case u.Info()&types.IsString != 0:
			return []Leaf{{"", sStr, lkStr, t}}
		case u.Info()&types.IsFloat != 0:
			return []Leaf{{"", sF64, lkFloat, t}}
		case u.Kind() == types.UntypedNil:
			return []Leaf{{"", sInt, lkRef, t}}
		case u.Kind() == types.UnsafePointer:
			return []Leaf{{"", sInt, lkRef, t}}
		case u.Info()&types.IsComplex != 0:
			return []Leaf{{"", sBox, lkOpaque, t}}
		}
	case *types.Pointer, *types.Map, *types.Chan:
		return []Leaf{{"", sInt, lkRef, t}}
	case *types.Signature:
		return []Leaf{{"", sInt, lkFunc, t}}
	case *types.Slice:
		return []Leaf{{".arr", sInt, lkSliceArr, t}, {".off", sInt, lkSliceOff, t}, {".len", sInt, lkSliceLen, t}, {".cap", sInt, lkSliceCap, t}}
	case *types.Interface:
		return []Leaf{{".tag", sInt, lkTag, t}, {".pay", sBox, lkPay, t}}
	case *types.Struct:
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			name := f.Name()
			if name == "_" {
				name = fmt.Sprintf("_%d", i)
			}
			for _, l := range leaves0(f.Type(), depth+1) {
				l.Path = "." + name + l.Path
				out = append(out, l)
			}
		}
		return out
	case *types.Array:
		if u.Len() > 64 {
			unsup("large array %s", t)
		}
		var out []Leaf
		for i := int64(0); i < u.Len(); i++ {
			for _, l := range leaves0(u.Elem(), depth+1) {
				l.Path = fmt.Sprintf("[%d]%s", i, l.Path)
				out = append(out, l)
			}
		}
		return out
	}
	if _, ok := t.(*types.Tuple); ok {
		unsup("tuple leaf")
	}
	unsup("unsupported type %s", t)
	return nil
}

func fieldName(st *types.Struct, i int) string {
	n := st.Field(i).Name()
	if n == "_" {
		n = fmt.Sprintf("_%d", i)
	}
	return n
}

// pack flattens a value of type t into terms, in the order of leaves(t).
func (ex *Exec) pack(v Val, t types.Type) []*Term {
	switch u := repType(t).(type) {
	case *types.Slice:
		s := v.(SliceV)
		return []*Term{s.Arr, s.Off, s.Len, s.Cap}
	case *types.Interface:
		i := v.(IfaceV)
		return []*Term{i.Tag, i.Pay}
	case *types.Struct:
		var out []*Term
		s := v.(StructV)
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, ex.pack(s.F[i], u.Field(i).Type())...)
		}
		return out
	case *types.Array:
		var out []*Term
		a := v.(ArrayV)
		for _, e := range a.E {
			out = append(out, ex.pack(e, u.Elem())...)
		}
		return out
	case *types.Pointer:
		return []*Term{ex.ptrTerm(v)}
	case *types.Signature:
		return []*Term{ex.funcTerm(v)}
	}
	if tm, ok := v.(*Term); ok {
		return []*Term{tm}
	}
	unsup("cannot pack %T as %s", v, t)
	return nil
}

func (ex *Exec) ptrTerm(v Val) *Term {
	switch p := v.(type) {
	case *Term:
		return p
	case PtrV:
		if p.Kind == pObj && p.Path == "" {
			return p.Idx[0]
		}
		if p.Kind == pGlobal && p.Path == "" {
			return ex.globalAddr(p.Glob)
		}
		// interior pointer: an injective address term; loads through a
		// pointer that was read back from memory are rejected in ptrOf.
		args := append([]*Term{}, p.Idx...)
		t := ex.c.App("addr$"+typeKey(p.Root)+p.Path+fmt.Sprint(int(p.Kind)), sInt, args...)
		ex.v.interior[t] = p
		return t
	}
	unsup("pointer term of %T", v)
	return nil
}

func (ex *Exec) globalAddr(name string) *Term {
	return ex.c.Const("gaddr$"+name, sInt)
}

func (ex *Exec) funcTerm(v Val) *Term {
	switch f := v.(type) {
	case *Term:
		return f
	case FuncV:
		if f.Ref != nil {
			return f.Ref
		}
		key := "fn:" + f.Name
		if f.Fn != nil {
			key = "fn:" + f.Fn.String()
		}
		if len(f.Bind) > 0 || f.RecvBound != nil {
			key = fmt.Sprintf("%s#%d", key, len(ex.v.funcVals))
		}
		for id, g := range ex.v.funcVals {
			if g.key == key {
				return ex.c.Int(int64(id))
			}
		}
		id := 1<<40 + len(ex.v.funcVals)
		ex.v.funcVals[id] = funcEntry{key, f}
		return ex.c.Int(int64(id))
	}
	unsup("func term of %T", v)
	return nil
}

type funcEntry struct {
	key string
	f   FuncV
}

// unpack is the inverse of pack.
func (ex *Exec) unpack(ts []*Term, t types.Type) Val {
	v, rest := ex.unpack0(ts, t)
	if len(rest) != 0 {
		panic("unpack: leftover terms")
	}
	return v
}

func (ex *Exec) unpack0(ts []*Term, t types.Type) (Val, []*Term) {
	switch u := repType(t).(type) {
	case *types.Slice:
		return SliceV{ts[0], ts[1], ts[2], ts[3]}, ts[4:]
	case *types.Interface:
		iv := IfaceV{Tag: ts[0], Pay: ts[1]}
		if bi, ok := ex.v.boxed[ts[1]]; ok && ts[0].op == "int" {
			if ex.v.typeID(bi.t) == ts[0].ival.Int64() {
				iv.Dyn, iv.DynVal = bi.t, bi.v
			}
		}
		return iv, ts[2:]
	case *types.Struct:
		s := StructV{}
		for i := 0; i < u.NumFields(); i++ {
			var f Val
			f, ts = ex.unpack0(ts, u.Field(i).Type())
			s.F = append(s.F, f)
		}
		return s, ts
	case *types.Array:
		a := ArrayV{}
		for i := int64(0); i < u.Len(); i++ {
			var f Val
			f, ts = ex.unpack0(ts, u.Elem())
			a.E = append(a.E, f)
		}
		return a, ts
	case *types.Pointer:
		return ex.ptrOf(ts[0], u.Elem()), ts[1:]
	case *types.Signature:
		if ts[0].op == "int" && ts[0].ival.IsInt64() {
			if fe, ok := ex.v.funcVals[int(ts[0].ival.Int64())]; ok {
				return fe.f, ts[1:]
			}
		}
		return FuncV{Ref: ts[0], Name: "unknown"}, ts[1:]
	}
	return ts[0], ts[1:]
}

func (ex *Exec) ptrOf(ref *Term, elem types.Type) Val {
	if p, ok := ex.v.interior[ref]; ok {
		return p
	}
	if strings.HasPrefix(ref.sval, "gaddr$") && ref.op == "var" {
		return PtrV{Kind: pGlobal, Glob: strings.TrimPrefix(ref.sval, "gaddr$"), Root: elem, Elem: elem}
	}
	return PtrV{Kind: pObj, Root: elem, Idx: []*Term{ref}, Elem: elem}
}

// zero returns the zero value of t.
func (ex *Exec) zero(t types.Type) Val {
	var ts []*Term
	for _, l := range leaves(t) {
		ts = append(ts, ex.zeroLeaf(l))
	}
	return ex.unpack(ts, t)
}

func (ex *Exec) zeroLeaf(l Leaf) *Term {
	switch l.Kind {
	case lkBool:
		return ex.c.False()
	case lkStr:
		return ex.c.Str("")
	case lkFloat:
		return ex.c.Const("f64$0", sF64)
	case lkPay:
		return ex.nilBox()
	case lkOpaque:
		return ex.c.Const("opaque$0", sBox)
	}
	return ex.c.Int(0)
}

func (ex *Exec) nilBox() *Term { return ex.c.Const("nilbox", sBox) }

// freshVal makes an unconstrained value of t; the caller assumes facts.
func (ex *Exec) freshVal(name string, t types.Type) Val {
	var ts []*Term
	for _, l := range leaves(t) {
		ts = append(ts, ex.c.Fresh(name+l.Path, l.Sort))
	}
	return ex.unpack(ts, t)
}

// intRange returns the bounds of an integer type.
func intRange(t types.Type) (lo, hi *big.Int, bits uint, signed bool) {
	b := t.Underlying().(*types.Basic)
	one := big.NewInt(1)
	switch b.Kind() {
	case types.Int8:
		bits, signed = 8, true
	case types.Int16:
		bits, signed = 16, true
	case types.Int32, types.UntypedRune:
		bits, signed = 32, true
	case types.Int, types.Int64, types.UntypedInt:
		bits, signed = 64, true
	case types.Uint8:
		bits = 8
	case types.Uint16:
		bits = 16
	case types.Uint32:
		bits = 32
	default:
		bits = 64
	}
	if signed {
		hi = new(big.Int).Sub(new(big.Int).Lsh(one, bits-1), one)
		lo = new(big.Int).Neg(new(big.Int).Lsh(one, bits-1))
	} else {
		hi = new(big.Int).Sub(new(big.Int).Lsh(one, bits), one)
		lo = big.NewInt(0)
	}
	return
}

var maxInt = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 63), big.NewInt(1))

// facts returns the typing facts of a value that was read from unknown memory:
// integer ranges, allocatedness of references, slice well-formedness.
func (ex *Exec) facts(v Val, t types.Type, alloc *Term) []*Term {
	c := ex.c
	var out []*Term
	ts := ex.pack(v, t)
	ls := leaves(t)
	for i, l := range ls {
		x := ts[i]
		if x.isConst() {
			continue
		}
		switch l.Kind {
		case lkInt:
			lo, hi, _, _ := intRange(l.T)
			out = append(out, c.Le(c.BigInt(lo), x), c.Le(x, c.BigInt(hi)))
		case lkFloat:
			if b, ok := l.T.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
				out = append(out, c.Eq(c.App("f2f$float32", sF64, x), x)) // narrowing keeps the value
			}
		case lkRef:
			out = append(out, c.Le(c.Int(0), x), c.Lt(x, alloc))
		case lkFunc:
			out = append(out, c.Le(c.Int(0), x))
		case lkStr:
			if x.op == "var" || x.op == "select" || x.op != "str.++" {
				out = append(out, c.Le(c.StrLen(x), c.BigInt(maxInt)))
			}
		case lkSliceArr:
			off, ln, cp := ts[i+1], ts[i+2], ts[i+3]
			out = append(out, c.Le(c.Int(0), x), c.Lt(x, alloc), c.Le(c.Int(0), off), c.Le(c.Int(0), ln), c.Le(ln, cp),
				c.Le(c.Add(off, cp), c.BigInt(maxInt)), c.Implies(c.Eq(x, c.Int(0)), c.Eq(cp, c.Int(0))))
		case lkTag:
			out = append(out, c.Le(c.Int(0), x), c.Implies(c.Eq(x, c.Int(0)), c.Eq(ts[i+1], ex.nilBox())))
		}
	}
	return out
}

// ite merges two values of the same type.
func (ex *Exec) iteVal(p *Term, a, b Val, t types.Type) Val {
	if p.isTrue() {
		return a
	}
	if p.isFalse() {
		return b
	}
	if fa, ok := a.(FuncV); ok {
		if fb, ok := b.(FuncV); ok && fa.Fn == fb.Fn && fa.Fn != nil && len(fa.Bind) == 0 {
			return a
		}
	}
	if ia, ok := a.(IfaceV); ok {
		if ib, ok := b.(IfaceV); ok && ia.Tag == ib.Tag && ia.Pay == ib.Pay {
			return a
		}
	}
	ta, tb := ex.pack(a, t), ex.pack(b, t)
	var ts []*Term
	for i := range ta {
		ts = append(ts, ex.c.Ite(p, ta[i], tb[i]))
	}
	return ex.unpack(ts, t)
}

func (ex *Exec) eqVal(a, b Val, t types.Type) *Term {
	if sv, ok := a.(SliceV); ok { // only comparison with nil
		_ = sv
		bs := b.(SliceV)
		return ex.c.Eq(sv.Arr, bs.Arr)
	}
	ta, tb := ex.pack(a, t), ex.pack(b, t)
	var cs []*Term
	ls := leaves(t)
	for i := range ta {
		if ls[i].Kind == lkFloat {
			cs = append(cs, ex.c.App("f64eq", sBool, ta[i], tb[i]))
			continue
		}
		cs = append(cs, ex.c.Eq(ta[i], tb[i]))
	}
	return ex.c.And(cs...)
}

type boxInfo struct {
	t types.Type
	v Val
}

// makeIface boxes a value of concrete type t.
func (ex *Exec) makeIface(st *State, v Val, t types.Type) IfaceV {
	ls := ex.pack(v, t)
	key := typeKey(t)
	id := ex.c.Int(ex.v.typeID(t))
	var pay *Term
	if len(ls) == 0 {
		pay = ex.c.Const("box$"+key, sBox)
	} else {
		pay = ex.c.App("box$"+key, sBox, ls...)
		if pay.hasBV {
			// Under a quantifier the law is stated for all values.
			bs := make([]*Term, len(ls))
			for i, l := range ls {
				bs[i] = ex.c.BVar(fmt.Sprintf("bx%d?", i), l.sort)
			}
			all := ex.c.App("box$"+key, sBox, bs...)
			for i, b := range bs {
				st.assume(ex.c.Forall(bs, ex.c.Eq(ex.c.App(fmt.Sprintf("unbox$%s$%d", key, i), b.sort, all), b), []*Term{all}))
			}
		} else {
			for i, l := range ls {
				st.assume(ex.c.Eq(ex.c.App(fmt.Sprintf("unbox$%s$%d", key, i), l.sort, pay), l))
			}
		}
	}
	ex.v.boxed[pay] = boxInfo{t, v}
	return IfaceV{Tag: id, Pay: pay, Dyn: t, DynVal: v}
}

// unboxAs gives the value of concrete type t inside iface payload pay.
func (ex *Exec) unboxAs(iv IfaceV, t types.Type) (Val, *Term) {
	if iv.Dyn != nil && types.Identical(iv.Dyn, t) {
		return iv.DynVal, ex.c.True()
	}
	key := typeKey(t)
	var ts []*Term
	ls := leaves(t)
	for i, l := range ls {
		ts = append(ts, ex.c.App(fmt.Sprintf("unbox$%s$%d", key, i), l.Sort, iv.Pay))
	}
	v := ex.unpack(ts, t)
	var ext *Term
	if len(ts) == 0 {
		ext = ex.c.Eq(iv.Pay, ex.c.Const("box$"+key, sBox))
	} else {
		ext = ex.c.Eq(iv.Pay, ex.c.App("box$"+key, sBox, ts...))
	}
	return v, ext
}
