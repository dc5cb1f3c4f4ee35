package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// modelCall is the call of a library function that has a built-in model.
type modelCall struct {
	ex   *Exec
	fr   *Frame
	st   *State
	fn   *ssa.Function
	name string
	sig  *types.Signature
	args []Val
	pos  string
	k    callCont
}

func (m *modelCall) s(i int) *Term { return m.args[i].(*Term) }
func (m *modelCall) ret(v ...Val)  { m.k(m.st, v) }

// uf is the uninterpreted result of the call, for facts on top of it.
func (m *modelCall) uf() []Val { return m.ex.ufResult(m.st, m.name, m.sig, m.args) }

var models map[string]func(*modelCall)

func init() {
	models = map[string]func(*modelCall){
		"(*sync.Mutex).Lock":             func(m *modelCall) { m.lock(-1) },
		"(*sync.Mutex).Unlock":           func(m *modelCall) { m.unlock(-1) },
		"(*sync.RWMutex).Lock":           func(m *modelCall) { m.lock(-1) },
		"(*sync.RWMutex).Unlock":         func(m *modelCall) { m.unlock(-1) },
		"(*sync.RWMutex).RLock":          func(m *modelCall) { m.lock(1) },
		"(*sync.RWMutex).RUnlock":        func(m *modelCall) { m.unlock(1) },
		"(*strings.Builder).WriteString": func(m *modelCall) { m.bufAppend(m.s(1), 2) },
		"(*strings.Builder).WriteByte":   func(m *modelCall) { m.bufAppend(m.ex.c.Raw("str.from_code", sStr, m.s(1)), 1) },
		"(*strings.Builder).WriteRune":   func(m *modelCall) { m.bufAppend(m.ex.runeToString(m.st, m.s(1)), 2) },
		"(*strings.Builder).Write":       func(m *modelCall) { m.bufAppend(m.bytesOf(1), 2) },
		"(*strings.Builder).String":      func(m *modelCall) { m.ret(m.bufText()) },
		"(*strings.Builder).Len":         func(m *modelCall) { m.ret(m.ex.c.StrLen(m.bufText())) },
		"(*strings.Builder).Reset":       func(m *modelCall) { m.bufSet(m.ex.c.Str("")); m.ret() },
		"(*strings.Builder).Grow":        func(m *modelCall) { m.ret() },
		"(*bytes.Buffer).WriteString":    func(m *modelCall) { m.bufAppend(m.s(1), 2) },
		"(*bytes.Buffer).WriteByte":      func(m *modelCall) { m.bufAppend(m.ex.c.Raw("str.from_code", sStr, m.s(1)), 1) },
		"(*bytes.Buffer).WriteRune":      func(m *modelCall) { m.bufAppend(m.ex.runeToString(m.st, m.s(1)), 2) },
		"(*bytes.Buffer).Write":          func(m *modelCall) { m.bufAppend(m.bytesOf(1), 2) },
		"(*bytes.Buffer).String":         func(m *modelCall) { m.ret(m.bufText()) },
		"(*bytes.Buffer).Len":            func(m *modelCall) { m.ret(m.ex.c.StrLen(m.bufText())) },
		"(*bytes.Buffer).Reset":          func(m *modelCall) { m.bufSet(m.ex.c.Str("")); m.ret() },
		"(*bytes.Buffer).Bytes": func(m *modelCall) {
			m.ret(m.ex.convert(m.fr, m.st, m.bufText(), types.Typ[types.String], types.NewSlice(types.Typ[types.Byte])))
		},
		"fmt.Fprintf": func(m *modelCall) { m.fprint(true) },
		"fmt.Fprint":  func(m *modelCall) { m.fprint(false) },

		"(*text/template.Template).Execute": modelExecute,
		"reflect.TypeOf": func(m *modelCall) {
			m.ex.typeOfFacts(m.st, m.args[0].(IfaceV))
			m.ret(m.ex.typeOf(m.args[0].(IfaceV)))
		},
		"sort.Search":     modelSearch,
		"sort.SearchInts": modelSearchInts,

		"strings.HasPrefix": func(m *modelCall) { m.ret(m.ex.c.HasPrefix(m.s(0), m.s(1))) },
		"strings.HasSuffix": func(m *modelCall) { m.ret(m.ex.c.Raw("str.suffixof", sBool, m.s(1), m.s(0))) },
		"strings.Contains":  func(m *modelCall) { m.ret(m.ex.c.Raw("str.contains", sBool, m.s(0), m.s(1))) },
		"strings.Index": func(m *modelCall) {
			m.ret(m.ex.c.Raw("str.indexof", sInt, m.s(0), m.s(1), m.ex.c.Int(0)))
		},
		"strings.IndexByte": func(m *modelCall) {
			m.ret(m.ex.c.Raw("str.indexof", sInt, m.s(0), m.ex.c.Raw("str.from_code", sStr, m.s(1)), m.ex.c.Int(0)))
		},
		"strings.TrimPrefix": func(m *modelCall) {
			c := m.ex.c
			p := c.HasPrefix(m.s(0), m.s(1))
			m.ret(c.Ite(p, m.ex.substr(m.s(0), c.StrLen(m.s(1)), c.StrLen(m.s(0))), m.s(0)))
		},
		"strings.TrimSuffix": func(m *modelCall) {
			c := m.ex.c
			p := c.Raw("str.suffixof", sBool, m.s(1), m.s(0))
			m.ret(c.Ite(p, m.ex.substr(m.s(0), c.Int(0), c.Sub(c.StrLen(m.s(0)), c.StrLen(m.s(1)))), m.s(0)))
		},
		"strings.Join":      modelJoin,
		"strings.IndexFunc": indexRange, "strings.IndexAny": indexRange,
		"strings.IndexRune": func(m *modelCall) {
			c := m.ex.c
			r := m.args[1].(*Term)
			at := m.uf()[0].(*Term)
			m.st.assume(c.And(c.Le(c.Int(-1), at), c.Le(at, c.StrLen(m.s(0)))))
			ascii := c.And(c.Le(c.Int(0), r), c.Lt(r, c.Int(128)))
			m.ret(c.Ite(ascii, c.Raw("str.indexof", sInt, m.s(0), c.Raw("str.from_code", sStr, r), c.Int(0)), at))
		},
		"strings.LastIndex": func(m *modelCall) { m.ret(m.ex.lastIndex(m.st, m.s(0), m.s(1))) },
		"strings.LastIndexByte": func(m *modelCall) {
			m.ret(m.ex.lastIndex(m.st, m.s(0), m.ex.c.Raw("str.from_code", sStr, m.s(1))))
		},
		"strings.LastIndexAny": indexRange, "strings.LastIndexFunc": indexRange,

		"fmt.Sprintf":                 modelSprintf,
		"fmt.Sprint":                  func(m *modelCall) { m.ret(m.uf()...) },
		"fmt.Errorf":                  modelErr,
		"errors.New":                  modelErr,
		"golang.org/x/xerrors.New":    modelErr,
		"golang.org/x/xerrors.Errorf": modelErr,
	}
}

// lastIndex is the position of the last occurrence of t in s, or -1.
func (ex *Exec) lastIndex(sink *State, s, t *Term) *Term {
	c := ex.c
	r := c.App("strings.LastIndex", sInt, s, t)
	end := c.Add(r, c.StrLen(t))
	at := c.Raw("str.substr", sStr, s, r, c.StrLen(t))
	rest := c.Raw("str.substr", sStr, s, c.Add(r, c.Int(1)), c.StrLen(s))
	none := c.And(c.Eq(r, c.Int(-1)), c.Not(c.Raw("str.contains", sBool, s, t)))
	some := c.And(c.Le(c.Int(0), r), c.Le(end, c.StrLen(s)), c.Eq(at, t), c.Or(c.Eq(c.StrLen(t), c.Int(0)), c.Not(c.Raw("str.contains", sBool, rest, t))))
	if sink != nil {
		sink.assume(c.Or(none, some))
	}
	return r
}

// indexRange: an index of a substring or character, or -1.
func indexRange(m *modelCall) {
	c := m.ex.c
	r := m.uf()
	t := r[0].(*Term)
	m.st.assume(c.Le(c.Int(-1), t))
	m.st.assume(c.Le(t, c.StrLen(m.s(0))))
	m.st.assume(c.Or(c.Lt(t, c.StrLen(m.s(0))), c.Eq(c.StrLen(m.s(0)), c.Int(0))))
	m.ret(r...)
}

// Text buffers -----------------------------------------------------------------

func (m *modelCall) bufPtr(v Val) PtrV {
	p, ok := v.(PtrV)
	if !ok {
		unsup("text buffer through %T", v)
	}
	m.ex.checkNil(m.st, p, "text buffer", m.pos)
	return p
}

func (m *modelCall) bufText() *Term { return m.ex.load(m.st, m.bufPtr(m.args[0])).(*Term) }
func (m *modelCall) bufSet(t *Term) { m.ex.store(m.st, m.bufPtr(m.args[0]), t) }

func (m *modelCall) bytesOf(i int) *Term {
	return m.ex.convert(m.fr, m.st, m.args[i], types.NewSlice(types.Typ[types.Byte]), types.Typ[types.String]).(*Term)
}

// bufAppend adds text; n results: (int, error), or error.
func (m *modelCall) bufAppend(t *Term, n int) {
	m.bufSet(m.ex.c.Concat(m.bufText(), t))
	nilErr := m.ex.zero(types.Universe.Lookup("error").Type())
	if n == 1 {
		m.ret(nilErr)
		return
	}
	m.ret(m.ex.c.StrLen(t), nilErr)
}

// fprint is fmt.Fprintf or Fprint to a text buffer.
func (m *modelCall) fprint(format bool) {
	iv, ok := m.args[0].(IfaceV)
	if !ok || iv.Dyn == nil {
		unsup("%s to an unknown writer", m.name)
	}
	pt, ok := iv.Dyn.(*types.Pointer)
	if !ok || !isTextBuffer(pt.Elem()) {
		unsup("%s to a %s", m.name, iv.Dyn)
	}
	var text *Term
	if format {
		if t, ok := m.format(m.s(1), 2); ok {
			text = t
		}
	}
	if text == nil {
		var ts []*Term
		for i := 1; i < len(m.args); i++ {
			ts = append(ts, m.ex.argTerms(m.st, m.args[i], m.sig.Params().At(i).Type())...)
		}
		text = m.ex.c.App(fmt.Sprintf("fprint$%s/%d", m.name, len(ts)), sStr, ts...)
	}
	m.args = append([]Val{iv.DynVal}, m.args[1:]...)
	m.bufAppend(text, 2)
}

// modelExecute: a template writes some text to a text buffer, or fails.
func modelExecute(m *modelCall) {
	iv, ok := m.args[1].(IfaceV)
	if !ok || iv.Dyn == nil {
		unsup("%s to an unknown writer", m.name)
	}
	pt, ok := iv.Dyn.(*types.Pointer)
	if !ok || !isTextBuffer(pt.Elem()) {
		unsup("%s to a %s", m.name, iv.Dyn)
	}
	p := m.bufPtr(iv.DynVal)
	c := m.ex.c
	m.ex.store(m.st, p, c.Concat(m.ex.load(m.st, p).(*Term), c.Fresh("template", sStr)))
	m.ret(m.ex.freshVal("template_err", types.Universe.Lookup("error").Type()))
}

// Locks -----------------------------------------------------------------------

func (m *modelCall) lockVar() (PtrV, *Term) {
	ex, c := m.ex, m.ex.c
	p, ok := m.args[0].(PtrV)
	if !ok {
		unsup("lock through %T", m.args[0])
	}
	if p.Kind == pGlobal {
		return p, m.st.get(lockHeap(p), sInt)
	}
	if p.Kind != pObj {
		unsup("lock in a slice element")
	}
	ex.checkNil(m.st, p, "lock", m.pos)
	h := m.st.get(lockHeap(p), arr(sInt, sInt))
	return p, c.Select(h, p.Idx[0])
}

func (m *modelCall) setLock(p PtrV, v *Term) {
	c := m.ex.c
	if p.Kind == pGlobal {
		m.st.set(lockHeap(p), v, nil)
		return
	}
	h := m.st.get(lockHeap(p), arr(sInt, sInt))
	m.st.set(lockHeap(p), c.Store(h, p.Idx[0], v), p.Idx[0])
}

func (m *modelCall) lock(kind int64) {
	c := m.ex.c
	p, cur := m.lockVar()
	m.ex.oblige(m.st, "no self-deadlock", "lock is not already held", c.Eq(cur, c.Int(0)), m.pos)
	m.setLock(p, c.Int(kind))
	m.k(m.st, nil)
}

func (m *modelCall) unlock(kind int64) {
	c := m.ex.c
	p, cur := m.lockVar()
	m.ex.oblige(m.st, "no panic", "unlock of a lock that is held", c.Eq(cur, c.Int(kind)), m.pos)
	m.setLock(p, c.Int(0))
	m.k(m.st, nil)
}

// Sorting and searching -------------------------------------------------------

// modelSearch: sort.Search returns the boundary found by binary search. With
// f not monotone the result is still r with (r==0 or !f(r-1)) and (r==n or f(r)).
func modelSearch(m *modelCall) {
	ex, c, st := m.ex, m.ex.c, m.st
	n := m.s(0)
	f := m.args[1].(FuncV)
	ex.branch(st, c.Le(n, c.Int(0)), "sort.Search of an empty range", func(s *State) {
		m.k(s, []Val{c.Int(0)})
	}, func(s *State) {
		r := c.Fresh("search", sInt)
		s.assume(c.Le(c.Int(0), r))
		s.assume(c.Le(r, n))
		// the predicate must not fail at any index it can be called with
		i := c.Fresh("probe", sInt)
		ps := s.clone()
		ps.assume(c.Le(c.Int(0), i))
		ps.assume(c.Lt(i, n))
		ex.callFuncV(m.fr, ps, f, funcSig(f, m.sig, 1), []Val{i}, m.pos, func(*State, []Val) {})
		at := func(s *State, x *Term, want bool, k func(*State)) {
			ex.suppress++
			done := ex.suppress
			ex.callFuncV(m.fr, s, f, funcSig(f, m.sig, 1), []Val{x}, m.pos, func(s2 *State, res []Val) {
				save := ex.suppress
				ex.suppress = done - 1
				b := res[0].(*Term)
				if !want {
					b = c.Not(b)
				}
				s2.assume(b)
				if ex.feasible(s2) {
					k(s2)
				}
				ex.suppress = save
			})
			ex.suppress--
		}
		ex.branch(s, c.Eq(r, c.Int(0)), "search result 0", func(s *State) {
			at(s, c.Int(0), true, func(s *State) { m.k(s, []Val{c.Int(0)}) })
		}, func(s *State) {
			at(s, c.Sub(r, c.Int(1)), false, func(s *State) {
				ex.branch(s, c.Eq(r, n), "search result n", func(s *State) {
					m.k(s, []Val{r})
				}, func(s *State) {
					at(s, r, true, func(s *State) { m.k(s, []Val{r}) })
				})
			})
		})
	})
}

func funcSig(f FuncV, sig *types.Signature, i int) *types.Signature {
	if f.Fn != nil {
		return f.Fn.Signature
	}
	return sig.Params().At(i).Type().Underlying().(*types.Signature)
}

// modelSearchInts: binary search for x in a[0:len).
func modelSearchInts(m *modelCall) {
	ex, c, st := m.ex, m.ex.c, m.st
	s := m.args[0].(SliceV)
	x := m.s(1)
	et := types.Typ[types.Int]
	r := c.Fresh("search", sInt)
	st.assume(c.And(c.Le(c.Int(0), r), c.Le(r, s.Len)))
	at := func(i *Term) *Term { return ex.load(st, ex.elemPtr(s, et, i)).(*Term) }
	st.assume(c.Implies(c.Gt(r, c.Int(0)), c.Lt(at(c.Sub(r, c.Int(1))), x)))
	st.assume(c.Implies(c.Lt(r, s.Len), c.Ge(at(r), x)))
	m.ret(r)
}

// Strings ---------------------------------------------------------------------

func modelJoin(m *modelCall) {
	ex, c := m.ex, m.ex.c
	s := m.args[0].(SliceV)
	if s.Len.op == "int" && s.Len.ival.IsInt64() && s.Len.ival.Int64() <= 16 {
		var ps []*Term
		for i := int64(0); i < s.Len.ival.Int64(); i++ {
			if i > 0 {
				ps = append(ps, m.s(1))
			}
			ps = append(ps, ex.load(m.st, ex.elemPtr(s, types.Typ[types.String], c.Int(i))).(*Term))
		}
		m.ret(c.Concat(ps...))
		return
	}
	m.ret(m.uf()...)
}

// variadic returns the elements of the variadic argument if they are known.
func (m *modelCall) variadic(i int) ([]IfaceV, bool) {
	s, ok := m.args[i].(SliceV)
	if !ok || s.Len.op != "int" {
		return nil, false
	}
	var out []IfaceV
	et := m.sig.Params().At(i).Type().Underlying().(*types.Slice).Elem()
	for j := int64(0); j < s.Len.ival.Int64(); j++ {
		v := m.ex.load(m.st, m.ex.elemPtr(s, et, m.ex.c.Int(j)))
		iv, ok := v.(IfaceV)
		if !ok {
			return nil, false
		}
		out = append(out, iv)
	}
	return out, true
}

// modelSprintf expands formats that consist of literal text, %s with string
// arguments, %d with integers and %c with runes; anything else is an
// uninterpreted function of the format and the arguments.
func modelSprintf(m *modelCall) {
	c := m.ex.c
	if t, ok := m.format(m.s(0), 1); ok {
		m.ret(t)
		return
	}
	_ = c
	m.ret(m.uf()...)
}

func (m *modelCall) format(f *Term, vi int) (*Term, bool) {
	ex, c := m.ex, m.ex.c
	if f.op != "str" {
		return nil, false
	}
	args, ok := m.variadic(vi)
	if !ok {
		return nil, false
	}
	var parts []*Term
	n := 0
	s := f.sval
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			parts = append(parts, c.Str(s[i:i+1]))
			continue
		}
		i++
		if i >= len(s) {
			return nil, false
		}
		if s[i] == '%' {
			parts = append(parts, c.Str("%"))
			continue
		}
		if n >= len(args) {
			return nil, false
		}
		a := args[n]
		n++
		if a.Dyn == nil {
			return nil, false
		}
		if t, ok := m.formatStringer(a, s[i]); ok {
			parts = append(parts, t)
			continue
		}
		b, isBasic := a.Dyn.Underlying().(*types.Basic)
		if !isBasic {
			return nil, false
		}
		t, isTerm := a.DynVal.(*Term)
		if !isTerm {
			return nil, false
		}
		hasMethods := types.NewMethodSet(a.Dyn).Len() > 0
		switch s[i] {
		case 's', 'v':
			if b.Info()&types.IsString != 0 && !hasMethods {
				parts = append(parts, t)
				continue
			}
			if s[i] == 'v' && b.Info()&types.IsInteger != 0 && !hasMethods {
				parts = append(parts, ex.itoa(t))
				continue
			}
			if hasMethods {
				if sel := types.NewMethodSet(a.Dyn).Lookup(nil, "String"); sel != nil && types.NewMethodSet(a.Dyn).Lookup(nil, "Error") == nil {
					if fn := ex.v.prog.Prog.MethodValue(sel); fn != nil && inRepo(fn) {
						r, ok := ex.pureCall(m.st, fn, []Val{a.DynVal})
						if ok {
							parts = append(parts, r[0].(*Term))
							continue
						}
					}
				}
			}
			return nil, false
		case 'd':
			if b.Info()&types.IsInteger != 0 {
				parts = append(parts, ex.itoa(t))
				continue
			}
			return nil, false
		case 'c':
			if b.Info()&types.IsInteger != 0 {
				parts = append(parts, ex.runeToString(m.st, t))
				continue
			}
			return nil, false
		case 'q':
			if b.Info()&types.IsString != 0 && !hasMethods {
				parts = append(parts, c.App("ext$strconv.Quote#0/1", sStr, t))
				continue
			}
			return nil, false
		default:
			return nil, false
		}
	}
	if n != len(args) {
		return nil, false
	}
	return c.Concat(parts...), true
}

// formatStringer is the text of a pointer with a String method that has a
// contract, under the preconditions of the method.
func (m *modelCall) formatStringer(a IfaceV, verb byte) (*Term, bool) {
	ex := m.ex
	if _, ok := a.Dyn.Underlying().(*types.Pointer); !ok || verb != 's' && verb != 'v' {
		return nil, false
	}
	ms := types.NewMethodSet(a.Dyn)
	sel := ms.Lookup(nil, "String")
	if sel == nil || ms.Lookup(nil, "Error") != nil {
		return nil, false
	}
	fn := ex.v.prog.Prog.MethodValue(sel)
	if fn == nil || !inRepo(fn) || len(fn.Params) != 1 {
		return nil, false
	}
	ct := ex.contractFor(fn)
	if ct == nil || len(ct.Modifies) > 0 || ct.Kind != "func" || fn.Signature.Results().Len() != 1 {
		return nil, false
	}
	env := &specEnv{ex: ex, st: m.st, old: m.st, vars: map[string]TV{fn.Params[0].Name(): {V: a.DynVal, T: a.Dyn}}, pkg: ct.Pkg}
	for i, cl := range ct.Requires {
		ex.obligeSplit(m.st, "precondition of "+shortFn(ct.Key), labelOr(cl, i), env.boolOf(cl.E), m.pos)
	}
	ex.v.called[ct.Key] = true
	r := ex.c.Fresh("formatted", sStr)
	env.bindResult(0, 1, "", ct, TV{V: r, T: types.Typ[types.String]})
	for _, cl := range ct.Ensures {
		if t := env.boolOf(cl.E); !t.hasBV {
			m.st.assume(t)
		}
	}
	return r, true
}

// itoa is the decimal representation of an integer.
func (ex *Exec) itoa(t *Term) *Term {
	c := ex.c
	if t.op == "int" {
		return c.Str(t.ival.String())
	}
	return c.App("ext$strconv.Itoa#0/1", sStr, t)
}

// pureCall evaluates a method without side effects by merging its paths.
func (ex *Exec) pureCall(st *State, fn *ssa.Function, args []Val) (res []Val, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case unsupported, specErr:
				if os.Getenv("GVC_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "pureCall", fn, r)
				}
				res, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	e := &specEnv{ex: ex, st: st, vars: map[string]TV{}}
	v := e.goCall(&Expr{Op: "call"}, fn, args, nil)
	return []Val{v.V}, true
}

// modelErr makes a new non-nil error whose text is known if the format is.
func modelErr(m *modelCall) {
	ex, c, st := m.ex, m.ex.c, m.st
	ref := st.newRef()
	et := types.Typ[types.UnsafePointer]
	_ = et
	pay := c.App("newerr", sBox, ref)
	tag := c.Int(ex.v.typeID(errType))
	st.assume(c.Eq(c.App("newerr$ref", sInt, pay), ref))
	iv := IfaceV{Tag: tag, Pay: pay}
	var text *Term
	if m.name == "errors.New" || strings.HasSuffix(m.name, "xerrors.New") {
		text = m.s(0)
	} else if t, ok := m.format(m.s(0), 1); ok {
		text = t
	}
	if text != nil {
		st.assume(c.Eq(c.App("error$text", sStr, tag, pay), text))
	}
	m.ret(iv)
}

// errType stands for the unexported error types of the errors and fmt packages.
var errType = types.NewNamed(types.NewTypeName(0, types.NewPackage("errors", "errors"), "errorString", nil), types.NewStruct(nil, nil), nil)

var _ = fmt.Sprint
