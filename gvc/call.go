package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type callCont func(*State, []Val)

func (ex *Exec) contractFor(fn *ssa.Function) *Contract {
	if fn == nil {
		return nil
	}
	return ex.v.spec.Contracts[fn.String()]
}

// call executes a call instruction.
func (ex *Exec) call(fr *Frame, st *State, cc *ssa.CallCommon, in ssa.Instruction, fv Val, args []Val, k callCont) {
	ex.curInstr = in
	pos := ex.pos(in.Pos())
	if cc.IsInvoke() {
		iv, ok := fv.(IfaceV)
		if !ok {
			unsup("invoke on %T", fv)
		}
		ex.invoke(fr, st, iv, cc.Value.Type(), cc.Method, args, pos, k)
		return
	}
	f, ok := fv.(FuncV)
	if !ok {
		unsup("call of %T", fv)
	}
	if f.Builtin != nil {
		ex.builtin(fr, st, f.Builtin, cc, in, args, pos, k)
		return
	}
	ex.callFuncV(fr, st, f, cc.Signature(), args, pos, k)
}

func (ex *Exec) callFuncV(fr *Frame, st *State, f FuncV, sig *types.Signature, args []Val, pos string, k callCont) {
	if f.Fn != nil {
		ex.callFn(fr, st, f.Fn, args, f.Bind, pos, k)
		return
	}
	// unknown function value
	ex.callUnknown(fr, st, f, sig, args, pos, k)
}

func (ex *Exec) invoke(fr *Frame, st *State, iv IfaceV, it types.Type, m *types.Func, args []Val, pos string, k callCont) {
	c := ex.c
	if iv.Dyn != nil {
		fn := ex.v.prog.Prog.LookupMethod(iv.Dyn, m.Pkg(), m.Name())
		if fn != nil {
			ex.callFn(fr, st, fn, append([]Val{iv.DynVal}, args...), nil, pos, k)
			return
		}
	}
	ex.oblige(st, "no nil dereference", "method call on a nil interface", c.Not(c.Eq(iv.Tag, c.Int(0))), pos)
	it = types.Unalias(it)
	key := "iface (" + typeKey(it) + ")." + m.Name()
	ct := ex.v.spec.Contracts[key]
	if ct == nil {
		// a method inherited from an embedded interface
		if nt := recvNamed(m); nt != "" {
			ct = ex.v.spec.Contracts["iface ("+nt+")."+m.Name()]
		}
	}
	sig := m.Type().(*types.Signature)
	if ct != nil {
		names := []string{"self"}
		vals := []TV{{V: iv, T: it}}
		for i := 0; i < sig.Params().Len(); i++ {
			n := sig.Params().At(i).Name()
			if i < len(ct.Params) {
				n = ct.Params[i]
			}
			names = append(names, n)
			vals = append(vals, TV{V: args[i], T: sig.Params().At(i).Type()})
		}
		if ct.PureUF {
			ex.applyPure(st, ct, ct.Key, sig, names, vals, append([]Val{iv}, args...), pos, k)
			return
		}
		ex.applyContract(fr, st, ct, key, sig, names, vals, pos, k)
		return
	}
	if key == "iface (error).Error" {
		k(st, []Val{c.App("error$text", sStr, iv.Tag, iv.Pay)})
		return
	}
	if typeKey(it) == "reflect.Type" {
		// descriptions of types are immutable
		ex.v.modelsUsed["methods of reflect.Type (uninterpreted, assumed not to panic)"] = true
		ts := []*Term{iv.Tag, iv.Pay}
		for i, a := range args {
			ts = append(ts, ex.argTerms(st, a, sig.Params().At(i).Type())...)
		}
		var res []Val
		for i := 0; i < sig.Results().Len(); i++ {
			res = append(res, ex.ufValue(st, fmt.Sprintf("ext$%s#%d", key, i), sig.Results().At(i).Type(), ts))
		}
		k(st, res)
		return
	}
	unsup("interface method %s has no contract", key)
}

func recvNamed(m *types.Func) string {
	r := m.Type().(*types.Signature).Recv()
	if r == nil {
		return ""
	}
	return typeKey(r.Type())
}

func inRepo(fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return strings.HasPrefix(f.Pkg.Pkg.Path(), repoModule)
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return strings.HasPrefix(f.Object().Pkg().Path(), repoModule)
	}
	return true // synthetic wrapper
}

// callFn calls a statically known function.
func (ex *Exec) callFn(fr *Frame, st *State, fn *ssa.Function, args, bind []Val, pos string, k callCont) {
	if len(bind) == 1 && strings.HasPrefix(fn.Synthetic, "bound method wrapper") {
		// a method value: the receiver is bound
		if obj, ok := fn.Object().(*types.Func); ok {
			rt := obj.Type().(*types.Signature).Recv().Type()
			if it, isI := rt.Underlying().(*types.Interface); isI {
				_ = it
				ex.invoke(fr, st, bind[0].(IfaceV), rt, obj, args, pos, k)
				return
			}
			if m := ex.v.prog.Prog.FuncValue(obj); m != nil {
				ex.callFn(fr, st, m, append([]Val{bind[0]}, args...), nil, pos, k)
				return
			}
		}
	}
	name := fn.String()
	ct := ex.v.spec.Contracts[name]
	sig := fn.Signature
	if ct != nil && !ct.Inline && (ex.inSpecCall == 0 || ct.PureUF) {
		var names []string
		var vals []TV
		if fn.Params != nil {
			for i, p := range fn.Params {
				n := p.Name()
				if i < len(ct.Params) {
					n = ct.Params[i]
				}
				names = append(names, n)
				vals = append(vals, TV{V: args[i], T: p.Type()})
			}
		} else {
			i := 0
			if r := sig.Recv(); r != nil {
				n := "self"
				if len(ct.Params) > 0 {
					n = ct.Params[0]
				}
				names = append(names, n)
				vals = append(vals, TV{V: args[0], T: r.Type()})
				i = 1
			}
			for j := 0; j < sig.Params().Len(); j++ {
				n := sig.Params().At(j).Name()
				if i+j < len(ct.Params) {
					n = ct.Params[i+j]
				}
				names = append(names, n)
				vals = append(vals, TV{V: args[i+j], T: sig.Params().At(j).Type()})
			}
		}
		if ct.PureUF {
			ex.applyPure(st, ct, name, sig, names, vals, args, pos, k)
			return
		}
		ex.applyContract(fr, st, ct, name, sig, names, vals, pos, k)
		return
	}
	if m, ok := models[name]; ok {
		ex.v.modelsUsed[name] = true
		m(&modelCall{ex: ex, fr: fr, st: st, fn: fn, name: name, sig: sig, args: args, pos: pos, k: k})
		return
	}
	if fn.Blocks != nil && inRepo(fn) {
		ex.inlineCall(fr, st, fn, args, bind, pos, k)
		return
	}
	if isPurePkgFunc(fn) {
		ex.v.modelsUsed[name+" (uninterpreted)"] = true
		k(st, ex.ufResult(st, name, sig, args))
		return
	}
	unsup("call of %s: no contract or model", name)
}

func (ex *Exec) inlineCall(fr *Frame, st *State, fn *ssa.Function, args, bind []Val, pos string, k callCont) {
	depth := 0
	for f := fr; f != nil; f = f.parent {
		if f.fn == fn {
			unsup("recursive call of %s without a contract", fn)
		}
		depth++
	}
	if depth > 40 {
		unsup("call depth")
	}
	if fn.Recover != nil && usesRecover(fn) {
		unsup("%s recovers from panics", fn)
	}
	ex.v.inlined[fn.String()] = true
	nf := &Frame{fn: fn, env: map[ssa.Value]Val{}, names: map[string]TV{}, parent: fr, depth: depth, loops: map[*ssa.BasicBlock]*loopAct{}, k: k}
	if fr != nil {
		nf.site = fr.site + "/" + fn.String()
	}
	for i, p := range fn.Params {
		nf.env[p] = args[i]
		nf.names[p.Name()] = TV{V: args[i], T: p.Type()}
	}
	for i, b := range fn.FreeVars {
		nf.env[b] = bind[i]
		if pt, ok := b.Type().Underlying().(*types.Pointer); ok {
			_ = pt
			nf.names[b.Name()] = TV{V: bind[i], T: b.Type(), Addr: true}
		}
	}
	ex.runBlock(nf, st, fn.Blocks[0], nil)
}

func usesRecover(fn *ssa.Function) bool {
	var scan func(f *ssa.Function) bool
	scan = func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if bi, ok := c.Common().Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
						return true
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			if scan(a) {
				return true
			}
		}
		return false
	}
	return scan(fn)
}

// applyPure is the call of a function whose contract says that its result
// depends only on its arguments.
func (ex *Exec) applyPure(st *State, ct *Contract, name string, sig *types.Signature, names []string, vals []TV, args []Val, pos string, k callCont) {
	if ct.Trusted != "" || ct.Kind != "func" {
		ex.v.trustUsed[name] = true
	} else {
		ex.v.called[ct.Key] = true
	}
	vars := map[string]TV{}
	for i, n := range names {
		if n != "" && n != "_" {
			vars[n] = vals[i]
		}
	}
	env := &specEnv{ex: ex, st: st, old: st, vars: vars, pkg: ct.Pkg}
	for i, cl := range ct.Requires {
		ex.obligeSplit(st, "precondition of "+shortFn(name), labelOr(cl, i), env.boolOf(cl.E), pos)
	}
	res := ex.ufResult(st, name, sig, args)
	for i := range res {
		env.bindResult(i, len(res), sig.Results().At(i).Name(), ct, TV{V: res[i], T: sig.Results().At(i).Type()})
	}
	for _, cl := range ct.Ensures {
		t := env.boolOf(cl.E)
		if !t.hasBV {
			st.assume(t)
		}
	}
	k(st, res)
}

// ufResult gives the result of a pure function as uninterpreted functions of
// its arguments.
func (ex *Exec) ufResult(st *State, name string, sig *types.Signature, args []Val) []Val {
	var ts []*Term
	idx := 0
	if r := sig.Recv(); r != nil {
		ts = append(ts, ex.argTerms(st, args[0], r.Type())...)
		idx = 1
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, ex.argTerms(st, args[idx+i], sig.Params().At(i).Type())...)
	}
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		res = append(res, ex.ufValue(st, fmt.Sprintf("ext$%s#%d", name, i), rt, ts))
	}
	return res
}

func (ex *Exec) ufValue(st *State, name string, rt types.Type, ts []*Term) Val {
	// the number of argument terms is part of the name: variadic arguments of
	// different shape are different functions
	base := fmt.Sprintf("%s/%d", name, len(ts))
	var out []*Term
	for _, l := range leaves(rt) {
		out = append(out, ex.c.App(base+l.Path, l.Sort, ts...))
	}
	v := ex.unpack(out, rt)
	if typeKey(rt) == "reflect.Type" {
		// descriptions derived from others exist (the functions panic otherwise)
		if f := ex.c.Not(ex.c.Eq(out[0], ex.c.Int(0))); !f.hasBV {
			st.assume(f)
		}
	}
	// a result that depends only on the arguments is taken to exist already
	for _, f := range ex.facts(v, rt, st.alloc) {
		if !f.hasBV {
			st.assume(f)
		}
	}
	return v
}

// argTerms flattens an argument of a pure external function. Slices of basic
// values are passed by content where that is known.
func (ex *Exec) argTerms(st *State, v Val, t types.Type) []*Term {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		s := v.(SliceV)
		if s.Len.op == "int" && s.Len.ival.IsInt64() && s.Len.ival.Int64() <= 16 {
			var out []*Term
			for i := int64(0); i < s.Len.ival.Int64(); i++ {
				e := ex.load(st, ex.elemPtr(s, u.Elem(), ex.c.Int(i)))
				out = append(out, ex.argTerms(st, e, u.Elem())...)
			}
			return out
		}
		var out []*Term
		for _, l := range leaves(u.Elem()) {
			out = append(out, ex.elemArr(st, u.Elem(), l, s.Arr))
		}
		return append(out, s.Off, s.Len)
	case *types.Signature:
		if f, ok := v.(FuncV); ok && f.Ref == nil && len(f.Bind) > 0 {
			unsup("closure passed to an external function")
		}
	}
	return ex.pack(v, t)
}

var purePkgs = map[string]bool{"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "fmt": true, "path": true, "path/filepath": true,
	"errors": true, "math": true, "regexp": true, "net/url": true, "golang.org/x/xerrors": true, "time": true, "github.com/stoewer/go-strcase": true}

var impureNames = map[string]bool{"fmt.Fprintf": true, "fmt.Fprint": true, "fmt.Fprintln": true, "fmt.Printf": true, "fmt.Println": true, "fmt.Print": true,
	"fmt.Sscanf": true, "fmt.Sscan": true, "fmt.Scan": true, "time.Now": true, "time.Sleep": true, "time.Since": true}

// pureReflect lists functions of package reflect whose result is determined by
// their arguments (locations and types, not contents of memory).
var pureReflect = map[string]bool{"reflect.ValueOf": true, "reflect.TypeOf": true, "reflect.PtrTo": true, "reflect.PointerTo": true,
	"(reflect.Value).Type": true, "(reflect.Value).Elem": true, "(reflect.Value).Field": true, "(reflect.Value).FieldByIndex": true,
	"(reflect.Value).Addr": true, "(reflect.Value).Interface": true, "(reflect.Value).Kind": true, "(reflect.Value).IsValid": true,
	"(reflect.StructTag).Lookup": true, "(reflect.StructTag).Get": true}

func isPurePkgFunc(fn *ssa.Function) bool {
	if fn.Object() == nil || fn.Object().Pkg() == nil {
		return false
	}
	p := fn.Object().Pkg().Path()
	if p == "reflect" {
		return pureReflect[fn.String()]
	}
	if !purePkgs[p] || impureNames[fn.String()] {
		return false
	}
	if r := fn.Signature.Recv(); r != nil {
		// methods on pointers to mutable library objects are not pure
		s := typeKey(r.Type())
		switch s {
		case "*regexp.Regexp", "*net/url.URL", "time.Time", "time.Duration", "*time.Location", "time.Month":
			return true
		}
		return false
	}
	return true
}

// applyContract replaces a call by the callee's contract.
func (ex *Exec) applyContract(fr *Frame, st *State, ct *Contract, name string, sig *types.Signature, names []string, vals []TV, pos string, k callCont) {
	c := ex.c
	if ct.Trusted != "" || ct.Kind != "func" {
		ex.v.trustUsed[name] = true
	} else {
		ex.v.called[ct.Key] = true
	}
	vars := map[string]TV{}
	for i, n := range names {
		if n != "" && n != "_" {
			vars[n] = vals[i]
		}
	}
	pre := st.clone()
	env := &specEnv{ex: ex, st: st, old: pre, vars: vars, pkg: ct.Pkg}
	ex.evalLets(env, ct)
	for i, cl := range ct.Requires {
		ex.obligeSplit(st, "precondition of "+shortFn(name), labelOr(cl, i), env.boolOf(cl.E), pos)
	}
	// panics
	var pcond *Term
	if len(ct.PanicsIff) > 0 || len(ct.MayPanic) > 0 || ct.AnyPanic {
		var ts []*Term
		for _, cl := range ct.PanicsIff {
			ts = append(ts, env.boolOf(cl.E))
		}
		exact := c.Or(ts...)
		ts = nil
		for _, cl := range ct.MayPanic {
			ts = append(ts, env.boolOf(cl.E))
		}
		may := c.Or(ts...)
		if ct.AnyPanic {
			may = c.True()
		}
		pcond = c.Or(exact, may)
		if !pcond.isFalse() && ex.suppress == 0 {
			ps := st.clone()
			ps.assume(pcond)
			if ex.feasible(ps) {
				ps.trace = append(ps.trace, pos+": "+shortFn(name)+" panics")
				ex.havocModifies(ps, ct, env)
				penv := &specEnv{ex: ex, st: ps, old: pre, vars: env.vars, pkg: ct.Pkg}
				for _, cl := range ct.OnPanic {
					ps.assume(penv.boolOf(cl.E))
				}
				ex.doPanic(fr, ps, "panic in "+shortFn(name)+" at "+pos)
			}
		}
		st.assume(c.Not(exact))
		if !ex.feasible(st) {
			return
		}
	}
	if !ct.PureUF {
		na := c.Fresh("alloc", sInt)
		st.assume(c.Le(st.alloc, na))
		st.alloc = na
	}
	ex.havocModifies(st, ct, env)
	var res []Val
	post := &specEnv{ex: ex, st: st, old: pre, vars: map[string]TV{}, pkg: ct.Pkg}
	for n, v := range env.vars {
		post.vars[n] = v
	}
	for i := 0; i < sig.Results().Len(); i++ {
		r := sig.Results().At(i)
		v := ex.freshVal("ret_"+lastName(name), r.Type())
		for _, f := range ex.facts(v, r.Type(), st.alloc) {
			st.assume(f)
		}
		res = append(res, v)
		post.bindResult(i, sig.Results().Len(), r.Name(), ct, TV{V: v, T: r.Type()})
	}
	for _, cl := range ct.Ensures {
		st.assume(post.boolOf(cl.E))
	}
	for _, g := range ct.GhostSet {
		if !ct.ownGhost(g) {
			post.assignGhost(g)
		}
	}
	k(st, res)
}

// ownGhost reports if a verified function modifies the ghost variable itself:
// it is assigned at its end, before its postconditions, and callers know what
// these say. Other ghosts only record calls.
func (ct *Contract) ownGhost(g GhostAssign) bool {
	if ct.Kind != "func" || ct.Trusted != "" {
		return false
	}
	for _, m := range ct.Modifies {
		if m.Op == "id" && m.Name == g.Target.Name {
			return true
		}
	}
	return false
}

func lastName(n string) string {
	if i := strings.LastIndexByte(n, '.'); i >= 0 {
		return n[i+1:]
	}
	return n
}

func labelOr(cl Clause, i int) string {
	if cl.Label != "" {
		return cl.Label
	}
	if len(cl.Text) > 140 {
		return cl.Text[:140] + "..."
	}
	return cl.Text
}

func (ex *Exec) evalLets(env *specEnv, ct *Contract) {
	for _, l := range ct.Lets {
		v := env.eval(l.E)
		env.vars[l.Name] = v
	}
}

// modTargets lists the memory that a contract allows to change.
type modTarget struct {
	heap string // heap variable name
	idx  *Term  // nil: whole variable
}

func (ex *Exec) modTargets(env *specEnv, ct *Contract) []modTarget {
	var out []modTarget
	for _, e := range ct.Modifies {
		out = append(out, env.modTarget(e)...)
	}
	return out
}

func (ex *Exec) havocModifies(st *State, ct *Contract, env *specEnv) {
	c := ex.c
	if ct.ModAll {
		ex.havocAll(st)
		return
	}
	for _, m := range ex.modTargets(env, ct) {
		srt := ex.v.heapSorts[m.heap]
		cur := st.get(m.heap, srt)
		if m.idx == nil {
			f := c.Fresh(m.heap, srt)
			ex.typeHeap(m.heap, f, st.alloc)
			st.set(m.heap, f, nil)
			continue
		}
		_, rng := splitArr(srt)
		f := c.Fresh(m.heap, rng)
		ex.typeInner(m.heap, f, st.alloc)
		st.set(m.heap, c.Store(cur, m.idx, f), m.idx)
	}
}

func (ex *Exec) havocAll(st *State) {
	ex.c.names["epoch"]++
	if len(ex.recorders) > 0 {
		for _, n := range sortedKeys(ex.v.heapSorts) {
			for _, r := range ex.recorders {
				r.add(n, nil)
			}
		}
	}
	// ghost variables and iteration states are not reachable from Go code;
	// unknown code is assumed to release what it locks
	keep := map[string]*Term{}
	for n, t := range st.heap {
		if strings.HasPrefix(n, "L:") || strings.HasPrefix(n, "ghost$") || strings.HasPrefix(n, "iter$") || strings.HasPrefix(n, "iterkey$") {
			keep[n] = t
		}
	}
	na := ex.c.Fresh("alloc", sInt)
	st.assume(ex.c.Le(st.alloc, na))
	st.alloc = na
	st.heap = keep
	st.epochAlloc = na
	st.epoch = ex.c.names["epoch"]
}

// callUnknown calls an unknown function value.
func (ex *Exec) callUnknown(fr *Frame, st *State, f FuncV, sig *types.Signature, args []Val, pos string, k callCont) {
	c := ex.c
	ref := ex.funcTerm(f)
	ex.oblige(st, "no nil dereference", "call of a nil function", c.Not(c.Eq(ref, c.Int(0))), pos)
	ex.noLocksHeld(st, "calling a function value", pos)
	if ct := ex.fnvalContract(f, sig); ct != nil && ex.inSpecCall == 0 {
		names := []string{"self"}
		vals := []TV{{V: f, T: sig}}
		for i := 0; i < sig.Params().Len(); i++ {
			n := sig.Params().At(i).Name()
			if i < len(ct.Params) {
				n = ct.Params[i]
			}
			names = append(names, n)
			vals = append(vals, TV{V: args[i], T: sig.Params().At(i).Type()})
		}
		ex.applyContract(fr, st, ct, ct.Key, sig, names, vals, pos, k)
		return
	}
	pure := ex.root != nil && (ex.root.PureFns["*"] || ex.inSpecCall > 0)
	if ex.root != nil && !pure {
		for n := range ex.root.PureFns {
			if tv, ok := ex.rootFrame.names[n]; ok {
				if fv, ok := tv.V.(FuncV); ok && ex.funcTerm(fv) == ref {
					pure = true
				}
			}
		}
	}
	if pure {
		ts := []*Term{ref}
		for i := 0; i < sig.Params().Len(); i++ {
			ts = append(ts, ex.argTerms(st, args[i], sig.Params().At(i).Type())...)
		}
		var res []Val
		for i := 0; i < sig.Results().Len(); i++ {
			res = append(res, ex.ufValue(st, fmt.Sprintf("fnval#%d$%s", i, typeKey(sig)), sig.Results().At(i).Type(), ts))
		}
		k(st, res)
		return
	}
	ex.havocAll(st)
	na := c.Fresh("alloc", sInt)
	st.assume(c.Le(st.alloc, na))
	st.alloc = na
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		v := ex.freshVal("cb", rt)
		for _, fa := range ex.facts(v, rt, st.alloc) {
			st.assume(fa)
		}
		res = append(res, v)
	}
	k(st, res)
}

// fnvalContract finds the contract of unknown function values of a type.
func (ex *Exec) fnvalContract(f FuncV, sig *types.Signature) *Contract {
	if ex.root == nil {
		return nil
	}
	return ex.v.spec.Contracts["fnval "+ex.root.Pkg+" "+sigKey(sig)]
}

// sigKey is the text of a signature without parameter names.
func sigKey(sig *types.Signature) string {
	strip := func(t *types.Tuple) *types.Tuple {
		var vs []*types.Var
		for i := 0; i < t.Len(); i++ {
			vs = append(vs, types.NewVar(0, nil, "", types.Unalias(t.At(i).Type())))
		}
		return types.NewTuple(vs...)
	}
	return types.TypeString(types.NewSignatureType(nil, nil, nil, strip(sig.Params()), strip(sig.Results()), sig.Variadic()), func(p *types.Package) string { return p.Name() })
}

func (ex *Exec) lenOf(st *State, v Val, t types.Type) *Term {
	t = repType(t)
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return v.(SliceV).Len
	case *types.Basic:
		return ex.c.StrLen(v.(*Term))
	case *types.Map:
		l := ex.mapLen(st, u, v.(*Term))
		if !l.hasBV {
			st.assume(ex.c.And(ex.c.Le(ex.c.Int(0), l), ex.c.Le(l, ex.c.BigInt(maxInt))))
		}
		return l
	case *types.Array:
		return ex.c.Int(u.Len())
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			return ex.c.Int(a.Len())
		}
	}
	unsup("len of %s", t)
	return nil
}

func (ex *Exec) builtin(fr *Frame, st *State, b *ssa.Builtin, cc *ssa.CallCommon, in ssa.Instruction, args []Val, pos string, k callCont) {
	c := ex.c
	at := func(i int) types.Type { return cc.Args[i].Type() }
	switch b.Name() {
	case "len":
		k(st, []Val{ex.lenOf(st, args[0], at(0))})
	case "cap":
		switch at(0).Underlying().(type) {
		case *types.Slice:
			k(st, []Val{args[0].(SliceV).Cap})
		default:
			k(st, []Val{ex.lenOf(st, args[0], at(0))})
		}
	case "append":
		s := args[0].(SliceV)
		et := at(0).Underlying().(*types.Slice).Elem()
		if len(args) == 1 {
			k(st, []Val{s})
			return
		}
		if bt, ok := at(1).Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			str := args[1].(*Term)
			n := c.StrLen(str)
			tmp := ex.newSlice(st, et, n, n)
			l := leaves(et)[0]
			a := c.Fresh("bytes", arr(sInt, sInt))
			q := c.FreshBVar("k", sInt)
			st.assume(c.Forall([]*Term{q}, c.Implies(c.And(c.Le(c.Int(0), q), c.Lt(q, n)), c.And(c.Eq(c.Select(a, q), c.CodeAt(str, q)), c.Le(c.Int(0), c.Select(a, q)), c.Le(c.Select(a, q), c.Int(255)))), []*Term{c.Select(a, q)}))
			ex.setElemArr(st, et, l, tmp.Arr, a)
			k(st, []Val{ex.appendSlice(st, s, et, tmp)})
			return
		}
		k(st, []Val{ex.appendSlice(st, s, et, args[1].(SliceV))})
	case "copy":
		et := at(0).Underlying().(*types.Slice).Elem()
		d := args[0].(SliceV)
		var n *Term
		if bt, ok := at(1).Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			str := args[1].(*Term)
			n = ex.copySlice(st, d, et, c.StrLen(str), func(l Leaf, i *Term) *Term { return c.CodeAt(str, i) })
		} else {
			s := args[1].(SliceV)
			snap := map[string]*Term{}
			for _, l := range leaves(et) {
				snap[l.Path] = ex.elemArr(st, et, l, s.Arr)
			}
			n = ex.copySlice(st, d, et, s.Len, func(l Leaf, i *Term) *Term { return c.Select(snap[l.Path], c.Add(s.Off, i)) })
		}
		k(st, []Val{n})
	case "delete":
		mt := at(0).Underlying().(*types.Map)
		m := args[0].(*Term)
		// delete on a nil map is a no-op
		kt := ex.keyTerm(st, args[1], mt)
		ex.mapDelete(st, mt, m, kt)
		k(st, nil)
	case "min", "max":
		r := args[0].(*Term)
		if r.sort != sInt {
			unsup("%s of %s", b.Name(), r.sort)
		}
		for _, a := range args[1:] {
			t := a.(*Term)
			if b.Name() == "min" {
				r = c.Ite(c.Le(r, t), r, t)
			} else {
				r = c.Ite(c.Le(r, t), t, r)
			}
		}
		k(st, []Val{r})
	case "print", "println":
		k(st, nil)
	case "panic":
		ex.doPanic(fr, st, "panic at "+pos)
	case "ssa:wrapnilchk":
		k(st, []Val{args[0]})
	default:
		unsup("builtin %s", b.Name())
	}
}

// Lock discipline -------------------------------------------------------------

func lockHeap(p PtrV) string { return "L:" + heapName(p, "") }

// guardAccess checks that shared fields are accessed with their lock held.
func (ex *Exec) guardAccess(fr *Frame, st *State, p PtrV, write bool, pos string) {
	if len(ex.v.guards) == 0 || p.Kind != pObj || p.Path == "" {
		return
	}
	c := ex.c
	field := p.Path[1:]
	if i := strings.IndexAny(field, ".["); i >= 0 {
		field = field[:i]
	}
	g, ok := ex.v.guards[typeKey(p.Root)+"."+field]
	if !ok {
		return
	}
	lockP := PtrV{Kind: pObj, Root: p.Root, Idx: p.Idx, Path: "." + g.Mutex}
	h := st.get(lockHeap(lockP), arr(sInt, sInt))
	held := c.Select(h, p.Idx[0])
	var ok2 *Term
	what := "read"
	if write {
		ok2 = c.Eq(held, c.Int(-1))
		what = "write"
	} else {
		ok2 = c.Not(c.Eq(held, c.Int(0)))
	}
	// an object that was allocated by this very call is not shared yet
	ok2 = c.Or(ok2, c.Ge(p.Idx[0], ex.entryAlloc()))
	ex.oblige(st, "lock held", fmt.Sprintf("%s of %s.%s", what, shortFn(typeKey(p.Root)), field), ok2, pos)
}

// noLocksHeld requires that no guarded lock is held.
func (ex *Exec) noLocksHeld(st *State, what, pos string) {
	for _, n := range sortedKeys(st.heap) {
		if !strings.HasPrefix(n, "L:") {
			continue
		}
		t := st.heap[n]
		// every store into the lock table must be a release
		idxs := map[*Term]bool{}
		for x := t; x.op == "store"; x = x.args[0] {
			idxs[x.args[1]] = true
		}
		for i := range idxs {
			ex.oblige(st, "no lock held", what, ex.c.Eq(ex.c.Select(t, i), ex.c.Int(0)), pos)
		}
	}
}
