package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Term is a hash-consed SMT term.
type Term struct {
	id    int
	op    string // "int", "bool", "str", "var", "bvar", "forall", "exists", or a function symbol
	args  []*Term
	sort  string
	ival  *big.Int
	sval  string
	bound []*Term   // bound variables of quantifiers
	pats  [][]*Term // patterns of quantifiers
	hasBV bool      // contains free bound variables
	maxSy int       // largest creation index of a symbol inside (for loop invariance tests)
	quant bool      // contains a quantifier
}

const (
	sInt  = "Int"
	sBool = "Bool"
	sStr  = "String"
	sBox  = "Box"
	sF64  = "F64"
)

func arr(from, to string) string { return "(Array " + from + " " + to + ")" }

// splitArr returns the domain and range of an array sort.
func splitArr(s string) (string, string) {
	in := strings.TrimSuffix(strings.TrimPrefix(s, "(Array "), ")")
	depth := 0
	for i := 0; i < len(in); i++ {
		switch in[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return in[:i], in[i+1:]
			}
		}
	}
	panic("not an array sort: " + s)
}

type funSig struct {
	args []string
	ret  string
}

// Ctx owns terms and symbol declarations.
type Ctx struct {
	tab     map[string]*Term
	n       int
	syms    int
	decls   map[string]funSig // declared function symbols (constants have no args)
	order   []string
	sorts   map[string]bool
	names   map[string]int
	symAx   map[string][]*Term // axioms of single symbols
	gated   map[*Term]bool     // quantified axioms, left out of queries in which no pattern of theirs can match
	axioms  []axiom            // axioms that are included when all their trigger symbols occur
	symIdx  map[string]int
	defs    map[string]string // define-funs by name, printed in prelude if used
	alpha   map[string]*Term  // closed quantifiers by structure
	alphaOf map[*Term]*Term
}

type axiom struct {
	name string
	sym  []string
	t    *Term
	text string
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, decls: map[string]funSig{}, sorts: map[string]bool{sBox: true, sF64: true},
		names: map[string]int{}, symIdx: map[string]int{}, defs: map[string]string{}, symAx: map[string][]*Term{}, alpha: map[string]*Term{}, gated: map[*Term]bool{}, alphaOf: map[*Term]*Term{}}
	return c
}

func (c *Ctx) mk(t Term) *Term {
	var b strings.Builder
	b.WriteString(t.op)
	b.WriteByte('|')
	b.WriteString(t.sort)
	b.WriteByte('|')
	if t.ival != nil {
		b.WriteString(t.ival.String())
	}
	b.WriteString(t.sval)
	for _, a := range t.args {
		fmt.Fprintf(&b, ",%d", a.id)
	}
	if t.bound != nil {
		b.WriteString("|B")
		for _, a := range t.bound {
			fmt.Fprintf(&b, ",%d", a.id)
		}
		for _, p := range t.pats {
			b.WriteString("|P")
			for _, a := range p {
				fmt.Fprintf(&b, ",%d", a.id)
			}
		}
	}
	k := b.String()
	if r, ok := c.tab[k]; ok {
		return r
	}
	c.n++
	t.id = c.n
	for _, a := range t.args {
		if a.hasBV {
			t.hasBV = true
		}
		if a.quant {
			t.quant = true
		}
		if a.maxSy > t.maxSy {
			t.maxSy = a.maxSy
		}
	}
	switch t.op {
	case "bvar":
		t.hasBV = true
	case "forall", "exists":
		t.quant = true
		t.hasBV = c.freeBV(t.args[0], t.bound)
	}
	if idx, ok := c.symIdx[t.sval]; ok && (t.op == "var") {
		t.maxSy = idx
	}
	r := &t
	c.tab[k] = r
	return r
}

func (c *Ctx) freeBV(t *Term, bound []*Term) bool {
	free := map[*Term]bool{}
	seen := map[*Term]bool{}
	var walk func(t *Term, b map[*Term]bool)
	walk = func(t *Term, b map[*Term]bool) {
		if !t.hasBV {
			return
		}
		if t.op == "bvar" {
			if !b[t] {
				free[t] = true
			}
			return
		}
		if t.bound == nil {
			if seen[t] {
				return
			}
			seen[t] = true
		} else {
			nb := map[*Term]bool{}
			for k := range b {
				nb[k] = true
			}
			for _, x := range t.bound {
				nb[x] = true
			}
			b = nb
		}
		for _, a := range t.args {
			walk(a, b)
		}
	}
	b := map[*Term]bool{}
	for _, x := range bound {
		b[x] = true
	}
	walk(t, b)
	return len(free) > 0
}

func (c *Ctx) Int(i int64) *Term       { return c.BigInt(big.NewInt(i)) }
func (c *Ctx) BigInt(i *big.Int) *Term { return c.mk(Term{op: "int", sort: sInt, ival: i}) }
func (c *Ctx) Bool(b bool) *Term {
	v := "false"
	if b {
		v = "true"
	}
	return c.mk(Term{op: "bool", sort: sBool, sval: v})
}
func (c *Ctx) Str(s string) *Term { return c.mk(Term{op: "str", sort: sStr, sval: s}) }

// Fresh declares a fresh constant.
func (c *Ctx) Fresh(name, srt string) *Term {
	name = sanitize(name)
	c.names[name]++
	n := fmt.Sprintf("%s!%d", name, c.names[name])
	return c.Const(n, srt)
}

// Const declares (once) and returns a named constant.
func (c *Ctx) Const(name, srt string) *Term {
	if d, ok := c.decls[name]; ok && d.ret != srt {
		name += "$" + sanitize(srt) // the same name of another function's state
	}
	if _, ok := c.decls[name]; !ok {
		c.syms++
		c.symIdx[name] = c.syms
		c.decls[name] = funSig{ret: srt}
		c.order = append(c.order, name)
	}
	return c.mk(Term{op: "var", sort: srt, sval: name})
}

func (c *Ctx) BVar(name, srt string) *Term {
	return c.mk(Term{op: "bvar", sort: srt, sval: sanitize(name)})
}

func (c *Ctx) FreshBVar(name, srt string) *Term {
	c.names["bv"]++
	return c.BVar(fmt.Sprintf("%s?%d", name, c.names["bv"]), srt)
}

// App applies a declared (uninterpreted) function symbol.
func (c *Ctx) App(name string, ret string, args ...*Term) *Term {
	name = sanitize(name)
	if len(args) == 0 {
		return c.Const(name, ret)
	}
	if _, ok := c.decls[name]; !ok {
		sig := funSig{ret: ret}
		for _, a := range args {
			sig.args = append(sig.args, a.sort)
		}
		c.decls[name] = sig
		c.order = append(c.order, name)
	}
	return c.mk(Term{op: name, sort: ret, args: args})
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("_.!$%&*+-/<=>?@^~", r) {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

func (t *Term) isTrue() bool  { return t.op == "bool" && t.sval == "true" }
func (t *Term) isFalse() bool { return t.op == "bool" && t.sval == "false" }
func (t *Term) isConst() bool { return t.op == "int" || t.op == "bool" || t.op == "str" }

func (c *Ctx) True() *Term  { return c.Bool(true) }
func (c *Ctx) False() *Term { return c.Bool(false) }

func (c *Ctx) Not(a *Term) *Term {
	if a.op == "bool" {
		return c.Bool(a.isFalse())
	}
	if a.op == "not" {
		return a.args[0]
	}
	return c.mk(Term{op: "not", sort: sBool, args: []*Term{a}})
}

func (c *Ctx) And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a.isTrue() || seen[a] {
			return true
		}
		if a.isFalse() {
			return false
		}
		if a.op == "and" {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[c.Not(a)] {
			return false
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return c.False()
		}
	}
	if len(out) == 0 {
		return c.True()
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(Term{op: "and", sort: sBool, args: out})
}

func (c *Ctx) Or(as ...*Term) *Term {
	var n []*Term
	for _, a := range as {
		n = append(n, c.Not(a))
	}
	r := c.And(n...)
	if r.op == "and" {
		var out []*Term
		for _, x := range r.args {
			out = append(out, c.Not(x))
		}
		return c.mk(Term{op: "or", sort: sBool, args: out})
	}
	return c.Not(r)
}

func (c *Ctx) Implies(a, b *Term) *Term {
	if a.isTrue() {
		return b
	}
	if a.isFalse() || b.isTrue() || a == b {
		return c.True()
	}
	if b.isFalse() {
		return c.Not(a)
	}
	return c.mk(Term{op: "=>", sort: sBool, args: []*Term{a, b}})
}

func (c *Ctx) Ite(p, a, b *Term) *Term {
	if p.isTrue() || a == b {
		return a
	}
	if p.isFalse() {
		return b
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sorts %s %s", a.sort, b.sort))
	}
	if a.sort == sBool {
		if a.isTrue() && b.isFalse() {
			return p
		}
		if a.isFalse() && b.isTrue() {
			return c.Not(p)
		}
		if a.isTrue() {
			return c.Or(p, b)
		}
		if a.isFalse() {
			return c.And(c.Not(p), b)
		}
		if b.isFalse() {
			return c.And(p, a)
		}
		if b.isTrue() {
			return c.Or(c.Not(p), a)
		}
	}
	return c.mk(Term{op: "ite", sort: a.sort, args: []*Term{p, a, b}})
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True()
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sorts %s %s: %s = %s", a.sort, b.sort, c.Show(a), c.Show(b)))
	}
	if a.isConst() && b.isConst() {
		return c.False()
	}
	if a.sort == sInt {
		ba, oa := c.lin(a)
		bb, ob := c.lin(b)
		if ba == bb {
			return c.Bool(oa.Cmp(ob) == 0)
		}
		if a.op == "ite" && b.isConst() || b.op == "ite" && a.isConst() {
			x, k := a, b
			if b.op == "ite" {
				x, k = b, a
			}
			if x.args[1].isConst() && x.args[2].isConst() {
				return c.Ite(x.args[0], c.Eq(x.args[1], k), c.Eq(x.args[2], k))
			}
		}
	}
	if a.sort == sBool {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return c.Not(b)
		}
		if b.isFalse() {
			return c.Not(a)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(Term{op: "=", sort: sBool, args: []*Term{a, b}})
}

// lin splits an integer term into base + constant.
func (c *Ctx) lin(a *Term) (*Term, *big.Int) {
	if a.op == "int" {
		return nil, a.ival
	}
	if a.op == "+" && a.args[len(a.args)-1].op == "int" {
		n := len(a.args)
		if n == 2 {
			return a.args[0], a.args[1].ival
		}
		return c.mk(Term{op: "+", sort: sInt, args: append([]*Term{}, a.args[:n-1]...)}), a.args[n-1].ival
	}
	return a, big.NewInt(0)
}

// linForm is a canonical linear combination of integer terms.
type linForm struct {
	coef map[*Term]*big.Int
	k    *big.Int
}

func (c *Ctx) linOf(t *Term) *linForm {
	f := &linForm{map[*Term]*big.Int{}, new(big.Int)}
	c.linAdd(f, t, big.NewInt(1))
	return f
}

func (c *Ctx) linAdd(f *linForm, t *Term, m *big.Int) {
	switch {
	case t.op == "int":
		f.k.Add(f.k, new(big.Int).Mul(m, t.ival))
	case t.op == "+":
		for _, a := range t.args {
			c.linAdd(f, a, m)
		}
	case t.op == "*" && t.args[1].op == "int":
		c.linAdd(f, t.args[0], new(big.Int).Mul(m, t.args[1].ival))
	default:
		if f.coef[t] == nil {
			f.coef[t] = new(big.Int)
		}
		f.coef[t].Add(f.coef[t], m)
		if f.coef[t].Sign() == 0 {
			delete(f.coef, t)
		}
	}
}

func (c *Ctx) fromLin(f *linForm) *Term {
	var ts []*Term
	for t := range f.coef {
		ts = append(ts, t)
	}
	if len(ts) == 0 {
		return c.BigInt(f.k)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	var args []*Term
	for _, t := range ts {
		k := f.coef[t]
		if k.IsInt64() && k.Int64() == 1 {
			args = append(args, t)
		} else {
			args = append(args, c.mk(Term{op: "*", sort: sInt, args: []*Term{t, c.BigInt(k)}}))
		}
	}
	if f.k.Sign() != 0 {
		args = append(args, c.BigInt(f.k))
	}
	if len(args) == 1 {
		return args[0]
	}
	return c.mk(Term{op: "+", sort: sInt, args: args})
}

func (c *Ctx) Add(a, b *Term) *Term {
	f := c.linOf(a)
	c.linAdd(f, b, big.NewInt(1))
	return c.fromLin(f)
}

func (c *Ctx) Sub(a, b *Term) *Term {
	f := c.linOf(a)
	c.linAdd(f, b, big.NewInt(-1))
	return c.fromLin(f)
}

func (c *Ctx) Mul(a, b *Term) *Term {
	if a.op == "int" {
		a, b = b, a
	}
	if b.op == "int" {
		f := &linForm{map[*Term]*big.Int{}, new(big.Int)}
		c.linAdd(f, a, b.ival)
		if b.ival.Sign() == 0 {
			return b
		}
		return c.fromLin(f)
	}
	return c.mk(Term{op: "*", sort: sInt, args: []*Term{a, b}})
}

// DivE and ModE are SMT-LIB (Euclidean) division and remainder.
func (c *Ctx) DivE(a, b *Term) *Term {
	if a.op == "int" && b.op == "int" && b.ival.Sign() != 0 {
		q, _ := new(big.Int).DivMod(a.ival, b.ival, new(big.Int))
		return c.BigInt(q)
	}
	return c.mk(Term{op: "div", sort: sInt, args: []*Term{a, b}})
}
func (c *Ctx) ModE(a, b *Term) *Term {
	if a.op == "int" && b.op == "int" && b.ival.Sign() != 0 {
		_, m := new(big.Int).DivMod(a.ival, b.ival, new(big.Int))
		return c.BigInt(m)
	}
	return c.mk(Term{op: "mod", sort: sInt, args: []*Term{a, b}})
}

func (c *Ctx) Le(a, b *Term) *Term {
	if d := c.Sub(a, b); d.op == "int" {
		return c.Bool(d.ival.Sign() <= 0)
	}
	if a.op == "str.len" && b.op == "int" && b.ival.Sign() < 0 {
		return c.False()
	}
	if b.op == "str.len" && a.op == "int" && a.ival.Sign() <= 0 {
		return c.True()
	}
	return c.mk(Term{op: "<=", sort: sBool, args: []*Term{a, b}})
}
func (c *Ctx) Lt(a, b *Term) *Term { return c.Not(c.Le(b, a)) }
func (c *Ctx) Ge(a, b *Term) *Term { return c.Le(b, a) }
func (c *Ctx) Gt(a, b *Term) *Term { return c.Not(c.Le(a, b)) }

func (c *Ctx) Select(a, i *Term) *Term {
	_, r := splitArr(a.sort)
	for x := a; ; {
		if x.op == "store" {
			e := c.Eq(x.args[1], i)
			if e.isTrue() {
				return x.args[2]
			}
			if e.isFalse() {
				x = x.args[0]
				a = x
				continue
			}
		}
		if x.op == "constarr" {
			return x.args[0]
		}
		break
	}
	if a.op == "ite" && (a.args[1].op == "store" || a.args[2].op == "store") {
		return c.Ite(a.args[0], c.Select(a.args[1], i), c.Select(a.args[2], i))
	}
	return c.mk(Term{op: "select", sort: r, args: []*Term{a, i}})
}

func (c *Ctx) Store(a, i, v *Term) *Term {
	_, r := splitArr(a.sort)
	if v.sort != r {
		panic(fmt.Sprintf("store sort %s into %s", v.sort, a.sort))
	}
	if a.op == "store" && a.args[1] == i {
		return c.Store(a.args[0], i, v)
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return c.mk(Term{op: "store", sort: a.sort, args: []*Term{a, i, v}})
}

func (c *Ctx) ConstArr(from string, v *Term) *Term {
	return c.mk(Term{op: "constarr", sort: arr(from, v.sort), args: []*Term{v}})
}

// Forall and Exists build a quantifier. A bound variable that occurs in the
// patterns only as v + k, with k free of bound variables, is replaced by
// v - k, so that the patterns contain no arithmetic. Each pattern gets its own
// (equivalent) copy, because the shifts differ.
func (c *Ctx) Forall(bvs []*Term, body *Term, pats ...[]*Term) *Term {
	if body.isTrue() || body.isFalse() || len(bvs) == 0 {
		return body
	}
	return c.And(c.quantCopies("forall", bvs, body, pats)...)
}

func (c *Ctx) Exists(bvs []*Term, body *Term, pats ...[]*Term) *Term {
	if body.isFalse() || body.isTrue() || len(bvs) == 0 {
		return body
	}
	cs := c.quantCopies("exists", bvs, body, pats)
	if len(bvs) == 1 {
		// likely witnesses: indices that were just written
		for _, q := range cs {
			if q.op != "exists" {
				continue
			}
			for _, w := range c.storeIdx(q) {
				cs = append(cs, c.Subst(q.args[0], map[*Term]*Term{q.bound[0]: w}))
			}
		}
	}
	return c.Or(cs...)
}

// storeIdx lists the indices of the array updates that q reads with its
// bound variable.
func (c *Ctx) storeIdx(q *Term) []*Term {
	b := q.bound[0]
	var out []*Term
	seen := map[*Term]bool{}
	have := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || !t.hasBV {
			return
		}
		seen[t] = true
		if t.op == "select" && t.args[1] == b {
			for a := t.args[0]; a.op == "store" && len(out) < 3; a = a.args[0] {
				if w := a.args[1]; !w.hasBV && !have[w] && w.sort == b.sort {
					have[w] = true
					out = append(out, w)
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(q.args[0])
	return out
}

func (c *Ctx) quantCopies(op string, bvs []*Term, body *Term, pats [][]*Term) []*Term {
	if len(pats) == 0 {
		pats = c.inferPats(bvs, body)
	}
	if len(pats) == 0 {
		return []*Term{c.shareAlpha(c.mk(Term{op: op, sort: sBool, args: []*Term{body}, bound: bvs}))}
	}
	type group struct {
		body *Term
		pats [][]*Term
	}
	var groups []*group
	for _, p := range pats {
		sub := c.shifts(bvs, p)
		nb := c.Subst(body, sub)
		var np []*Term
		for _, t := range p {
			if s := c.Subst(t, sub); c.hasBV(s, bvs) {
				np = append(np, s)
			}
		}
		var g *group
		for _, h := range groups {
			if h.body == nb {
				g = h
			}
		}
		if g == nil {
			g = &group{body: nb}
			groups = append(groups, g)
		}
		if c.okPat(np, bvs) {
			g.pats = append(g.pats, np)
		}
	}
	var out []*Term
	for _, g := range groups {
		out = append(out, c.shareAlpha(c.mk(Term{op: op, sort: sBool, args: []*Term{g.body}, bound: bvs, pats: g.pats})))
	}
	return out
}

// shareAlpha returns the first closed quantifier that was built and differs
// from t only in the names of bound variables, so that such formulas are
// recognised as equal.
func (c *Ctx) shareAlpha(t *Term) *Term {
	if t.hasBV {
		return t
	}
	if r, ok := c.alphaOf[t]; ok {
		return r
	}
	var b strings.Builder
	vars := map[*Term]int{}
	done := map[*Term]int{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.op == "bvar" {
			n, ok := vars[t]
			if !ok {
				n = len(vars)
				vars[t] = n
			}
			fmt.Fprintf(&b, "v%d:%s ", n, t.sort)
			return
		}
		if !t.hasBV && len(done) > 0 {
			// closed: equal up to names means equal
			fmt.Fprintf(&b, "c%d ", t.id)
			return
		}
		if n, ok := done[t]; ok {
			fmt.Fprintf(&b, "r%d ", n)
			return
		}
		done[t] = len(done)
		fmt.Fprintf(&b, "(%s|%s|%s|", t.op, t.sort, t.sval)
		if t.ival != nil {
			b.WriteString(t.ival.String())
		}
		for _, v := range t.bound {
			walk(v)
		}
		b.WriteString("|")
		for _, a := range t.args {
			walk(a)
		}
		for _, p := range t.pats {
			b.WriteString("|P")
			for _, a := range p {
				walk(a)
			}
		}
		b.WriteString(")")
	}
	walk(t)
	k := b.String()
	r, ok := c.alpha[k]
	if !ok {
		r = t
		c.alpha[k] = t
	}
	c.alphaOf[t] = r
	return r
}

func (c *Ctx) hasBV(t *Term, bvs []*Term) bool {
	found := map[*Term]bool{}
	c.occurs(t, bvs, found, map[*Term]bool{})
	return len(found) > 0
}

func (c *Ctx) occurs(t *Term, bvs []*Term, found, seen map[*Term]bool) {
	if !t.hasBV || seen[t] {
		return
	}
	seen[t] = true
	if t.op == "bvar" {
		for _, b := range bvs {
			if b == t {
				found[t] = true
			}
		}
	}
	for _, a := range t.args {
		c.occurs(a, bvs, found, seen)
	}
}

// okPat reports whether ts can be used as a pattern: it covers the variables
// and has no logical structure and no arithmetic over bound variables.
func (c *Ctx) okPat(ts, bvs []*Term) bool {
	found := map[*Term]bool{}
	for _, t := range ts {
		c.occurs(t, bvs, found, map[*Term]bool{})
		ok := true
		seen := map[*Term]bool{}
		var walk func(t *Term)
		walk = func(t *Term) {
			if seen[t] || !ok {
				return
			}
			seen[t] = true
			switch t.op {
			case "and", "or", "not", "=>", "=", "<=", "<", "ite", "forall", "exists":
				ok = false
			case "+", "*", "-", "div", "mod":
				if t.hasBV {
					ok = false
				}
			}
			for _, a := range t.args {
				walk(a)
			}
		}
		if t.op == "bvar" {
			return false
		}
		walk(t)
		if !ok {
			return false
		}
	}
	return len(found) == len(bvs)
}

// shifts finds, for the bound variables that occur as v + k in the patterns,
// the substitution v := v - k.
func (c *Ctx) shifts(bvs []*Term, p []*Term) map[*Term]*Term {
	sub := map[*Term]*Term{}
	bare := map[*Term]bool{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || !t.hasBV {
			return
		}
		seen[t] = true
		if t.op == "bvar" {
			bare[t] = true
			return
		}
		if t.op == "+" {
			f := c.linOf(t)
			for _, b := range bvs {
				k := f.coef[b]
				if b.sort != sInt || k == nil || !k.IsInt64() || k.Int64() != 1 || sub[b] != nil {
					continue
				}
				rest := c.Sub(t, b)
				if !c.hasBV(rest, bvs) {
					sub[b] = c.Sub(b, rest)
					return
				}
			}
			return
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, t := range p {
		walk(t)
	}
	for b := range bare {
		delete(sub, b)
	}
	return sub
}

// inferPats proposes patterns: array reads and uninterpreted applications
// that mention the variables.
func (c *Ctx) inferPats(bvs []*Term, body *Term) [][]*Term {
	var cands []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || !t.hasBV {
			return
		}
		seen[t] = true
		before := len(cands)
		for _, a := range t.args {
			walk(a)
		}
		_, isFun := c.decls[t.op]
		if (t.op == "select" || isFun && len(t.args) > 0) && len(cands) == before && c.hasBV(t, bvs) {
			// innermost candidates only
			cands = append(cands, t)
		}
	}
	walk(body)
	if len(cands) == 0 {
		return nil
	}
	covers := func(t *Term) map[*Term]bool {
		m := map[*Term]bool{}
		c.occurs(t, bvs, m, map[*Term]bool{})
		return m
	}
	var out [][]*Term
	if len(bvs) == 1 {
		for _, t := range cands {
			if len(out) < 4 && c.okPat([]*Term{c.Subst(t, c.shifts(bvs, []*Term{t}))}, bvs) {
				out = append(out, []*Term{t})
			}
		}
		return out
	}
	// one multi-pattern: the first candidates that cover all variables
	var p []*Term
	have := map[*Term]bool{}
	for _, t := range cands {
		if !c.okShape(t, bvs) {
			continue
		}
		grow := false
		for b := range covers(t) {
			if !have[b] {
				grow = true
			}
		}
		if grow {
			p = append(p, t)
			for b := range covers(t) {
				have[b] = true
			}
		}
	}
	if len(have) == len(bvs) {
		return [][]*Term{p}
	}
	return nil
}

func (c *Ctx) okShape(t *Term, bvs []*Term) bool {
	var mine []*Term
	m := map[*Term]bool{}
	c.occurs(t, bvs, m, map[*Term]bool{})
	for b := range m {
		mine = append(mine, b)
	}
	return len(mine) > 0 && c.okPat([]*Term{c.Subst(t, c.shifts(bvs, []*Term{t}))}, mine)
}

// Subst replaces subterms and rebuilds with simplification.
func (c *Ctx) Subst(t *Term, m map[*Term]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	memo := map[*Term]*Term{}
	var walk func(t *Term) *Term
	walk = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.args))
		same := true
		for i, a := range t.args {
			args[i] = walk(a)
			if args[i] != a {
				same = false
			}
		}
		r := t
		if !same {
			r = c.rebuild(t, args, walk)
		}
		memo[t] = r
		return r
	}
	return walk(t)
}

func (c *Ctx) rebuild(t *Term, args []*Term, walk func(*Term) *Term) *Term {
	switch t.op {
	case "+":
		r := args[0]
		for _, a := range args[1:] {
			r = c.Add(r, a)
		}
		return r
	case "*":
		return c.Mul(args[0], args[1])
	case "and":
		return c.And(args...)
	case "or":
		return c.Or(args...)
	case "not":
		return c.Not(args[0])
	case "=>":
		return c.Implies(args[0], args[1])
	case "=":
		return c.Eq(args[0], args[1])
	case "<=":
		return c.Le(args[0], args[1])
	case "ite":
		return c.Ite(args[0], args[1], args[2])
	case "select":
		return c.Select(args[0], args[1])
	case "store":
		return c.Store(args[0], args[1], args[2])
	}
	n := *t
	n.args = args
	n.pats = nil
	for _, p := range t.pats {
		var np []*Term
		for _, x := range p {
			np = append(np, walk(x))
		}
		n.pats = append(n.pats, np)
	}
	n.id, n.maxSy, n.hasBV, n.quant = 0, 0, false, false
	return c.mk(n)
}

// Strings -------------------------------------------------------------------

func (c *Ctx) StrLen(a *Term) *Term {
	if a.op == "str" {
		return c.Int(int64(len(a.sval)))
	}
	if a.op == "str.++" {
		r := c.Int(0)
		for _, x := range a.args {
			r = c.Add(r, c.StrLen(x))
		}
		return r
	}
	return c.mk(Term{op: "str.len", sort: sInt, args: []*Term{a}})
}

func (c *Ctx) Concat(as ...*Term) *Term {
	var out []*Term
	for _, a := range as {
		xs := []*Term{a}
		if a.op == "str.++" {
			xs = a.args
		}
		for _, x := range xs {
			if x.op == "str" {
				if x.sval == "" {
					continue
				}
				if n := len(out); n > 0 && out[n-1].op == "str" {
					out[n-1] = c.Str(out[n-1].sval + x.sval)
					continue
				}
			}
			out = append(out, x)
		}
	}
	if len(out) == 0 {
		return c.Str("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(Term{op: "str.++", sort: sStr, args: out})
}

func (c *Ctx) HasPrefix(s, p *Term) *Term {
	if s.op == "str" && p.op == "str" {
		return c.Bool(strings.HasPrefix(s.sval, p.sval))
	}
	if p.op == "str" && p.sval == "" {
		return c.True()
	}
	if s.op == "str.++" && s.args[0] == p {
		return c.True()
	}
	return c.Raw("str.prefixof", sBool, p, s)
}

// Raw builds an interpreted SMT-LIB application without simplification.
func (c *Ctx) Raw(op, srt string, args ...*Term) *Term {
	return c.mk(Term{op: op, sort: srt, args: args})
}

// CodeAt is the byte of s at index i.
func (c *Ctx) CodeAt(s, i *Term) *Term {
	if s.op == "str" && i.op == "int" && i.ival.IsInt64() {
		k := i.ival.Int64()
		if k >= 0 && k < int64(len(s.sval)) {
			return c.Int(int64(s.sval[k]))
		}
	}
	return c.Raw("str.to_code", sInt, c.Raw("str.at", sStr, s, i))
}

// Printing ------------------------------------------------------------------

func smtStr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		ch := s[i]
		switch {
		case ch == '"':
			b.WriteString(`""`)
		case ch == '\\':
			b.WriteString(`\u{5c}`)
		case ch >= 32 && ch < 127:
			b.WriteByte(ch)
		default:
			fmt.Fprintf(&b, `\u{%x}`, ch)
		}
	}
	b.WriteByte('"')
	return b.String()
}

var smtReserved = map[string]bool{"let": true, "par": true, "as": true, "forall": true, "exists": true, "select": true, "store": true, "not": true, "and": true, "or": true}

func smtSym(s string) string {
	if smtReserved[s] {
		return "|" + s + "|"
	}
	if s != "" && s[0] >= '0' && s[0] <= '9' {
		return "|" + s + "|"
	}
	return s
}

// Show prints a term as a tree (for messages).
func (c *Ctx) Show(t *Term) string {
	var b strings.Builder
	c.show(&b, t, nil, 40)
	return b.String()
}

func (c *Ctx) show(b *strings.Builder, t *Term, shared map[*Term]string, depth int) {
	if n, ok := shared[t]; ok {
		b.WriteString(n)
		return
	}
	if depth == 0 {
		b.WriteString("...")
		return
	}
	switch t.op {
	case "int":
		if t.ival.Sign() < 0 {
			fmt.Fprintf(b, "(- %s)", new(big.Int).Neg(t.ival).String())
		} else {
			b.WriteString(t.ival.String())
		}
	case "bool":
		b.WriteString(t.sval)
	case "str":
		b.WriteString(smtStr(t.sval))
	case "var", "bvar":
		b.WriteString(smtSym(t.sval))
	case "forall", "exists":
		fmt.Fprintf(b, "(%s (", t.op)
		for _, v := range t.bound {
			fmt.Fprintf(b, "(%s %s)", smtSym(v.sval), v.sort)
		}
		b.WriteString(") ")
		if len(t.pats) > 0 {
			b.WriteString("(! ")
		}
		c.show(b, t.args[0], shared, depth-1)
		for _, p := range t.pats {
			b.WriteString(" :pattern (")
			for i, x := range p {
				if i > 0 {
					b.WriteByte(' ')
				}
				c.show(b, x, shared, depth-1)
			}
			b.WriteString(")")
		}
		if len(t.pats) > 0 {
			b.WriteString(")")
		}
		b.WriteString(")")
	case "constarr":
		fmt.Fprintf(b, "((as const %s) ", t.sort)
		c.show(b, t.args[0], shared, depth-1)
		b.WriteString(")")
	default:
		b.WriteByte('(')
		b.WriteString(smtSym(t.op))
		for _, a := range t.args {
			b.WriteByte(' ')
			c.show(b, a, shared, depth-1)
		}
		b.WriteByte(')')
	}
}

// symbols collects the declared symbols and uninterpreted sorts used in ts.
func (c *Ctx) symbols(ts []*Term) map[string]bool {
	syms := map[string]bool{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "var" {
			syms[t.sval] = true
		} else if _, ok := c.decls[t.op]; ok {
			syms[t.op] = true
		} else if _, ok := c.defs[t.op]; ok {
			syms[t.op] = true
		}
		for _, a := range t.args {
			walk(a)
		}
		for _, p := range t.pats {
			for _, a := range p {
				walk(a)
			}
		}
	}
	for _, t := range ts {
		walk(t)
	}
	return syms
}

// Script prints an SMT-LIB script asserting the given terms.
func (c *Ctx) Script(asserts []*Term, want []*Term) string {
	var held []*Term
	{
		as := []*Term{}
		for _, a := range asserts {
			if c.gated[a] {
				held = append(held, a)
			} else {
				as = append(as, a)
			}
		}
		asserts = as
	}
	texts := []string{}
	used := map[int]bool{}
	usedSym := map[string]bool{}
	syms := c.symbols(append(append([]*Term{}, asserts...), want...))
	for changed := true; changed; {
		changed = false
		for _, n := range sortedKeys(syms) {
			if len(c.symAx[n]) == 0 || usedSym[n] {
				continue
			}
			usedSym[n], changed = true, true
			for _, t := range c.symAx[n] {
				asserts = append(asserts, t)
				for s := range c.symbols([]*Term{t}) {
					syms[s] = true
				}
			}
		}
		rest := []*Term{}
		for _, a := range held {
			ok := false
			for _, p := range a.pats {
				all := true
				for n := range c.symbols(p) {
					all = all && syms[n]
				}
				ok = ok || all
			}
			if !ok {
				rest = append(rest, a)
				continue
			}
			changed = true
			asserts = append(asserts, a)
			for n := range c.symbols([]*Term{a}) {
				syms[n] = true
			}
		}
		held = rest
		for i, ax := range c.axioms {
			if used[i] {
				continue
			}
			ok := len(ax.sym) > 0
			for _, s := range ax.sym {
				if !syms[s] {
					ok = false
				}
			}
			if ok {
				used[i] = true
				changed = true
				if ax.t != nil {
					asserts = append(asserts, ax.t)
					for s := range c.symbols([]*Term{ax.t}) {
						syms[s] = true
					}
				} else {
					texts = append(texts, ax.text)
				}
			}
		}
	}
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n")
	for _, s := range sortedKeys(c.sorts) {
		fmt.Fprintf(&b, "(declare-sort %s 0)\n", s)
	}
	for _, name := range sortedKeys(c.defs) {
		if syms[name] {
			b.WriteString(c.defs[name])
			b.WriteByte('\n')
		}
	}
	for _, name := range c.order {
		if !syms[name] {
			continue
		}
		sig := c.decls[name]
		fmt.Fprintf(&b, "(declare-fun %s (%s) %s)\n", smtSym(name), strings.Join(sig.args, " "), sig.ret)
	}
	for _, t := range texts {
		b.WriteString(t)
		b.WriteByte('\n')
	}
	// shared subterms
	count := map[*Term]int{}
	var topo []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		count[t]++
		if count[t] > 1 {
			return
		}
		for _, a := range t.args {
			walk(a)
		}
		for _, p := range t.pats {
			for _, a := range p {
				walk(a)
			}
		}
		topo = append(topo, t)
	}
	for _, t := range asserts {
		walk(t)
	}
	shared := map[*Term]string{}
	for _, t := range topo {
		if count[t] > 1 && len(t.args) > 0 && !t.hasBV {
			var d strings.Builder
			c.show(&d, t, shared, 1<<30)
			name := fmt.Sprintf("$t%d", t.id)
			fmt.Fprintf(&b, "(define-fun %s () %s %s)\n", name, t.sort, d.String())
			shared[t] = name
		}
	}
	for _, t := range asserts {
		b.WriteString("(assert ")
		c.show(&b, t, shared, 1<<30)
		b.WriteString(")\n")
	}
	return b.String()
}

func uniqStrings(in []string) []string {
	m := map[string]bool{}
	for _, s := range in {
		m[s] = true
	}
	var out []string
	for s := range m {
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}
