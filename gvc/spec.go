package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

// Expr is a specification expression.
type Expr struct {
	Op   string // "int","str","bool","nil","id","field","index","slice","call","unop","binop","forall","exists","old","let","type"
	Name string
	Args []*Expr
	Vars []BVarDecl
	Pats [][]*Expr
	Pos  string

	chained bool
}

type BVarDecl struct{ Name, Type string }

type Clause struct {
	Label string
	E     *Expr
	Text  string
	Tags  []string
}

type LoopSpec struct {
	Inv  []Clause
	Decr *Expr
}

// Contract is the specification of one function.
type Contract struct {
	Key        string // full SSA name of the function
	Pkg        string
	Kind       string // "func", "extern", "iface"
	Props      []string
	Requires   []Clause
	Ensures    []Clause
	Modifies   []*Expr
	ModAll     bool
	PanicsIff  []Clause
	MayPanic   []Clause
	AnyPanic   bool
	OnPanic    []Clause
	Loops      map[int]*LoopSpec
	AnyLoop    []Clause // candidate invariants tried at every loop (Houdini)
	Inline     bool
	Trusted    string
	PureUF     bool
	Params     []string // for extern and iface: parameter names
	Results    []string
	Lets       []LetDecl
	File       string
	NoNilCheck bool
	GhostSet   []GhostAssign
	Defines    []Clause
	Allocs     bool
	Uses       []string
	Unroll     int
	TimeoutMS  int
	PureFns    map[string]bool
	NoVerify   bool
}

type LetDecl struct {
	Name string
	E    *Expr
}

type GhostAssign struct {
	Target *Expr
	E      *Expr
}

type PredDef struct {
	Name   string
	Params []BVarDecl
	Ret    string
	Body   *Expr
	Pkg    string
	Logic  bool // uninterpreted
}

type AxiomDef struct {
	Name string
	E    *Expr
	Pkg  string
	Text string
}

type GhostVar struct {
	Name, Type, Pkg string
}

type Guard struct {
	Type, Field, Mutex, Pkg string
	RW                      bool
	Elems                   bool
}

type Lemma struct {
	Name  string
	Props []string
	E     *Expr
	Pkg   string
	Text  string
}

// Spec is everything read from the contract files.
type Spec struct {
	Contracts map[string]*Contract
	Preds     map[string]*PredDef
	Axioms    []AxiomDef
	Ghosts    map[string]GhostVar
	Guards    []Guard
	Lemmas    []Lemma
	ConstGlob map[string]bool
	Files     []string
}

var clauseKeywords = map[string]bool{"package": true, "fnval": true, "func": true, "extern": true, "iface": true, "pred": true, "logic": true, "axiom": true,
	"ghost": true, "properties": true, "requires": true, "ensures": true, "modifies": true, "panics": true, "maypanic": true, "onpanic": true,
	"loop": true, "anyloop": true, "inline": true, "trusted": true, "pureuf": true, "guarded": true, "lemma": true, "let": true, "ghostset": true, "defines": true,
	"decreases": true, "params": true, "results": true, "nonilcheck": true, "unroll": true, "timeout": true, "purefn": true, "constglobal": true}

func ReadSpecs(dir string) (*Spec, error) {
	s := &Spec{Contracts: map[string]*Contract{}, Preds: map[string]*PredDef{}, Ghosts: map[string]GhostVar{}, ConstGlob: map[string]bool{}}
	files, err := filepath.Glob(filepath.Join(dir, "*.gvc"))
	if err != nil {
		return nil, err
	}
	sort.Strings(files)
	for _, f := range files {
		if err := s.readFile(f); err != nil {
			return nil, err
		}
		s.Files = append(s.Files, f)
	}
	return s, nil
}

type rawClause struct {
	kw, text string
	line     int
}

func (s *Spec) readFile(file string) (err error) {
	data, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	var cls []rawClause
	for i, line := range strings.Split(string(data), "\n") {
		t := strings.TrimSpace(line)
		t = strings.TrimPrefix(t, "//@")
		t = strings.TrimSpace(t)
		if t == "" || strings.HasPrefix(t, "#") {
			continue
		}
		if k := strings.Index(t, " ## "); k >= 0 {
			t = strings.TrimSpace(t[:k])
		}
		w := t
		if k := strings.IndexAny(t, " \t"); k >= 0 {
			w = t[:k]
		}
		if clauseKeywords[w] {
			cls = append(cls, rawClause{w, strings.TrimSpace(t[len(w):]), i + 1})
		} else {
			if len(cls) == 0 {
				return fmt.Errorf("%s:%d: unexpected text", file, i+1)
			}
			cls[len(cls)-1].text += " " + t
		}
	}
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(specErr); ok {
				err = fmt.Errorf("%s", se.msg)
				return
			}
			panic(r)
		}
	}()
	pkg := ""
	var cur *Contract
	for _, cl := range cls {
		pos := fmt.Sprintf("%s:%d", filepath.Base(file), cl.line)
		parse := func(t string) *Expr { return parseExpr(t, pos) }
		labelled := func(t string) Clause {
			lab := ""
			if k := strings.Index(t, ":"); k > 0 && isLabel(t[:k]) && !strings.HasPrefix(t[k:], "::") {
				lab, t = t[:k], strings.TrimSpace(t[k+1:])
			}
			return Clause{Label: lab, E: parse(t), Text: t}
		}
		need := func() *Contract {
			if cur == nil {
				panic(specErr{pos + ": clause outside a contract"})
			}
			return cur
		}
		switch cl.kw {
		case "package":
			pkg = cl.text
			if !strings.Contains(pkg, "/") || !strings.HasPrefix(pkg, repoModule) {
				pkg = repoModule + "/" + pkg
			}
			cur = nil
		case "func", "extern", "iface", "fnval":
			key := cl.text
			if cl.kw == "func" {
				key = qualify(key, pkg)
			} else if cl.kw == "iface" {
				key = "iface " + qualify(key, pkg)
			} else if cl.kw == "fnval" {
				// function values of a type, called from this package
				key = "fnval " + pkg + " " + key
			}
			cur = &Contract{Key: key, Pkg: pkg, Kind: cl.kw, Loops: map[int]*LoopSpec{}, File: filepath.Base(file), PureFns: map[string]bool{}}
			if s.Contracts[key] != nil {
				panic(specErr{pos + ": duplicate contract for " + key})
			}
			s.Contracts[key] = cur
		case "properties":
			need().Props = strings.Fields(cl.text)
		case "requires":
			need().Requires = append(need().Requires, labelled(cl.text))
		case "ensures":
			need().Ensures = append(need().Ensures, labelled(cl.text))
		case "defines":
			need().Defines = append(need().Defines, labelled(cl.text))
		case "panics":
			need().PanicsIff = append(need().PanicsIff, labelled(cl.text))
		case "maypanic":
			if cl.text == "" {
				need().AnyPanic = true
			} else {
				need().MayPanic = append(need().MayPanic, labelled(cl.text))
			}
		case "onpanic":
			need().OnPanic = append(need().OnPanic, labelled(cl.text))
		case "modifies":
			if cl.text == "*" {
				need().ModAll = true
				break
			}
			p := newParser(cl.text, pos)
			for {
				need().Modifies = append(need().Modifies, p.expr(0))
				if !p.accept(",") {
					break
				}
			}
			p.end()
		case "loop":
			f := strings.Fields(cl.text)
			n, e := strconv.Atoi(f[0])
			if e != nil {
				panic(specErr{pos + ": loop number"})
			}
			rest := strings.TrimSpace(strings.TrimPrefix(cl.text, f[0]))
			ls := need().Loops[n]
			if ls == nil {
				ls = &LoopSpec{}
				need().Loops[n] = ls
			}
			switch {
			case strings.HasPrefix(rest, "invariant"):
				ls.Inv = append(ls.Inv, labelled(strings.TrimSpace(strings.TrimPrefix(rest, "invariant"))))
			case strings.HasPrefix(rest, "decreases"):
				ls.Decr = parse(strings.TrimSpace(strings.TrimPrefix(rest, "decreases")))
			default:
				panic(specErr{pos + ": loop clause"})
			}
		case "anyloop":
			need().AnyLoop = append(need().AnyLoop, labelled(cl.text))
		case "inline":
			need().Inline = true
		case "trusted":
			need().Trusted = cl.text
		case "pureuf":
			need().PureUF = true
		case "nonilcheck":
			need().NoNilCheck = true
		case "unroll":
			n, _ := strconv.Atoi(cl.text)
			need().Unroll = n
		case "timeout":
			n, _ := strconv.Atoi(cl.text)
			need().TimeoutMS = n
		case "purefn":
			for _, f := range strings.Fields(cl.text) {
				need().PureFns[f] = true
			}
		case "params":
			need().Params = strings.Fields(cl.text)
		case "results":
			need().Results = strings.Fields(cl.text)
		case "let":
			k := strings.Index(cl.text, "=")
			need().Lets = append(need().Lets, LetDecl{strings.TrimSpace(cl.text[:k]), parse(strings.TrimSpace(cl.text[k+1:]))})
		case "ghostset":
			k := strings.Index(cl.text, ":=")
			// On a func contract, the assignments come after the call as far as
			// its clauses are concerned: its postconditions talk about the
			// ghost state before them, and only callers see them.
			need().GhostSet = append(need().GhostSet, GhostAssign{parse(cl.text[:k]), parse(cl.text[k+2:])})
		case "pred", "logic":
			cur = nil
			p := newParser(cl.text, pos)
			d := &PredDef{Pkg: pkg, Logic: cl.kw == "logic", Ret: "bool"}
			d.Name = p.ident()
			p.expect("(")
			for !p.accept(")") {
				n := p.ident()
				d.Params = append(d.Params, BVarDecl{n, p.typ()})
				p.accept(",")
			}
			if !p.at("=") && p.tok != "" {
				d.Ret = p.typ()
			}
			if !d.Logic {
				p.expect("=")
				d.Body = p.expr(0)
			}
			p.end()
			if s.Preds[d.Name] != nil {
				panic(specErr{pos + ": duplicate " + d.Name})
			}
			s.Preds[d.Name] = d
		case "axiom":
			cur = nil
			c := labelled(cl.text)
			s.Axioms = append(s.Axioms, AxiomDef{Name: c.Label, E: c.E, Pkg: pkg, Text: c.Text})
		case "lemma":
			cur = nil
			// lemma name [P1 P2]: expr
			k := strings.Index(cl.text, ":")
			head := strings.Fields(strings.NewReplacer("[", " ", "]", " ").Replace(cl.text[:k]))
			s.Lemmas = append(s.Lemmas, Lemma{Name: head[0], Props: head[1:], E: parse(strings.TrimSpace(cl.text[k+1:])), Pkg: pkg, Text: cl.text[k+1:]})
		case "ghost":
			cur = nil
			f := strings.SplitN(cl.text, " ", 2)
			s.Ghosts[f[0]] = GhostVar{f[0], strings.TrimSpace(f[1]), pkg}
		case "guarded":
			cur = nil
			// guarded T.field by mutex [rw]
			f := strings.Fields(cl.text)
			tf := strings.SplitN(f[0], ".", 2)
			g := Guard{Type: qualifyType(tf[0], pkg), Field: tf[1], Mutex: f[2], Pkg: pkg}
			for _, x := range f[3:] {
				if x == "rw" {
					g.RW = true
				}
				if x == "elems" {
					g.Elems = true
				}
			}
			s.Guards = append(s.Guards, g)
		case "constglobal":
			s.ConstGlob[pkg+"."+cl.text] = true
		default:
			panic(specErr{pos + ": unknown clause " + cl.kw})
		}
	}
	return nil
}

func isLabel(s string) bool {
	for i, r := range s {
		if !(unicode.IsLetter(r) || r == '_' || r == '-' || i > 0 && unicode.IsDigit(r)) {
			return false
		}
	}
	return s != ""
}

func qualifyType(t, pkg string) string { return pkg + "." + t }

// qualify turns (*T).M, (T).M or F into the SSA name.
func qualify(key, pkg string) string {
	if i := strings.Index(key, "$["); i > 0 {
		return qualify(key[:i], pkg) + key[i:]
	}
	if i := strings.IndexByte(key, ')'); i > 0 && strings.Contains(key[:i], ".") {
		return key // already qualified
	}
	if strings.HasPrefix(key, "(*") {
		return "(*" + pkg + "." + key[2:]
	}
	if strings.HasPrefix(key, "(") {
		return "(" + pkg + "." + key[1:]
	}
	return pkg + "." + key
}

type specErr struct{ msg string }

type parser struct {
	src  string
	i    int
	tok  string
	kind byte // 'i' ident, 'n' number, 's' string, 'c' char, 'o' operator, 0 end
	pos  string
}

func parseExpr(t, pos string) *Expr {
	p := newParser(t, pos)
	e := p.expr(0)
	p.end()
	return e
}

func newParser(t, pos string) *parser {
	p := &parser{src: t, pos: pos}
	p.next()
	return p
}

func (p *parser) fail(f string, a ...interface{}) {
	panic(specErr{p.pos + ": " + fmt.Sprintf(f, a...) + " in: " + p.src})
}

var ops = []string{"<==>", "==>", "::", ":=", "&&", "||", "==", "!=", "<=", ">=", "<", ">", "+", "-", "*", "/", "%", "!", "(", ")", "[", "]", "{", "}", ",", ".", ":", "=", ";", "&", "#"}

func (p *parser) next() {
	for p.i < len(p.src) && (p.src[p.i] == ' ' || p.src[p.i] == '\t') {
		p.i++
	}
	if p.i >= len(p.src) {
		p.tok, p.kind = "", 0
		return
	}
	ch := p.src[p.i]
	start := p.i
	switch {
	case ch == '_' || ch == '$' || unicode.IsLetter(rune(ch)):
		for p.i < len(p.src) && (p.src[p.i] == '_' || p.src[p.i] == '$' || unicode.IsLetter(rune(p.src[p.i])) || unicode.IsDigit(rune(p.src[p.i]))) {
			p.i++
		}
		p.tok, p.kind = p.src[start:p.i], 'i'
		return
	case unicode.IsDigit(rune(ch)):
		for p.i < len(p.src) && (unicode.IsDigit(rune(p.src[p.i])) || p.src[p.i] == 'x' || p.src[p.i] >= 'a' && p.src[p.i] <= 'f' || p.src[p.i] >= 'A' && p.src[p.i] <= 'F') {
			p.i++
		}
		p.tok, p.kind = p.src[start:p.i], 'n'
		return
	case ch == '"' || ch == '`' || ch == '\'':
		p.i++
		for p.i < len(p.src) && p.src[p.i] != ch {
			if p.src[p.i] == '\\' && ch != '`' {
				p.i++
			}
			p.i++
		}
		if p.i >= len(p.src) {
			p.fail("unterminated literal")
		}
		p.i++
		p.tok, p.kind = p.src[start:p.i], 's'
		if ch == '\'' {
			p.kind = 'c'
		}
		return
	}
	for _, o := range ops {
		if strings.HasPrefix(p.src[p.i:], o) {
			p.i += len(o)
			p.tok, p.kind = o, 'o'
			return
		}
	}
	p.fail("bad character %q", ch)
}

func (p *parser) at(t string) bool { return p.tok == t && (p.kind == 'o' || p.kind == 'i') }
func (p *parser) accept(t string) bool {
	if p.at(t) {
		p.next()
		return true
	}
	return false
}
func (p *parser) expect(t string) {
	if !p.accept(t) {
		p.fail("expected %q, got %q", t, p.tok)
	}
}
func (p *parser) ident() string {
	if p.kind != 'i' {
		p.fail("expected identifier, got %q", p.tok)
	}
	s := p.tok
	p.next()
	return s
}
func (p *parser) end() {
	if p.kind != 0 {
		p.fail("unexpected %q", p.tok)
	}
}

// typ parses a type and returns its text.
func (p *parser) typ() string {
	switch {
	case p.accept("*"):
		return "*" + p.typ()
	case p.accept("["):
		p.expect("]")
		return "[]" + p.typ()
	case p.at("map"):
		p.next()
		p.expect("[")
		k := p.typ()
		p.expect("]")
		return "map[" + k + "]" + p.typ()
	}
	n := p.ident()
	if n == "seq" && p.accept("[") {
		k := p.typ()
		p.expect("]")
		return "seq[" + k + "]"
	}
	if p.accept(".") {
		n += "." + p.ident()
	}
	return n
}

var prec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "+": 6, "-": 6, "*": 7, "/": 7, "%": 7}

func (p *parser) mk(e Expr) *Expr {
	e.Pos = p.pos
	return &e
}

func (p *parser) expr(min int) *Expr {
	if p.kind == 'i' && (p.tok == "forall" || p.tok == "exists") {
		q := p.tok
		p.next()
		e := Expr{Op: q}
		for {
			n := p.ident()
			names := []string{n}
			for p.accept(",") {
				names = append(names, p.ident())
			}
			t := p.typ()
			for _, n := range names {
				e.Vars = append(e.Vars, BVarDecl{n, t})
			}
			if !p.accept(";") && !p.accept(",") {
				break
			}
		}
		p.expect("::")
		for p.accept("{") {
			var pat []*Expr
			for {
				pat = append(pat, p.expr(0))
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			e.Pats = append(e.Pats, pat)
		}
		e.Args = []*Expr{p.expr(0)}
		return p.mk(e)
	}
	if p.kind == 'i' && p.tok == "let" {
		p.next()
		n := p.ident()
		p.expect(":=")
		v := p.expr(0)
		p.expect(";")
		b := p.expr(0)
		return p.mk(Expr{Op: "let", Name: n, Args: []*Expr{v, b}})
	}
	l := p.unary()
	for {
		pr, ok := prec[p.tok]
		if !ok || p.kind != 'o' || pr < min {
			return l
		}
		op := p.tok
		p.next()
		var r *Expr
		if op == "==>" {
			r = p.expr(pr) // right associative
		} else {
			r = p.expr(pr + 1)
		}
		if pr == 5 && l.Op == "binop" && prec[l.Name] == 5 {
			// chained comparison a <= b < c
			l = p.mk(Expr{Op: "binop", Name: "&&", chained: true, Args: []*Expr{l, p.mk(Expr{Op: "binop", Name: op, Args: []*Expr{l.Args[1], r}})}})
			continue
		}
		if pr == 5 && l.chained {
			l = p.mk(Expr{Op: "binop", Name: "&&", chained: true, Args: []*Expr{l, p.mk(Expr{Op: "binop", Name: op, Args: []*Expr{l.Args[1].Args[1], r}})}})
			continue
		}
		l = p.mk(Expr{Op: "binop", Name: op, Args: []*Expr{l, r}})
	}
}

func (p *parser) unary() *Expr {
	switch {
	case p.accept("!"):
		return p.mk(Expr{Op: "unop", Name: "!", Args: []*Expr{p.unary()}})
	case p.accept("-"):
		return p.mk(Expr{Op: "unop", Name: "-", Args: []*Expr{p.unary()}})
	case p.accept("*"):
		return p.mk(Expr{Op: "unop", Name: "*", Args: []*Expr{p.unary()}})
	case p.accept("&"):
		return p.mk(Expr{Op: "unop", Name: "&", Args: []*Expr{p.unary()}})
	}
	return p.postfix(p.primary())
}

func (p *parser) postfix(e *Expr) *Expr {
	for {
		switch {
		case p.accept("."):
			n := ""
			if p.kind == 'n' {
				n = p.tok
				p.next()
			} else {
				n = p.ident()
			}
			e = p.mk(Expr{Op: "field", Name: n, Args: []*Expr{e}})
		case p.accept("["):
			var lo, hi *Expr
			if !p.at(":") {
				lo = p.expr(0)
			}
			if p.accept(":") {
				if !p.at("]") {
					hi = p.expr(0)
				}
				p.expect("]")
				e = p.mk(Expr{Op: "slice", Args: []*Expr{e, lo, hi}})
				continue
			}
			p.expect("]")
			e = p.mk(Expr{Op: "index", Args: []*Expr{e, lo}})
		case p.at("(") && (e.Op == "id" || e.Op == "field"):
			p.next()
			call := p.mk(Expr{Op: "call", Args: []*Expr{e}})
			if e.Op == "id" && (e.Name == "is" || e.Name == "as" || e.Name == "zero" || e.Name == "boxed" || e.Name == "tagof") {
				// type arguments
				if e.Name == "is" || e.Name == "as" || e.Name == "boxed" {
					call.Args = append(call.Args, p.expr(0))
					p.expect(",")
				}
				call.Args = append(call.Args, p.mk(Expr{Op: "type", Name: p.typ()}))
				p.expect(")")
				e = call
				continue
			}
			for !p.accept(")") {
				call.Args = append(call.Args, p.expr(0))
				if !p.at(")") {
					p.expect(",")
				}
			}
			e = call
		default:
			return e
		}
	}
}

func (p *parser) primary() *Expr {
	switch p.kind {
	case 'n':
		t := p.tok
		p.next()
		return p.mk(Expr{Op: "int", Name: t})
	case 's':
		t, err := strconv.Unquote(p.tok)
		if err != nil {
			p.fail("bad string %s", p.tok)
		}
		p.next()
		return p.mk(Expr{Op: "str", Name: t})
	case 'c':
		r, _, _, err := strconv.UnquoteChar(p.tok[1:len(p.tok)-1], '\'')
		if err != nil {
			p.fail("bad char %s", p.tok)
		}
		p.next()
		return p.mk(Expr{Op: "int", Name: strconv.Itoa(int(r))})
	case 'i':
		n := p.ident()
		switch n {
		case "true", "false":
			return p.mk(Expr{Op: "bool", Name: n})
		case "nil":
			return p.mk(Expr{Op: "nil"})
		case "old":
			p.expect("(")
			e := p.expr(0)
			p.expect(")")
			return p.mk(Expr{Op: "old", Args: []*Expr{e}})
		}
		return p.mk(Expr{Op: "id", Name: n})
	}
	if p.accept("(") {
		e := p.expr(0)
		p.expect(")")
		if e.Op == "binop" { // parenthesised comparisons do not chain
			e = p.mk(Expr{Op: "paren", Args: []*Expr{e}})
		}
		return e
	}
	p.fail("unexpected %q", p.tok)
	return nil
}
