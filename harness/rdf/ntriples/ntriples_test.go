package ntriples

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"
	"unicode/utf8"
)

func vOne(r *rand.Rand, xs ...string) string { return xs[r.Intn(len(xs))] }

// vLit is a literal of another implementation than the package's.
type vLit struct{ a, b, c string }

func (l vLit) LexicalForm() string { return l.a }
func (l vLit) Datatype() IRI       { return IRI(l.b) }
func (l vLit) LanguageTag() string { return l.c }

// vTerm says what a term is: its kind and content.
type vTerm struct {
	kind       string // iri, blank, literal
	a, dt, tag string
}

func (v vTerm) object(r *rand.Rand) *Object {
	switch v.kind {
	case "iri":
		if r.Intn(3) == 0 {
			return NewObjectFromSubject(NewSubjectIRI(IRI(v.a)))
		}
		return NewObjectIRI(IRI(v.a))
	case "blank":
		if r.Intn(3) == 0 {
			return NewObjectFromSubject(NewSubjectBlankNodeID(BlankNodeID(v.a)))
		}
		return NewObjectBlankNodeID(BlankNodeID(v.a))
	}
	if r.Intn(3) == 0 {
		return NewObjectLiteral(vLit{v.a, v.dt, v.tag})
	}
	return NewObjectLiteral(NewLiteral(v.a, IRI(v.dt), v.tag))
}

func (v vTerm) subject() *Subject {
	if v.kind == "iri" {
		return NewSubjectIRI(IRI(v.a))
	}
	return NewSubjectBlankNodeID(BlankNodeID(v.a))
}

func vTermGen(r *rand.Rand, literal bool) vTerm {
	words := []string{"", "a", "b", "x:a", "A", "http://a/", "http://a/#", "a\n", "é", "é"}
	switch n := r.Intn(3); {
	case n == 0:
		return vTerm{kind: "iri", a: vOne(r, words...)}
	case n == 1 || !literal:
		return vTerm{kind: "blank", a: vOne(r, words[1:]...)}
	}
	t := vTerm{kind: "literal", a: vOne(r, words...), dt: vOne(r, "", "http://a/", string(XMLSchemaString), string(LangString), "b")}
	if r.Intn(2) == 0 {
		t.tag = vOne(r, "", "en", "EN", "en-us", "a")
	}
	return t
}

func vKinds(is ...bool) int {
	n := 0
	for _, b := range is {
		if b {
			n++
		}
	}
	return n
}

func TestVerif_N01(t *testing.T) {
	const prop = "N01"
	defer vDone(prop)
	r := vRand(1)
	for i := 0; i < vScale(20000); i++ {
		a, b := vTermGen(r, true), vTermGen(r, true)
		if r.Intn(3) == 0 {
			b = a
			switch r.Intn(4) {
			case 0:
				b.a += vOne(r, "", "a")
			case 1:
				if b.kind == "literal" {
					b.dt += vOne(r, "", "a")
				}
			case 2:
				if b.kind == "literal" {
					b.tag += vOne(r, "", "a")
				}
			}
		}
		in := fmt.Sprintf("object %+v and object %+v", a, b)
		vCase(prop, in)
		if p := vTry(func() {
			x, y := a.object(r), b.object(r)
			if got := ObjectsEqual(x, y); got != (a == b) {
				vFail(t, prop, "objects", in, fmt.Sprintf("equal = %v", got))
			}
			if ObjectsEqual(x, y) != ObjectsEqual(y, x) {
				vFail(t, prop, "objects-symmetric", in, "not symmetric")
			}
			if !ObjectsEqual(x, x) {
				vFail(t, prop, "objects-reflexive", in, "not equal to itself")
			}
			if vKinds(x.IsIRI(), x.IsBlankNode(), x.IsLiteral()) != 1 || x.IsIRI() != (a.kind == "iri") || x.IsBlankNode() != (a.kind == "blank") {
				vFail(t, prop, "object-kind", in, fmt.Sprintf("IsIRI %v IsBlankNode %v IsLiteral %v", x.IsIRI(), x.IsBlankNode(), x.IsLiteral()))
			}
			if x.IsIRI() && string(x.IRI()) != a.a || x.IsBlankNode() && string(x.BlankNodeID()) != a.a || x.IsLiteral() && (x.Literal().LexicalForm() != a.a || string(x.Literal().Datatype()) != a.dt || x.Literal().LanguageTag() != a.tag) {
				vFail(t, prop, "object-content", in, "content differs")
			}
			if a.kind == "literal" && b.kind == "literal" && LiteralsEqual(x.Literal(), y.Literal()) != (a == b) {
				vFail(t, prop, "literals", in, "literal equality differs")
			}
		}); p != "" {
			vFail(t, prop, "objects-panic", in, p)
		}

		sa, sb := vTermGen(r, false), vTermGen(r, false)
		if r.Intn(3) == 0 {
			sb = sa
		}
		in = fmt.Sprintf("subject %+v and subject %+v", sa, sb)
		vCase(prop, in)
		if p := vTry(func() {
			x, y := sa.subject(), sb.subject()
			if got := SubjectsEqual(x, y); got != (sa == sb) {
				vFail(t, prop, "subjects", in, fmt.Sprintf("equal = %v", got))
			}
			if vKinds(x.IsIRI(), x.IsBlankNode()) != 1 || x.IsIRI() != (sa.kind == "iri") {
				vFail(t, prop, "subject-kind", in, fmt.Sprintf("IsIRI %v IsBlankNode %v", x.IsIRI(), x.IsBlankNode()))
			}
			if x.IsIRI() && string(x.IRI()) != sa.a || x.IsBlankNode() && string(x.BlankNodeID()) != sa.a {
				vFail(t, prop, "subject-content", in, "content differs")
			}
		}); p != "" {
			vFail(t, prop, "subjects-panic", in, p)
		}

		pa, pb := vOne(r, "p", "q", ""), vOne(r, "p", "q", "")
		in = fmt.Sprintf("triples %+v %q %+v and %+v %q %+v", sa, pa, a, sb, pb, b)
		vCase(prop, in)
		if p := vTry(func() {
			x, y := NewTriple(sa.subject(), IRI(pa), a.object(r)), NewTriple(sb.subject(), IRI(pb), b.object(r))
			want := sa == sb && pa == pb && a == b
			if got := TriplesEqual(x, y); got != want {
				vFail(t, prop, "triples", in, fmt.Sprintf("equal = %v", got))
			}
			if TriplesEqual(x, y) != TriplesEqual(y, x) || !TriplesEqual(x, x) {
				vFail(t, prop, "triples-equivalence", in, "not an equivalence")
			}
		}); p != "" {
			vFail(t, prop, "triples-panic", in, p)
		}
	}
}

func vText(r *rand.Rand) string {
	n := r.Intn(8)
	var b strings.Builder
	for i := 0; i < n; i++ {
		switch r.Intn(6) {
		case 0:
			b.WriteRune(rune(r.Intn(0x20)))
		case 1:
			b.WriteString(vOne(r, `"`, `\`, "\n", "\r", "\t", "'", `\n`, `\u0041`, `\\`, `"@en`, `"^^<a>`, "\u0085", "\u2028", "\ufeff", "\ufffd", "\x7f"))
		case 2:
			b.WriteRune(rune(0x20 + r.Intn(0x5f)))
		case 3:
			for {
				c := rune(r.Intn(0x110000))
				if utf8.ValidRune(c) {
					b.WriteRune(c)
					break
				}
			}
		default:
			b.WriteString(vOne(r, "a", "b", " ", "é", "世", "."))
		}
	}
	return b.String()
}

func vIRIText(r *rand.Rand) string {
	return vOne(r, "http://a.example/", "urn:x:y", "http://é.example/", "s:", "http://u@h:80/p/q") + vOne(r, "", "x", "a/b", "世", "%20", "q?r=s", "a'b", "(c)", "&;,", "\U00010000", "~", "%25") + vOne(r, "", "#", "#f", "#é?/")
}

func vLabel(r *rand.Rand) string {
	s := vOne(r, "a", "Z", "0", "_", ":", "é", "\u3041", "\U00010000", "\U000EFFFF", "\u037f", "\u200c", "\u2070")
	for n := r.Intn(5); n > 0; n-- {
		s += vOne(r, "a", "9", "-", ".", "_", "\u00b7", "\u0300", "\u203f", "\U00020000", "e", "#"[:0], "x")
	}
	if strings.HasSuffix(s, ".") {
		s += "z"
	}
	return s
}

func vTripleGen(r *rand.Rand) (*Triple, string) {
	sub := NewSubjectIRI(IRI(vIRIText(r)))
	if r.Intn(2) == 0 {
		sub = NewSubjectBlankNodeID(BlankNodeID(vLabel(r)))
	}
	var obj *Object
	switch r.Intn(6) {
	case 0:
		obj = NewObjectIRI(IRI(vIRIText(r)))
	case 1:
		obj = NewObjectBlankNodeID(BlankNodeID(vLabel(r)))
	case 2:
		obj = NewObjectLiteral(NewLiteral(vText(r), LangString, vOne(r, "en", "en-us", "zh-Hant-TW", "x-a1-b2-c3", "de-1996")))
	case 3:
		obj = NewObjectLiteral(NewLiteral(vText(r), XMLSchemaString, ""))
	default:
		obj = NewObjectLiteral(NewLiteral(vText(r), IRI(vIRIText(r)), ""))
	}
	t := NewTriple(sub, IRI(vIRIText(r)), obj)
	return t, fmt.Sprintf("subject %q %q predicate %q object %q %q %+v", sub.IRI(), sub.BlankNodeID(), t.Predicate(), obj.IRI(), obj.BlankNodeID(), obj.Literal())
}

func TestVerif_N02_roundtrip(t *testing.T) {
	const prop = "N02"
	defer vDone(prop)
	r := vRand(2)
	for i := 0; i < vScale(20000); i++ {
		tr, in := vTripleGen(r)
		vCase(prop, in)
		if p := vTry(func() {
			s := tr.String()
			got, c, err := ParseLine(s)
			if err != nil || got == nil || c != nil {
				vFail(t, prop, "rejected", in, fmt.Sprintf("written %q: %v", s, err))
				return
			}
			if !TriplesEqual(got, tr) || !TriplesEqual(tr, got) {
				vFail(t, prop, "different", in, fmt.Sprintf("written %q: read back %q", s, got.String()))
			}
			// by content, not by the package's own equality
			same := got.Subject().IRI() == tr.Subject().IRI() && got.Subject().BlankNodeID() == tr.Subject().BlankNodeID() && got.Predicate() == tr.Predicate() && got.Object().IRI() == tr.Object().IRI() && got.Object().BlankNodeID() == tr.Object().BlankNodeID() && (got.Object().Literal() == nil) == (tr.Object().Literal() == nil)
			if same && tr.Object().Literal() != nil {
				a, b := got.Object().Literal(), tr.Object().Literal()
				same = a.LexicalForm() == b.LexicalForm() && a.Datatype() == b.Datatype() && a.LanguageTag() == b.LanguageTag()
			}
			if !same {
				vFail(t, prop, "content", in, fmt.Sprintf("written %q: read back %q", s, got.String()))
			}
			if strings.ContainsAny(s, "\n\r") {
				vFail(t, prop, "line", in, fmt.Sprintf("written with a line break: %q", s))
			}
			all, err := ParseLines([]string{"#c", s, s})
			if err != nil || len(all) != 2 || !TriplesEqual(all[0], tr) || !TriplesEqual(all[1], tr) {
				vFail(t, prop, "lines", in, fmt.Sprintf("ParseLines: %v", err))
			}
		}); p != "" {
			vFail(t, prop, "panic", in, p)
		}
	}
}

// vDecode decodes the inside of a string literal as the N-Triples grammar says.
func vDecode(s string) (string, bool) {
	var b strings.Builder
	for len(s) > 0 {
		c, w := utf8.DecodeRuneInString(s)
		if c == '"' || c == '\n' || c == '\r' {
			return "", false
		}
		if c != '\\' {
			b.WriteString(s[:w])
			s = s[w:]
			continue
		}
		if len(s) < 2 {
			return "", false
		}
		if i := strings.IndexByte(`tbnrf"'\`, s[1]); i >= 0 {
			b.WriteByte("\t\b\n\r\f\"'\\"[i])
			s = s[2:]
			continue
		}
		n := 0
		switch s[1] {
		case 'u':
			n = 4
		case 'U':
			n = 8
		default:
			return "", false
		}
		if len(s) < 2+n {
			return "", false
		}
		v := int64(0)
		for _, d := range []byte(s[2 : 2+n]) {
			k := strings.IndexByte("0123456789abcdef", d|0x20)
			if d >= '0' && d <= '9' {
				k = int(d - '0')
			}
			if k < 0 || (k < 10 && (d < '0' || d > '9')) {
				return "", false
			}
			v = v*16 + int64(k)
		}
		if v > utf8.MaxRune || !utf8.ValidRune(rune(v)) {
			return "", false
		}
		b.WriteRune(rune(v))
		s = s[2+n:]
	}
	return b.String(), true
}

func TestVerif_N02_literal(t *testing.T) {
	const prop = "N02"
	defer vDone(prop)
	r := vRand(3)
	check := func(body string) {
		vCase(prop, body)
		if p := vTry(func() {
			want, ok := vDecode(body)
			lit, rest, err := ParseLiteral(`"` + body + `"` + " .")
			whole := err == nil && rest == " ."
			if strings.Contains(strings.ReplaceAll(strings.ReplaceAll(body, `\\`, ""), `\"`, ""), `"`) {
				return // more than one literal
			}
			if ok != whole {
				vFail(t, prop, "literal-accept", body, fmt.Sprintf("accepted = %v (rest %q, err %v), want %v", whole, rest, err, ok))
				return
			}
			if ok && (lit.LexicalForm() != want || lit.Datatype() != XMLSchemaString || lit.LanguageTag() != "") {
				vFail(t, prop, "literal-decode", body, fmt.Sprintf("decoded as %q, want %q", lit.LexicalForm(), want))
			}
			if _, _, err := ParseLine("<s:> <p:> \"" + body + "\" ."); (err == nil) != ok {
				vFail(t, prop, "literal-line", body, fmt.Sprintf("err %v, want accepted %v", err, ok))
			}
		}); p != "" {
			vFail(t, prop, "literal-panic", body, p)
		}
	}
	for c := rune(0); c < 0x180; c++ {
		check(string(c))
		check(`\` + string(c))
		check(`a\` + string(c) + `b`)
		check(fmt.Sprintf(`\u%04x`, c))
		check(fmt.Sprintf(`x\U%08Xy`, c))
	}
	for _, c := range []int64{0xd7ff, 0xd800, 0xdbff, 0xdfff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0x110000, 0x7fffffff, 0x80000000, 0xffffffff} {
		check(fmt.Sprintf(`\U%08X`, c))
		if c <= 0xffff {
			check(fmt.Sprintf(`\u%04X`, c))
		}
	}
	for i := 0; i < vScale(20000); i++ {
		s := ""
		for n := r.Intn(6); n > 0; n-- {
			s += vOne(r, `\t`, `\b`, `\n`, `\r`, `\f`, `\"`, `\'`, `\\`, `\u00e9`, `\U0001F600`, `\u0`, `\U1234567`, `\x`, `\0`, `\a`, "a", " ", "é", "\n", "\t", "\\", "4", "f", "u", `\uD83D`, `\U00110000`, `\v`, `\e`, `\N`)
		}
		check(s)
	}
}
