package rdfxml

import (
	"encoding/xml"
	"fmt"
	"math/rand"
	"net/url"
	"sort"
	"strings"
	"testing"

	"github.com/google/xtoproto/rdf/ntriples"
)

const vEx = "http://ex.example/ns#"

// vDoc writes a document and, beside it, the triples it denotes. Nodes without
// a name are marked by a literal, so that the labels they get can be found.
type vDoc struct {
	r      *rand.Rand
	b      strings.Builder
	want   [][3]string
	marks  int
	ids    map[string]bool
	dup    bool
	nodes  int
	prefix string
}

type vEnv struct{ base, lang string }

func (d *vDoc) add(s, p, o string) { d.want = append(d.want, [3]string{s, p, o}) }

func vIRI(s string) string { return "<" + s + ">" }

func vLit(s string, e vEnv) string {
	if e.lang == "" {
		return fmt.Sprintf("%q", s)
	}
	return fmt.Sprintf("%q@%s", s, e.lang)
}

func vResolve(base, ref string) string {
	if i := strings.IndexByte(base, '#'); i >= 0 {
		base = base[:i]
	}
	if ref == "" {
		return base
	}
	b, err := url.Parse(base)
	if err != nil {
		return ref
	}
	u, err := url.Parse(ref)
	if err != nil {
		return ref
	}
	if ref[0] == '#' {
		return base + ref
	}
	return b.ResolveReference(u).String()
}

func (d *vDoc) pick(ss ...string) string { return ss[d.r.Intn(len(ss))] }

func (d *vDoc) ref() string {
	return d.pick("r1", "../r2", "#frag", "http://c.example/abs", "//h.example/p", "?q=1", "", "a/./b", "x#y")
}

// env writes xml:base and xml:lang attributes, sometimes, and returns what is in
// force with them.
func (d *vDoc) env(e vEnv) vEnv {
	if d.r.Intn(5) == 0 {
		v := d.pick("http://a.example/dir/doc", "http://b.example/x/y/z#frag", "sub/", "../up", "", "http://a.example/dir/doc", "#only")
		fmt.Fprintf(&d.b, " xml:base=%q", v)
		e.base = vResolve(e.base, v)
	}
	if d.r.Intn(5) == 0 {
		e.lang = d.pick("en", "de", "", "fr-CA")
		fmt.Fprintf(&d.b, " xml:lang=%q", e.lang)
	}
	return e
}

func (d *vDoc) idAttr(e vEnv) string {
	v := fmt.Sprintf("%s%d", d.prefix, len(d.ids))
	if d.r.Intn(40) == 0 {
		v = d.prefix + "0"
	}
	fmt.Fprintf(&d.b, " rdf:ID=%q", v)
	iri := vResolve(e.base, "#"+v)
	d.dup = d.dup || d.ids[iri]
	d.ids[iri] = true
	return vIRI(iri)
}

func (d *vDoc) mark(e vEnv) (string, string) {
	d.marks++
	m := fmt.Sprintf("m%d", d.marks)
	return "G" + m, m
}

func (d *vDoc) label() string {
	return d.pick("gen-1", "gen-2", "gen-3", "gen-2-first-in-seq", "gen-4-cons-0", "n1", "_n2", "gen-5", "gen-6", "gen-7")
}

func (d *vDoc) noise() {
	switch d.r.Intn(8) {
	case 0:
		d.b.WriteString("\n  ")
	case 1:
		d.b.WriteString("<!-- c -->")
	case 2:
		d.b.WriteString("<?pi x?>")
	}
}

// node writes a node element and returns its subject. A node in a list is
// different from every other.
func (d *vDoc) node(e vEnv, depth int, listed bool) string {
	d.nodes++
	name := d.pick("rdf:Description", "rdf:Description", "ex:Thing", "rdf:Bag", "rdf:Statement")
	d.b.WriteString("<" + name)
	before := d.r.Intn(2) == 0
	if before {
		e = d.env(e)
	}
	// The identifying attribute is resolved with the base of its own element,
	// wherever the base is written, so it is written last.
	if !before {
		e = d.env(e)
	}
	subj, markText := "", ""
	k := d.r.Intn(4)
	if listed && k != 1 {
		k = 3
	}
	switch k {
	case 0:
		v := d.ref()
		fmt.Fprintf(&d.b, " rdf:about=%q", v)
		subj = vIRI(vResolve(e.base, v))
	case 1:
		subj = d.idAttr(e)
	case 2:
		v := d.label()
		fmt.Fprintf(&d.b, " rdf:nodeID=%q", v)
		subj = "W" + v
	default:
		subj, markText = d.mark(e)
		fmt.Fprintf(&d.b, " ex:mark=%q", markText)
		d.add(subj, vIRI(vEx+"mark"), vLit(markText, e))
	}
	if i := strings.IndexByte(name, ':'); name != "rdf:Description" {
		ns := map[string]string{"rdf": string(RDF), "ex": vEx}[name[:i]]
		d.add(subj, vIRI(string(RDFType)), vIRI(ns+name[i+1:]))
	}
	if d.r.Intn(3) == 0 {
		v := d.pick("text", "", "a b")
		fmt.Fprintf(&d.b, " ex:attr=%q", v)
		d.add(subj, vIRI(vEx+"attr"), vLit(v, e))
	}
	if d.r.Intn(5) == 0 {
		v := d.ref()
		fmt.Fprintf(&d.b, " rdf:type=%q", v)
		d.add(subj, vIRI(string(RDFType)), vIRI(vResolve(e.base, v)))
	}
	d.b.WriteString(">")
	d.props(e, subj, depth)
	d.b.WriteString("</" + name + ">")
	return subj
}

func (d *vDoc) props(e vEnv, subj string, depth int) {
	li := 0
	for n := d.r.Intn(4); n > 0; n-- {
		d.noise()
		d.prop(e, subj, depth, &li)
	}
	d.noise()
}

func (d *vDoc) reify(id, s, p, o string) {
	if id == "" {
		return
	}
	d.add(id, vIRI(string(RDFType)), vIRI(string(RDFStatement)))
	d.add(id, vIRI(string(RDFSubject)), s)
	d.add(id, vIRI(string(RDFPredicate)), p)
	d.add(id, vIRI(string(RDFObject)), o)
}

func (d *vDoc) prop(e vEnv, subj string, depth int, li *int) {
	name := d.pick("ex:p", "ex:q", "rdf:li", "rdf:value", "rdf:_7")
	pred := vIRI(vEx + strings.TrimPrefix(name, "ex:"))
	if strings.HasPrefix(name, "rdf:") {
		pred = vIRI(string(RDF) + name[4:])
	}
	if name == "rdf:li" {
		*li++
		pred = vIRI(fmt.Sprintf("%s_%d", string(RDF), *li))
	}
	d.b.WriteString("<" + name)
	e = d.env(e)
	id := ""
	if d.r.Intn(5) == 0 {
		id = d.idAttr(e)
	}
	end := "</" + name + ">"
	obj := ""
	k := d.r.Intn(9)
	if depth <= 0 && (k == 2 || k >= 6) {
		k = 0
	}
	switch k {
	case 0:
		v := d.pick("text", " ", "5", "two words")
		d.b.WriteString(">" + v)
		if d.r.Intn(4) == 0 {
			d.b.WriteString("<!-- c -->more")
			v += "more"
		}
		d.b.WriteString(end)
		obj = vLit(v, e)
	case 1:
		d.b.WriteString(` rdf:datatype="http://t.example/int">5` + end)
		obj = `"5"^^http://t.example/int`
	case 2:
		d.b.WriteString(">")
		d.noise()
		obj = d.node(e, depth-1, false)
		d.noise()
		d.b.WriteString(end)
	case 3:
		v := d.ref()
		fmt.Fprintf(&d.b, " rdf:resource=%q/>", v)
		obj = vIRI(vResolve(e.base, v))
		if d.r.Intn(2) == 0 {
			s := d.b.String()
			d.b.Reset()
			d.b.WriteString(s[:len(s)-2] + ` ex:extra="e"/>`)
			d.add(obj, vIRI(vEx+"extra"), vLit("e", e))
		}
	case 4:
		v := d.label()
		fmt.Fprintf(&d.b, " rdf:nodeID=%q/>", v)
		obj = "W" + v
	case 5:
		if d.r.Intn(2) == 0 {
			d.b.WriteString("/>")
			obj = vLit("", e)
			break
		}
		var m string
		obj, m = d.mark(e)
		fmt.Fprintf(&d.b, " ex:mark=%q/>", m)
		d.add(obj, vIRI(vEx+"mark"), vLit(m, e))
	case 6:
		d.b.WriteString(` rdf:parseType="Resource">`)
		var m string
		obj, m = d.mark(e)
		fmt.Fprintf(&d.b, "<ex:mark>%s</ex:mark>", m)
		d.add(obj, vIRI(vEx+"mark"), vLit(m, e))
		d.props(e, obj, depth-1)
		d.b.WriteString(end)
	case 7:
		d.b.WriteString(` rdf:parseType="Collection">`)
		var items []string
		for n := d.r.Intn(4); n > 0; n-- {
			d.noise()
			items = append(items, d.node(e, depth-1, true))
		}
		d.noise()
		d.b.WriteString(end)
		cell := func(i int) string {
			if i == len(items) {
				return vIRI(string(RDFNil))
			}
			return "C" + items[i]
		}
		obj = cell(0)
		for i, it := range items {
			d.add(cell(i), vIRI(string(RDFFirst)), it)
			d.add(cell(i), vIRI(string(RDFRest)), cell(i+1))
		}
	case 8:
		d.b.WriteString(` rdf:parseType="Literal">plain` + end)
		obj = `"plain"^^` + string(RDFXMLLiteral)
	}
	d.add(subj, pred, obj)
	d.reify(id, subj, pred, obj)
}

func vGenerate(r *rand.Rand) (*vDoc, string) {
	d := &vDoc{r: r, ids: map[string]bool{}, prefix: "id"}
	e := vEnv{}
	option := d.pick("http://doc.example/dir/file.rdf", "http://doc.example/dir/file.rdf", "http://doc.example/x#f")
	e.base = vResolve(option, "")
	ns := fmt.Sprintf(` xmlns:rdf=%q xmlns:ex=%q`, string(RDF), vEx)
	if r.Intn(8) == 0 {
		d.b.WriteString("<rdf:Description" + ns + ` ex:mark="m1">`)
		d.marks = 1
		d.add("Gm1", vIRI(vEx+"mark"), vLit("m1", e))
		d.props(e, "Gm1", 3)
		d.b.WriteString("</rdf:Description>")
		return d, option
	}
	d.b.WriteString("<rdf:RDF" + ns)
	e = d.env(e)
	d.b.WriteString(">")
	for n := 1 + r.Intn(4); n > 0; n-- {
		d.noise()
		d.node(e, 3, false)
	}
	d.noise()
	d.b.WriteString("</rdf:RDF>\n")
	return d, option
}

type vTerm struct{ kind, text string }

func vParse(text, option string) (got []*ntriples.Triple, err error, msg string) {
	msg = vTry(func() {
		got, err = NewParser(xml.NewDecoder(strings.NewReader(text)), &ParserOptions{BaseURL: ntriples.IRI(option)}).ReadAllTriples()
	})
	return
}

func vCompare(d *vDoc, got []*ntriples.Triple) (string, string) {
	written := map[string]bool{}
	for _, w := range d.want {
		for _, x := range w {
			if x[0] == 'W' {
				written[x[1:]] = true
			}
		}
	}
	names := map[string]string{}
	for l := range written {
		names[l] = "W" + l
	}
	markOf := map[string]string{}
	for _, tr := range got {
		if tr.Predicate() != ntriples.IRI(vEx+"mark") {
			continue
		}
		if !tr.Subject().IsBlankNode() {
			return "marked", fmt.Sprintf("%s is not a blank node", tr)
		}
		l := string(tr.Subject().BlankNodeID())
		if written[l] {
			return "written-label", fmt.Sprintf("the generated label %s is also written in the document", l)
		}
		m := "G" + tr.Object().Literal().LexicalForm()
		if old, ok := markOf[l]; ok && old != m {
			return "shared-label", fmt.Sprintf("the label %s is given to the nodes %s and %s", l, old, m)
		}
		markOf[l], names[l] = m, m
	}
	object := func(o *ntriples.Object) string {
		switch {
		case o.IsBlankNode():
			return names[string(o.BlankNodeID())]
		case o.IsIRI():
			return vIRI(string(o.IRI()))
		}
		l := o.Literal()
		switch {
		case l.LanguageTag() != "":
			return fmt.Sprintf("%q@%s", l.LexicalForm(), l.LanguageTag())
		case l.Datatype() == ntriples.XMLSchemaString || l.Datatype() == "":
			return fmt.Sprintf("%q", l.LexicalForm())
		}
		return fmt.Sprintf("%q^^%s", l.LexicalForm(), string(l.Datatype()))
	}
	cells := map[string]string{}
	for _, tr := range got {
		if tr.Predicate() == RDFFirst && tr.Subject().IsBlankNode() {
			l := string(tr.Subject().BlankNodeID())
			if written[l] {
				return "written-label", fmt.Sprintf("the generated label %s is also written in the document", l)
			}
			if _, ok := names[l]; ok {
				return "shared-label", fmt.Sprintf("the label %s is given to a list and another node", l)
			}
			cells[l] = "C" + object(tr.Object())
		}
	}
	for l, c := range cells {
		names[l] = c
	}
	var a, b []string
	for _, tr := range got {
		s := ""
		if tr.Subject().IsBlankNode() {
			s = names[string(tr.Subject().BlankNodeID())]
		} else {
			s = vIRI(string(tr.Subject().IRI()))
		}
		a = append(a, s+" "+vIRI(string(tr.Predicate()))+" "+object(tr.Object()))
	}
	for _, w := range d.want {
		b = append(b, w[0]+" "+w[1]+" "+w[2])
	}
	sort.Strings(a)
	sort.Strings(b)
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "nothing", "nothing"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return "triples", fmt.Sprintf("got %s, expected %s (all: %q)", x, y, a)
		}
	}
	return "", ""
}

func vRun(t *testing.T, prop string, salt int64, n int) {
	r := vRand(salt)
	for i := 0; i < vScale(n); i++ {
		d, option := vGenerate(r)
		text := d.b.String()
		in := "base " + option + ": " + text
		vCase(prop, in)
		got, err, msg := vParse(text, option)
		if msg != "" {
			vFail(t, prop, "panic", in, msg)
			continue
		}
		if d.dup {
			if err == nil {
				vFail(t, prop, "duplicate-id", in, "an rdf:ID is used twice against the same base")
			}
			continue
		}
		if err != nil {
			vFail(t, prop, "refused", in, err.Error())
			continue
		}
		if key, msg := vCompare(d, got); key != "" {
			vFail(t, prop, key, in, msg)
		}
		for _, tr := range got {
			line := tr.String()
			if _, _, err := ntriples.ParseLine(line); err != nil && prop == "D02" {
				vFail(t, prop, "label", in, fmt.Sprintf("%s is no triple: %v", line, err))
			}
		}
	}
	vDone(prop)
}

func TestVerif_D01_documents(t *testing.T) { vRun(t, "D01", 951, 3000) }
func TestVerif_D02_documents(t *testing.T) { vRun(t, "D02", 952, 3000) }
func TestVerif_D03_documents(t *testing.T) { vRun(t, "D03", 953, 3000) }

func TestVerif_D02_ids(t *testing.T) {
	ns := fmt.Sprintf(` xmlns:rdf=%q xmlns:ex=%q`, string(RDF), vEx)
	uses := []string{`<rdf:Description rdf:ID="%s"/>`, `<rdf:Description><ex:p rdf:ID="%s">x</ex:p></rdf:Description>`, `<rdf:Description><ex:p rdf:ID="%s"/></rdf:Description>`, `<rdf:Description><ex:p rdf:ID="%s" rdf:resource="r"/></rdf:Description>`, `<rdf:Description><ex:p rdf:ID="%s"><rdf:Description/></ex:p></rdf:Description>`, `<rdf:Description><ex:p rdf:ID="%s" rdf:parseType="Resource"/></rdf:Description>`, `<rdf:Description><ex:p rdf:ID="%s" rdf:parseType="Collection"/></rdf:Description>`, `<rdf:Description><ex:p rdf:ID="%s" rdf:parseType="Collection"><rdf:Description/></ex:p></rdf:Description>`, `<rdf:Description><ex:p rdf:ID="%s" rdf:parseType="Literal">x</ex:p></rdf:Description>`}
	for _, a := range uses {
		for _, b := range uses {
			for k, base := range []string{"", ` xml:base="http://doc.example/f"`, ` xml:base="http://other.example/f"`, ` xml:base="http://doc.example/f#x"`, ` xml:base="g"`} {
				second := fmt.Sprintf(b, "x")
				second = strings.Replace(second, "<rdf:Description", "<rdf:Description"+base, 1)
				text := "<rdf:RDF" + ns + ">" + fmt.Sprintf(a, "x") + second + "</rdf:RDF>"
				vCase("D02", text)
				_, err, msg := vParse(text, "http://doc.example/f")
				bad := k == 0 || k == 1 || k == 3
				if msg != "" || (err != nil) != bad {
					vFail(t, "D02", "ids", text, fmt.Sprint("the error is ", err, msg))
				}
			}
		}
		for _, v := range []string{"1a", "a:b", "", "a b", "-x", "a/b", ".x"} {
			text := "<rdf:RDF" + ns + ">" + fmt.Sprintf(a, v) + "</rdf:RDF>"
			vCase("D02", text)
			if _, err, msg := vParse(text, "http://doc.example/f"); err == nil || msg != "" {
				vFail(t, "D02", "id-syntax", text, "accepted "+msg)
			}
		}
		for _, v := range []string{"_a", "a-b", "a.b", "é", "A_1", "x·"} {
			text := "<rdf:RDF" + ns + ">" + fmt.Sprintf(a, v) + "</rdf:RDF>"
			vCase("D02", text)
			if _, err, msg := vParse(text, "http://doc.example/f"); err != nil || msg != "" {
				vFail(t, "D02", "id-syntax", text, fmt.Sprint("refused ", err, msg))
			}
		}
	}
	vDone("D02")
}

func TestVerif_D03_terms(t *testing.T) {
	set := func(s string) map[string]bool {
		m := map[string]bool{}
		for _, x := range strings.Fields(s) {
			m[x] = true
		}
		return m
	}
	terms := strings.Fields("RDF ID about parseType resource nodeID datatype Description li aboutEach aboutEachPrefix bagID Seq Bag Alt Statement Property XMLLiteral List subject predicate object type value first rest nil _1 _99 foo")
	places := []struct {
		name, format string
		bad          map[string]bool
		skip         map[string]bool
	}{
		{"node element", `<rdf:%s/>`, set("RDF ID about parseType resource nodeID datatype li aboutEach aboutEachPrefix bagID"), nil},
		{"inner node element", `<rdf:Description><ex:p><rdf:%s/></ex:p></rdf:Description>`, set("RDF ID about parseType resource nodeID datatype li aboutEach aboutEachPrefix bagID"), nil},
		{"list item", `<rdf:Description><ex:p rdf:parseType="Collection"><rdf:%s/></ex:p></rdf:Description>`, set("RDF ID about parseType resource nodeID datatype li aboutEach aboutEachPrefix bagID"), nil},
		{"property element", `<rdf:Description><rdf:%s>x</rdf:%[1]s></rdf:Description>`, set("RDF ID about parseType resource nodeID datatype Description aboutEach aboutEachPrefix bagID"), nil},
		{"property element of a node", `<rdf:Description><ex:p rdf:parseType="Resource"><rdf:%s>x</rdf:%[1]s></ex:p></rdf:Description>`, set("RDF ID about parseType resource nodeID datatype Description aboutEach aboutEachPrefix bagID"), nil},
		{"property attribute", `<rdf:Description rdf:%s="v"/>`, set("RDF parseType resource datatype Description li aboutEach aboutEachPrefix bagID"), nil},
		{"attribute of an empty property element", `<rdf:Description><ex:p rdf:%s="v"/></rdf:Description>`, set("RDF about Description li aboutEach aboutEachPrefix bagID"), set("parseType datatype")},
		{"attribute of a property element with text", `<rdf:Description><ex:p rdf:%s="v">x</ex:p></rdf:Description>`, nil, set("parseType ID datatype")},
		{"attribute of a property element with a node", `<rdf:Description><ex:p rdf:%s="v"><rdf:Description/></ex:p></rdf:Description>`, nil, set("parseType ID")},
		{"attribute of rdf:RDF", ``, nil, nil},
		{"attribute beside parseType", `<rdf:Description><ex:p rdf:parseType="Resource" rdf:%s="v"/></rdf:Description>`, nil, set("parseType ID")},
		{"attribute beside parseType Literal", `<rdf:Description><ex:p rdf:parseType="Literal" rdf:%s="v"/></rdf:Description>`, nil, set("parseType ID")},
	}
	ns := fmt.Sprintf(` xmlns:rdf=%q xmlns:ex=%q`, string(RDF), vEx)
	for _, pl := range places {
		for _, term := range terms {
			if pl.skip[term] {
				continue
			}
			text := "<rdf:RDF" + ns + ">" + fmt.Sprintf(pl.format, term) + "</rdf:RDF>"
			if pl.format == "" {
				text = "<rdf:RDF" + ns + " rdf:" + term + `="v"/>`
			}
			vCase("D03", text)
			bad := pl.bad == nil || pl.bad[term]
			_, err, msg := vParse(text, "http://doc.example/f")
			if msg != "" || (err != nil) != bad {
				vFail(t, "D03", "terms", text, fmt.Sprintf("rdf:%s as %s: %v %s", term, pl.name, err, msg))
			}
		}
	}
	for _, pair := range [][2]string{{"about", "ID"}, {"about", "nodeID"}, {"ID", "nodeID"}} {
		text := fmt.Sprintf(`<rdf:RDF%s><rdf:Description rdf:%s="v" rdf:%s="w"/></rdf:RDF>`, ns, pair[0], pair[1])
		vCase("D03", text)
		if _, err, msg := vParse(text, "http://doc.example/f"); err == nil || msg != "" {
			vFail(t, "D03", "names", text, "accepted "+msg)
		}
	}
	for _, pair := range [][2]string{{"resource", "nodeID"}, {"resource", "datatype"}} {
		text := fmt.Sprintf(`<rdf:RDF%s><rdf:Description><ex:p rdf:%s="v" rdf:%s="w"/></rdf:Description></rdf:RDF>`, ns, pair[0], pair[1])
		vCase("D03", text)
		if _, err, msg := vParse(text, "http://doc.example/f"); err == nil || msg != "" {
			vFail(t, "D03", "names", text, "accepted "+msg)
		}
	}
	vDone("D03")
}
