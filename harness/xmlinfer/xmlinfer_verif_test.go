package xmlinfer

import (
	"encoding/xml"
	"fmt"
	"io"
	"math/rand"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/golang/protobuf/protoc-gen-go/descriptor"
	"github.com/jhump/protoreflect/desc"
	"github.com/jhump/protoreflect/desc/protoparse"
)

// vElem is what the examples say about the elements of one path.
type vElem struct {
	name  string
	count int
	attrs map[string][]string
	texts []string
	kids  map[string]*vElem
	cards map[string]map[int]int // of the children
}

func vNewElem(name string) *vElem {
	return &vElem{name: name, attrs: map[string][]string{}, kids: map[string]*vElem{}, cards: map[string]map[int]int{}}
}

func vText(r *rand.Rand, kind int) string {
	switch kind {
	case 0:
		return fmt.Sprint(r.Int63()>>uint(r.Intn(63)) - 5)
	case 1:
		return strconv.FormatFloat(r.NormFloat64()*100, 'g', -1, 64)
	case 2:
		return []string{"9223372036854775807", "9223372036854775808", "-9223372036854775808", "007", "1e5", "NaN", "1.", "+3", "0x1F", "1_0", "1e400"}[r.Intn(11)]
	case 3:
		return []string{"", " ", "true", "x", "a b", " 5", "5 ", "ünï", "1,000"}[r.Intn(9)]
	}
	return string('a' + rune(r.Intn(7)))
}

// vGen writes an element of a path and records it.
func vGen(r *rand.Rand, e *vElem, kinds map[string]int, path string, depth int, b *strings.Builder) {
	e.count++
	path += "/" + e.name
	kind := func(p string) int {
		if _, ok := kinds[p]; !ok {
			kinds[p] = r.Intn(5)
		}
		k := kinds[p]
		if r.Intn(12) == 0 {
			k = r.Intn(5)
		}
		return k
	}
	fmt.Fprintf(b, "<%s", e.name)
	for _, a := range []string{"aone", "atwo", "athree"} {
		if kind(path+"@"+a) < 2 && r.Intn(3) != 0 {
			v := vText(r, kind(path+"@="+a))
			e.attrs[a] = append(e.attrs[a], v)
			fmt.Fprintf(b, " %s=%q", a, v)
		}
	}
	b.WriteString(">")
	text := ""
	say := func(s string) {
		text += s
		b.WriteString(s)
	}
	if kind(path+"#") < 4 {
		say(vText(r, kind(path+"#=")))
	}
	if depth > 0 && kind(path+"!") < 3 {
		cards := map[string]int{}
		names := []string{"kone", "ktwo", "kthree", e.name}
		for i := r.Intn(4); i > 0; i-- {
			n := names[r.Intn(len(names))]
			if n == e.name && r.Intn(3) != 0 {
				n = names[0]
			}
			kid := e.kids[n]
			if kid == nil {
				kid = vNewElem(n)
				e.kids[n] = kid
			}
			cards[n]++
			vGen(r, kid, kinds, path, depth-1, b)
			switch r.Intn(6) {
			case 0:
				say("\n ")
			case 1:
				b.WriteString("<!-- 17 -->")
			case 2:
				b.WriteString("<?pi data?>")
			case 3:
				say("7")
			}
		}
		for n, c := range cards {
			if e.cards[n] == nil {
				e.cards[n] = map[int]int{}
			}
			e.cards[n][c]++
		}
	}
	e.texts = append(e.texts, text)
	fmt.Fprintf(b, "</%s>", e.name)
}

func vTypeOf(texts []string) descriptor.FieldDescriptorProto_Type {
	ints, floats := true, true
	for _, s := range texts {
		_, err := strconv.ParseInt(s, 10, 64)
		ints = ints && err == nil
		_, err = strconv.ParseFloat(s, 64)
		floats = floats && err == nil
	}
	switch {
	case ints:
		return descriptor.FieldDescriptorProto_TYPE_INT64
	case floats:
		return descriptor.FieldDescriptorProto_TYPE_DOUBLE
	}
	return descriptor.FieldDescriptorProto_TYPE_STRING
}

var vIntro = regexp.MustCompile(`inferred type from (\d+) examples, (\d+) unique values \(showing first (\d+)\):`)
var vBased = regexp.MustCompile(`based on (\d+) examples`)

func vCounts(comment string, texts []string) string {
	counts := map[string]int{}
	for _, s := range texts {
		counts[s]++
	}
	shown := len(counts)
	if shown > 5 {
		shown = 5
	}
	m := vIntro.FindStringSubmatch(comment)
	if m == nil || m[1] != fmt.Sprint(len(texts)) || m[2] != fmt.Sprint(len(counts)) || m[3] != fmt.Sprint(shown) {
		return fmt.Sprintf("the comment %q says other counts than %d examples and %d values", comment, len(texts), len(counts))
	}
	var all []int
	for s, c := range counts {
		if strings.Contains(comment, fmt.Sprintf(" - %q (", s)) && !strings.Contains(comment, fmt.Sprintf(" - %q (%d)", s, c)) {
			return fmt.Sprintf("the comment %q counts %q, which occurs %d times", comment, s, c)
		}
		all = append(all, c)
	}
	sort.Sort(sort.Reverse(sort.IntSlice(all)))
	for _, c := range all[:shown] {
		if !strings.Contains(comment, fmt.Sprintf(" (%d)", c)) {
			return fmt.Sprintf("the comment %q does not show a value that occurs %d times", comment, c)
		}
	}
	return ""
}

// vCheck compares the message of a path with what the examples say.
func vCheck(e *vElem, m *desc.MessageDescriptor) string {
	if len(m.GetFields()) != len(e.attrs)+len(e.kids) {
		return fmt.Sprintf("%s has %d fields for %d attributes and %d elements", m.GetName(), len(m.GetFields()), len(e.attrs), len(e.kids))
	}
	if c := vBased.FindStringSubmatch(m.GetSourceInfo().GetLeadingComments()); c == nil || c[1] != fmt.Sprint(e.count) {
		return fmt.Sprintf("%s says %q about %d examples", m.GetName(), m.GetSourceInfo().GetLeadingComments(), e.count)
	}
	for a, texts := range e.attrs {
		f := m.FindFieldByName(a)
		if f == nil || f.IsRepeated() || f.GetType() != vTypeOf(texts) {
			return fmt.Sprintf("attribute %s of %s with the values %q is %v", a, m.GetName(), texts, f)
		}
		if msg := vCounts(f.GetSourceInfo().GetLeadingComments(), texts); msg != "" {
			return msg
		}
	}
	for n, kid := range e.kids {
		f := m.FindFieldByName(n)
		if f == nil {
			return fmt.Sprintf("%s has no field for the element %s", m.GetName(), n)
		}
		repeated := false
		for c := range e.cards[n] {
			repeated = repeated || c > 1
		}
		if f.IsRepeated() != repeated {
			return fmt.Sprintf("element %s of %s occurs %v times and is repeated: %v", n, m.GetName(), e.cards[n], f.IsRepeated())
		}
		if len(kid.attrs)+len(kid.kids) == 0 {
			if f.GetType() != vTypeOf(kid.texts) {
				return fmt.Sprintf("element %s of %s with the texts %q is %v", n, m.GetName(), kid.texts, f.GetType())
			}
			if msg := vCounts(f.GetSourceInfo().GetLeadingComments(), kid.texts); msg != "" {
				return msg
			}
			continue
		}
		if f.GetMessageType() == nil {
			return fmt.Sprintf("element %s of %s is %v", n, m.GetName(), f.GetType())
		}
		if c := f.GetSourceInfo().GetLeadingComments(); !strings.Contains(c, fmt.Sprintf("Cardinalities in parent: %v.", e.cards[n])) {
			return fmt.Sprintf("element %s of %s occurs %v times, and the comment is %q", n, m.GetName(), e.cards[n], c)
		}
		if msg := vCheck(kid, f.GetMessageType()); msg != "" {
			return msg
		}
	}
	return ""
}

type vTokens struct{ docs []*xml.Decoder }

func (v *vTokens) Token() (xml.Token, error) {
	for len(v.docs) > 0 {
		t, err := v.docs[0].Token()
		if err != io.EOF {
			return t, err
		}
		v.docs = v.docs[1:]
	}
	return nil, io.EOF
}

func TestVerif_M01_infer(t *testing.T) {
	r := vRand(901)
	for i := 0; i < vScale(1500); i++ {
		roots := map[string]*vElem{}
		kinds := map[string]int{}
		toks := &vTokens{}
		in := ""
		for n := 1 + r.Intn(4); n > 0; n-- {
			name := []string{"rone", "rtwo"}[r.Intn(2)]
			if roots[name] == nil {
				roots[name] = vNewElem(name)
			}
			b := &strings.Builder{}
			vGen(r, roots[name], kinds, "", 1+r.Intn(4), b)
			in += b.String() + "\n"
			toks.docs = append(toks.docs, xml.NewDecoder(strings.NewReader(b.String())))
		}
		vCase("M01", in)
		var code string
		var err error
		msg := vTry(func() {
			var ir *InferResult
			if ir, err = Infer(toks); err == nil {
				code, err = ir.ProtoFile()
			}
		})
		if msg != "" || err != nil {
			vFail(t, "M01", "refused", in, fmt.Sprint(msg, err))
			continue
		}
		fds, err := protoparse.Parser{Accessor: protoparse.FileContentsFromMap(map[string]string{"o.proto": code}), IncludeSourceCodeInfo: true}.ParseFiles("o.proto")
		if err != nil {
			vFail(t, "M01", "parse", in, fmt.Sprint(err, code))
			continue
		}
		total := 0
		for name, e := range roots {
			m := fds[0].FindMessage(strings.ToUpper(name[:1]) + name[1:])
			if len(e.attrs)+len(e.kids) == 0 {
				if m != nil {
					vFail(t, "M01", "root", in, "a message for "+name)
				}
				continue
			}
			if m == nil {
				vFail(t, "M01", "root", in, "no message for "+name+":\n"+code)
				continue
			}
			if msg := vCheck(e, m); msg != "" {
				vFail(t, "M01", "inferred", in, msg+"\n"+code)
			}
			total += vMessages(e)
		}
		if got := len(fds[0].GetMessageTypes()); got != total {
			vFail(t, "M01", "messages", in, fmt.Sprintf("%d messages, expected %d", got, total))
		}
	}
	vDone("M01")
}

func vMessages(e *vElem) int {
	if len(e.attrs)+len(e.kids) == 0 {
		return 0
	}
	n := 1
	for _, k := range e.kids {
		n += vMessages(k)
	}
	return n
}

func TestVerif_M01_same_name(t *testing.T) {
	for _, in := range []string{`<r id="1"><id>2</id></r>`, `<r><a id="1" Id="x"/><a id="2"/></r>`, `<r><big-name/><bigName>1</bigName></r>`, `<r><a.b>1</a.b></r>`, `<r><_>1</_></r>`, `<_ x="1"/>`, `<é a="1" é="1"><_1 x="1"/></é>`, `<r><a.b>1</a.b><a-b>1</a-b></r>`, `<r><a-1>1</a-1><a1>2</a1><a-1 x="2"/></r>`} {
		vCase("M01", in)
		var code string
		var err error
		if msg := vTry(func() {
			var ir *InferResult
			if ir, err = Infer(xml.NewDecoder(strings.NewReader(in))); err == nil {
				code, err = ir.ProtoFile()
			}
		}); msg != "" {
			vFail(t, "M01", "same-name", in, msg)
			continue
		}
		if err != nil {
			continue
		}
		if _, err := (protoparse.Parser{Accessor: protoparse.FileContentsFromMap(map[string]string{"o.proto": code})}).ParseFiles("o.proto"); err != nil {
			vFail(t, "M01", "same-name", in, fmt.Sprint(err, code))
		}
	}
	vDone("M01")
}

func TestVerif_M01_broken(t *testing.T) {
	r := vRand(902)
	for i := 0; i < vScale(300); i++ {
		b := &strings.Builder{}
		vGen(r, vNewElem("rone"), map[string]int{}, "", 3, b)
		in := b.String()
		in = in[:1+r.Intn(len(in)-1)]
		vCase("M01", "cut "+in)
		var err error
		if msg := vTry(func() { _, err = Infer(xml.NewDecoder(strings.NewReader(in))) }); msg != "" || err == nil {
			vFail(t, "M01", "cut", in, fmt.Sprint("accepted or failed: ", msg))
		}
	}
	vDone("M01")
}
