package sexpr

import (
	"fmt"
	"go/constant"
	"go/token"
	"io"
	"math"
	"math/rand"
	"strconv"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/google/xtoproto/sexpr/form"
)

func vOne(r *rand.Rand, xs ...string) string { return xs[r.Intn(len(xs))] }

func vSrcText(r *rand.Rand) string {
	var b strings.Builder
	for n := r.Intn(14); n > 0; n-- {
		b.WriteString(vOne(r, "a", "\n", "\n", "é", "世", " ", "\r", "\U0001F600", "\t", "xyz", "\xff"))
	}
	return b.String()
}

// The row and column of every offset of a text.
func vRowCols(text string) []rowCol {
	var out []rowCol
	row, col := 0, 0
	for _, c := range []rune(text) {
		out = append(out, rowCol{lineNumber(row), columnNumber(col)})
		if c == '\n' {
			row, col = row+1, 0
		} else {
			col++
		}
	}
	return append(out, rowCol{lineNumber(row), columnNumber(col)})
}

func TestVerif_S01(t *testing.T) {
	const prop = "S01"
	defer vDone(prop)
	r := vRand(1)
	for i := 0; i < vScale(4000); i++ {
		text := vSrcText(r)
		vCase(prop, fmt.Sprintf("text %q", text))
		in := ""
		if p := vTry(func() {
			sf := newStrSourceFile("f", text)
			all := vRowCols(text)
			back := map[rowCol]int{}
			for o, rc := range all {
				back[rc] = o
			}
			for o := -3; o < len(all)+3; o++ {
				in = fmt.Sprintf("text %q offset %d", text, o)
				got, want := sf.offsetToRowCol(cursorOffset(o)), invalidRowCol()
				if o >= 0 && o < len(all) {
					want = all[o]
				}
				if got != want {
					vFail(t, prop, "row-col", in, fmt.Sprintf("row %d col %d, want %d, %d", got.row, got.col, want.row, want.col))
				}
			}
			rows := []int{-1 << 63, -2, math.MaxInt64}
			for k := -1; k < strings.Count(text, "\n")+3; k++ {
				rows = append(rows, k)
			}
			for _, row := range rows {
				for _, col := range []int{-1 << 63, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 8, 30, math.MaxInt64} {
					rc := rowCol{lineNumber(row), columnNumber(col)}
					in = fmt.Sprintf("text %q row %d col %d", text, row, col)
					want, ok := back[rc]
					if !ok {
						want = invalidCursorOffset
					}
					if got := sf.rowColToOffset(rc); got.int() != want {
						vFail(t, prop, "offset", in, fmt.Sprintf("offset %d, want %d", got, want))
					}
				}
			}
		}); p != "" {
			vFail(t, prop, "panic", in, p)
		}
	}
}

// vNode is a form that was written into a text.
type vNode struct {
	kind       string // symbol, string, number, list
	text       string // of the symbol, value of the string
	num        constant.Value
	sub        []*vNode
	start, end int // in runes
}

// vPiece is a comment or white space that was written.
type vPiece struct {
	comment    bool
	text       string
	start, end int
}

type vWriter struct {
	r      *rand.Rand
	runes  []rune
	pieces []vPiece
	atom   bool // the text ends with a symbol or number
	line   bool // the text ends in a line comment
}

func (w *vWriter) put(s string) { w.runes = append(w.runes, []rune(s)...) }

func (w *vWriter) sep(needed bool) {
	r := w.r
	n := r.Intn(3)
	if needed && n == 0 {
		n = 1
	}
	for i := 0; i < n || w.line; i++ {
		start := len(w.runes)
		if w.line || r.Intn(3) > 0 {
			s := vOne(r, " ", "\n", "\t", "  \n ")
			if w.line {
				s = "\n" + vOne(r, "", s)
			}
			w.put(s)
			if k := len(w.pieces); k > 0 && !w.pieces[k-1].comment && w.pieces[k-1].end == start {
				w.pieces[k-1].end += len(s)
				w.pieces[k-1].text += s
			} else {
				w.pieces = append(w.pieces, vPiece{false, s, start, len(w.runes)})
			}
			w.line = false
			w.atom = false
			continue
		}
		if w.atom && len(w.runes) > 0 && w.runes[len(w.runes)-1] == '/' {
			// the comment would begin earlier
			w.put(" ")
			w.pieces = append(w.pieces, vPiece{false, " ", start, len(w.runes)})
			start = len(w.runes)
		}
		w.atom = false
		var s string
		if r.Intn(2) == 0 {
			s = "//" + vOne(r, "", " a", "/", "* )", " \"x", "( é", "世 */")
			w.line = true
		} else {
			body := vOne(r, "", "*", "**", " a ", "\n", " ( ", "\"", "/", "//", " * ", "***x*", "* /", "é\n*", "/*")
			s = "/*" + body + "*/"
		}
		w.put(s)
		w.pieces = append(w.pieces, vPiece{true, s, start, len(w.runes)})
	}
}

func vSymbol(r *rand.Rand) string {
	s := vOne(r, "a", "foo", "é", "世", "+", "-", "*", "=", "<", "inf", "nan", "NaN", "Infinity", "+Inf", "-inf", "infinity", "x", "e5", "_1", "-a", "#t", ":k", "?", "a'b", "`q", ",x", "\\", ".", "...", "[", "{}", "*a*")
	for n := r.Intn(4); n > 0; n-- {
		s += vOne(r, "a", "/b", "*", "'", "1", "-", "é", "e", "\\", ";", "#", "/")
	}
	// no comment inside of a symbol, and no number
	s = strings.ReplaceAll(strings.ReplaceAll(s, "//", "/"), "/*", "/")
	s = strings.ReplaceAll(strings.ReplaceAll(s, "//", "/"), "/*", "/")
	t := strings.TrimLeft(s, "+-")
	if t != "" && (t[0] == '.' && len(t) > 1 && t[1] >= '0' && t[1] <= '9' || t[0] >= '0' && t[0] <= '9') {
		return "z" + s
	}
	if r.Intn(30) == 0 {
		return vOne(r, "/", "/a", "/a/b", "a/")
	}
	return s
}

func vNumber(r *rand.Rand) (string, constant.Value) {
	switch r.Intn(6) {
	case 0:
		v := r.Uint64() >> uint(r.Intn(64))
		return vOne(r, fmt.Sprintf("%d", v), fmt.Sprintf("0x%x", v), fmt.Sprintf("0b%b", v), fmt.Sprintf("0o%o", v), fmt.Sprintf("0X%X", v)), constant.MakeUint64(v)
	case 1:
		v := -int64(r.Uint64() >> uint(1+r.Intn(62)))
		if v == 0 {
			v = -1
		}
		return fmt.Sprintf("%d", v), constant.MakeInt64(v)
	case 2:
		v := int64(r.Uint64() >> uint(1+r.Intn(62)))
		return fmt.Sprintf("+%d", v), constant.MakeInt64(v)
	case 3:
		s := vOne(r, "9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551615", "0", "007", "0x0")
		if s == "007" {
			return s, constant.MakeInt64(7)
		}
		if s == "0x0" {
			return s, constant.MakeInt64(0)
		}
		return s, vSigned(s)
	default:
		f := math.Ldexp(r.Float64()-0.5, r.Intn(200)-100)
		if r.Intn(3) == 0 {
			f = float64(r.Intn(100)) / 8
		}
		s := strconv.FormatFloat(f, vOne(r, "e", "f", "E")[0], -1, 64)
		if !strings.ContainsAny(s, ".eE") {
			s += ".0"
		}
		g, _ := strconv.ParseFloat(s, 64)
		return s, constant.MakeFloat64(g)
	}
}

func vStringText(r *rand.Rand) (text, value string) {
	var b, v strings.Builder
	b.WriteByte('"')
	for n := r.Intn(6); n > 0; n-- {
		switch r.Intn(5) {
		case 0:
			b.WriteString(`\\`)
			v.WriteByte('\\')
		case 1:
			b.WriteString(`\"`)
			v.WriteByte('"')
		case 2:
			c := vOne(r, "\n", " ", "a", "(", ")", "'", "/", "//", "/*", "é", "\t", "*", ";")
			b.WriteString(c)
			v.WriteString(c)
		default:
			var c rune
			for {
				c = rune(r.Intn(0x300))
				if r.Intn(4) == 0 {
					c = rune(r.Intn(0x110000))
				}
				if utf8.ValidRune(c) {
					break
				}
			}
			q := strconv.Quote(string(c))
			b.WriteString(q[1 : len(q)-1])
			v.WriteRune(c)
		}
	}
	b.WriteByte('"')
	return b.String(), v.String()
}

func (w *vWriter) form(depth int) *vNode {
	r := w.r
	n := &vNode{}
	k := r.Intn(8)
	if depth <= 0 && k >= 5 {
		k = r.Intn(5)
	}
	w.sep(w.atom && k != 3 && k != 5 && k != 6)
	n.start = len(w.runes)
	switch k {
	case 0, 1:
		n.kind, n.text = "symbol", vSymbol(r)
		if w.atom {
			panic("bad generator")
		}
		w.put(n.text)
		w.atom = true
	case 2, 4:
		n.kind = "number"
		n.text, n.num = vNumber(r)
		w.put(n.text)
		w.atom = true
	case 3:
		n.kind = "string"
		var lit string
		lit, n.text = vStringText(r)
		w.put(lit)
		w.atom = false
	case 5, 6:
		n.kind = "list"
		w.put("(")
		w.atom = false
		for m := r.Intn(4); m > 0; m-- {
			n.sub = append(n.sub, w.form(depth-1))
		}
		w.sep(false)
		w.put(")")
		w.atom = false
	case 7:
		n.kind = "list"
		w.put("'")
		w.atom = false
		q := &vNode{kind: "symbol", text: "QUOTE", start: n.start, end: n.start + 1}
		n.sub = []*vNode{q, w.form(depth - 1)}
	}
	n.end = len(w.runes)
	return n
}

func vSpan(all []rowCol, s, e int) string {
	a, b := all[s], all[e]
	if a.row == b.row {
		return fmt.Sprintf("f:%d:%d-%d", a.row+1, a.col+1, b.col+1)
	}
	return fmt.Sprintf("f:%d:%d-%d:%d", a.row+1, a.col+1, b.row+1, b.col+1)
}

// vSame compares a form with what was written; the answer is empty or says
// what differs.
func vSame(f Form, n *vNode, all []rowCol, spans bool) string {
	if f == nil {
		return "no form"
	}
	if spans {
		if got, want := f.SourcePosition().String(), vSpan(all, n.start, n.end); got != want {
			return fmt.Sprintf("extent of %s %q is %s, want %s", n.kind, n.text, got, want)
		}
	}
	switch n.kind {
	case "symbol":
		s, ok := f.(form.Symbol)
		if !ok || s.SymbolLiteral() != n.text {
			return fmt.Sprintf("%T %+v, want symbol %q", f, f, n.text)
		}
	case "string":
		s, ok := f.(form.String)
		if !ok || s.StringValue() != n.text || s.Value() != interface{}(n.text) {
			return fmt.Sprintf("%T %+v, want string %q", f, f, n.text)
		}
	case "number":
		s, ok := f.(form.Number)
		if !ok || s.Number().Kind() != n.num.Kind() || !constant.Compare(s.Number(), token.EQL, n.num) {
			return fmt.Sprintf("%T %+v, want number %s = %v", f, f, n.text, n.num)
		}
	case "list":
		l, ok := f.(form.List)
		if !ok || l.Len() != len(n.sub) || len(form.Subforms(l)) != len(n.sub) {
			return fmt.Sprintf("%T %+v, want list of %d", f, f, len(n.sub))
		}
		for i, m := range n.sub {
			if d := vSame(l.Nth(i), m, all, spans); d != "" {
				return d
			}
		}
	}
	return ""
}

// vRecorder is a form factory that records comments and white space.
type vRecorder struct {
	FormFactory
	got []string
}

func (v *vRecorder) NewCommentForm(value string, span SourceSpan) (CommentForm, error) {
	v.got = append(v.got, "comment "+value+" "+span.String())
	return v.FormFactory.NewCommentForm(value, span)
}

func (v *vRecorder) NewWhitespaceForm(value string, span SourceSpan) (WhitespaceForm, error) {
	v.got = append(v.got, "space "+value+" "+span.String())
	return v.FormFactory.NewWhitespaceForm(value, span)
}

func vProgram(r *rand.Rand) (*vWriter, []*vNode) {
	w := &vWriter{r: r}
	var want []*vNode
	for n := r.Intn(4); n > 0; n-- {
		want = append(want, w.form(3))
	}
	w.sep(false)
	return w, want
}

func vReadBack(t *testing.T, prop string, spans bool) {
	defer vDone(prop)
	r := vRand(2)
	for i := 0; i < vScale(12000); i++ {
		w, want := vProgram(r)
		text := string(w.runes)
		in := fmt.Sprintf("text %q", text)
		vCase(prop, in)
		if p := vTry(func() {
			rec := &vRecorder{}
			fr := NewFileReader("f", text, CustomFormFactory(func(fr *FormReader) FormFactory {
				rec.FormFactory = DefaultFormFactory(fr)
				return rec
			}))
			all := vRowCols(text)
			for k, n := range want {
				f, err := fr.ReadForm()
				if err != nil {
					vFail(t, prop, "rejected", in, fmt.Sprintf("form %d: %v", k, err))
					return
				}
				if d := vSame(f, n, all, spans); d != "" {
					vFail(t, prop, "form", in, fmt.Sprintf("form %d: %s", k, d))
					return
				}
			}
			if f, err := fr.ReadForm(); err != io.EOF {
				vFail(t, prop, "more", in, fmt.Sprintf("after the last form: %v, %v", f, err))
			}
			if spans {
				var ws []string
				for _, p := range w.pieces {
					ws = append(ws, map[bool]string{true: "comment ", false: "space "}[p.comment]+p.text+" "+vSpan(all, p.start, p.end))
				}
				if fmt.Sprint(ws) != fmt.Sprint(rec.got) {
					vFail(t, prop, "pieces", in, fmt.Sprintf("comments and white space %q, want %q", rec.got, ws))
				}
			}
		}); p != "" {
			vFail(t, prop, "panic", in, p)
		}
	}
}

func TestVerif_S01_extents(t *testing.T) { vReadBack(t, "S01", true) }

func TestVerif_S02(t *testing.T) { vReadBack(t, "S02", false) }

// Texts that end too early or have a parenthesis too many.
func TestVerif_S02_errors(t *testing.T) {
	const prop = "S02"
	defer vDone(prop)
	r := vRand(3)
	for i := 0; i < vScale(6000); i++ {
		w, want := vProgram(r)
		if w.line {
			w.put("\n")
		}
		text := string(w.runes)
		if w.atom {
			text += " "
		}
		w2, want2 := vProgram(r)
		inner := string(w2.runes)
		if w2.line {
			inner += "\n"
		}
		_, _ = want2, w2
		bad := vOne(r, "("+inner, "(("+inner+")", ")", ") "+inner, "\"abc", "\"abc\\\"", "\"\\\\\\\"", "\"a\nb", "/*", "/* a", "/*/", "/* ** /", "/***", "'", "' ", "'/*a*/", "('", "(a ')", "(\"", "(/*)", "'(", "(//)")
		text += bad
		in := fmt.Sprintf("text %q", text)
		vCase(prop, in)
		if p := vTry(func() {
			fr := NewFileReader("f", text)
			for k, n := range want {
				f, err := fr.ReadForm()
				if err != nil {
					vFail(t, prop, "rejected-before", in, fmt.Sprintf("form %d: %v", k, err))
					return
				}
				if d := vSame(f, n, nil, false); d != "" {
					vFail(t, prop, "form-before", in, fmt.Sprintf("form %d: %s", k, d))
					return
				}
			}
			if f, err := fr.ReadForm(); err == nil || err == io.EOF {
				vFail(t, prop, "accepted", in, fmt.Sprintf("%q gave %v, %v", bad, f, err))
			}
		}); p != "" {
			vFail(t, prop, "panic", in, p)
		}
	}
}

func vSigned(s string) constant.Value {
	v := constant.MakeFromLiteral(strings.TrimPrefix(s, "-"), token.INT, 0)
	if s[0] == '-' {
		v = constant.UnaryOp(token.SUB, v, 0)
	}
	return v
}
