package iri

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"
	"unicode/utf8"
)

// vIRI holds the components of an IRI reference; has* tell which are present.
type vIRI struct {
	scheme   string
	hasAuth  bool
	user     string // with the @
	host     string
	port     string // with the :
	path     string
	hasQuery bool
	query    string
	hasFrag  bool
	frag     string
}

func (v vIRI) text() string {
	s := ""
	if v.scheme != "" {
		s += v.scheme + ":"
	}
	if v.hasAuth {
		s += "//" + v.user + v.host + v.port
	}
	s += v.path
	if v.hasQuery {
		s += "?" + v.query
	}
	if v.hasFrag {
		s += "#" + v.frag
	}
	return s
}

func vOne(r *rand.Rand, xs ...string) string { return xs[r.Intn(len(xs))] }

func vSegments(r *rand.Rand, dots bool) string {
	var segs []string
	for n := r.Intn(6); n >= 0; n-- {
		if dots && r.Intn(2) == 0 {
			segs = append(segs, vOne(r, ".", "..", ".", "..", "", "...", ".a", "..b"))
		} else {
			segs = append(segs, vOne(r, "a", "b", "c", "é", "%20", "x;y=1", "~", "b@c", "%E1%BF%AC", "", "世"))
		}
	}
	return strings.Join(segs, "/")
}

// vGen generates a valid IRI reference.
func vGen(r *rand.Rand, absolute, dots bool) vIRI {
	for {
		v := vIRI{}
		if absolute || r.Intn(4) == 0 {
			v.scheme = vOne(r, "http", "urn", "a", "x-y+z.1")
		}
		if r.Intn(3) > 0 && absolute || r.Intn(5) == 0 {
			v.hasAuth = true
			if r.Intn(6) > 0 {
				v.host = vOne(r, "h", "example.com", "é.org", "127.0.0.1", "[v1.x:y]", "%41b", "[0001:0002:0003:0004:0005:0006:0007:0008]")
			}
			v.user = vOne(r, "", "", "u@", "u:p@", "@", ":@", "é%20@")
			v.port = vOne(r, "", "", ":80", ":", ":0", ":99999")
		}
		if r.Intn(5) > 0 {
			v.path = vSegments(r, dots)
			if r.Intn(2) == 0 || v.hasAuth {
				v.path = "/" + v.path
			} else if v.scheme != "" && r.Intn(4) == 0 {
				v.path = "c:d/" + v.path
			}
		}
		if r.Intn(3) == 0 {
			v.hasQuery, v.query = true, vOne(r, "", "q", "a=1&b=/../?x", "?", "/./", "\U000F0001\uE000", "%C3%A9")
		}
		if r.Intn(3) == 0 {
			v.hasFrag, v.frag = true, vOne(r, "", "f", "a/../b?c", "é%2F", "/./")
		}
		if strings.HasPrefix(v.path, "//") && !v.hasAuth {
			continue // would be read as an authority
		}
		if v.scheme == "" && !v.hasAuth && strings.Contains(strings.SplitN(v.path, "/", 2)[0], ":") {
			continue
		}
		return v
	}
}

// vRemoveDots is RFC 3986, section 5.2.4, on the list of segments.
func vRemoveDots(p string) string {
	if p == "" {
		return ""
	}
	abs := p[0] == '/'
	segs := strings.Split(p, "/")
	if abs {
		segs = segs[1:]
	} else {
		// leading dot segments of a rootless path disappear
		for len(segs) > 0 && (segs[0] == "." || segs[0] == "..") {
			segs = segs[1:]
		}
	}
	// out holds segments; in a rootless path the first has no slash before it
	var out []string
	trail := false
	for i, s := range segs {
		trail = false
		switch s {
		case ".":
			trail = true
		case "..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
			if len(out) == 0 {
				abs = abs || i > 0 // what follows is written with its slash
			}
			trail = true
		default:
			out = append(out, s)
		}
	}
	if trail {
		out = append(out, "")
	}
	if len(segs) == 0 {
		return ""
	}
	res := strings.Join(out, "/")
	if abs {
		res = "/" + res
	}
	return res
}

func vResolve(b, r vIRI) vIRI {
	t := vIRI{hasFrag: r.hasFrag, frag: r.frag, scheme: b.scheme}
	switch {
	case r.scheme != "":
		t = r
		t.path = vRemoveDots(r.path)
		return t
	case r.hasAuth:
		t.hasAuth, t.user, t.host, t.port = true, r.user, r.host, r.port
		t.path, t.hasQuery, t.query = vRemoveDots(r.path), r.hasQuery, r.query
		return t
	}
	t.hasAuth, t.user, t.host, t.port = b.hasAuth, b.user, b.host, b.port
	switch {
	case r.path == "":
		t.path = vRemoveDots(b.path)
		if r.hasQuery {
			t.hasQuery, t.query = true, r.query
		} else {
			t.hasQuery, t.query = b.hasQuery, b.query
			if !r.hasFrag { // the empty reference is the base itself
				t.hasFrag, t.frag = b.hasFrag, b.frag
			}
		}
		return t
	case r.path[0] == '/':
		t.path = vRemoveDots(r.path)
	case b.hasAuth && b.path == "":
		t.path = vRemoveDots("/" + r.path)
	default:
		t.path = vRemoveDots(b.path[:strings.LastIndex(b.path, "/")+1] + r.path)
	}
	t.hasQuery, t.query = r.hasQuery, r.query
	return t
}

func vCheckResolve(t *testing.T, base, ref, want string) {
	in := fmt.Sprintf("base %q reference %q", base, ref)
	vCase("I01", in)
	if msg := vTry(func() {
		if got := string(IRI(base).ResolveReference(IRI(ref))); got != want {
			vFail(t, "I01", "target", in, fmt.Sprintf("got %q, want %q", got, want))
		}
	}); msg != "" {
		vFail(t, "I01", "panic", in, msg)
	}
}

func TestVerif_I01_resolve(t *testing.T) {
	// RFC 3986, section 5.4
	for ref, want := range map[string]string{
		"g:h": "g:h", "g": "http://a/b/c/g", "./g": "http://a/b/c/g", "g/": "http://a/b/c/g/", "/g": "http://a/g", "//g": "http://g", "?y": "http://a/b/c/d;p?y",
		"g?y": "http://a/b/c/g?y", "#s": "http://a/b/c/d;p?q#s", "g#s": "http://a/b/c/g#s", "g?y#s": "http://a/b/c/g?y#s", ";x": "http://a/b/c/;x", "g;x": "http://a/b/c/g;x",
		"g;x?y#s": "http://a/b/c/g;x?y#s", "": "http://a/b/c/d;p?q", ".": "http://a/b/c/", "./": "http://a/b/c/", "..": "http://a/b/", "../": "http://a/b/", "../g": "http://a/b/g",
		"../..": "http://a/", "../../": "http://a/", "../../g": "http://a/g", "../../../g": "http://a/g", "../../../../g": "http://a/g", "/./g": "http://a/g", "/../g": "http://a/g",
		"g.": "http://a/b/c/g.", ".g": "http://a/b/c/.g", "g..": "http://a/b/c/g..", "..g": "http://a/b/c/..g", "./../g": "http://a/b/g", "./g/.": "http://a/b/c/g/", "g/./h": "http://a/b/c/g/h",
		"g/../h": "http://a/b/c/h", "g;x=1/./y": "http://a/b/c/g;x=1/y", "g;x=1/../y": "http://a/b/c/y", "g?y/./x": "http://a/b/c/g?y/./x", "g?y/../x": "http://a/b/c/g?y/../x",
		"g#s/./x": "http://a/b/c/g#s/./x", "g#s/../x": "http://a/b/c/g#s/../x", "http:g": "http:g",
	} {
		vCheckResolve(t, "http://a/b/c/d;p?q", ref, want)
	}
	r := vRand(921)
	for i := 0; i < vScale(20000); i++ {
		b, ref := vGen(r, true, r.Intn(3) == 0), vGen(r, false, r.Intn(2) == 0)
		vCheckResolve(t, b.text(), ref.text(), vResolve(b, ref).text())
	}
	// an absolute reference without dot segments resolves to itself
	for i := 0; i < vScale(2000); i++ {
		b, ref := vGen(r, true, true), vGen(r, true, false)
		vCheckResolve(t, b.text(), ref.text(), ref.text())
	}
	// text of any kind: no crash
	al := []string{":", "/", "?", "#", "a", "..", ".", "@", "[", "]", "%", "\n", "\xff", "é"}
	for i := 0; i < vScale(3000); i++ {
		mk := func() string {
			s := ""
			for n := r.Intn(8); n > 0; n-- {
				s += al[r.Intn(len(al))]
			}
			return s
		}
		b, ref := mk(), mk()
		in := fmt.Sprintf("base %q reference %q", b, ref)
		vCase("I01", in)
		if msg := vTry(func() { IRI(b).ResolveReference(IRI(ref)) }); msg != "" {
			vFail(t, "I01", "panic", in, msg)
		}
	}
	vDone("I01")
}

func TestVerif_I02_split(t *testing.T) {
	r := vRand(931)
	for i := 0; i < vScale(10000); i++ {
		v := vGen(r, r.Intn(2) == 0, r.Intn(2) == 0)
		s := v.text()
		vCase("I02", s)
		if msg := vTry(func() {
			got, err := Parse(s)
			if err != nil || string(got) != s {
				vFail(t, "I02", "parse", s, fmt.Sprintf("Parse gave %q, %v", string(got), err))
			}
			p := IRI(s).parts()
			if back := string(p.toIRI()); back != s {
				vFail(t, "I02", "recompose", s, fmt.Sprintf("recomposed as %q", back))
			}
			q := p.Query()
			frag, hasFrag := p.Fragment()
			if p.Scheme() != v.scheme || p.HasAuthority() != v.hasAuth || strings.TrimSuffix(p.User(), "@") != strings.TrimSuffix(v.user, "@") || p.Host() != v.host ||
				strings.TrimPrefix(p.Port(), ":") != strings.TrimPrefix(v.port, ":") || p.Path() != v.path || (q != nil) != v.hasQuery || q != nil && *q != v.query || hasFrag != v.hasFrag || frag != v.frag {
				vFail(t, "I02", "components", s, partsDescription(p))
			}
		}); msg != "" {
			vFail(t, "I02", "panic", s, msg)
		}
	}
	vDone("I02")
}

func TestVerif_I02_reject(t *testing.T) {
	reject := func(s string) {
		vCase("I02", s)
		if got, err := Parse(s); err == nil {
			vFail(t, "I02", "accepts", s, fmt.Sprintf("accepted as %q", string(got)))
		}
	}
	for _, s := range []string{
		" ", "a b", "http://h/ ", "%", "%4", "%zz", "http://h/%", "http://h/%4", "http://h/%4g", "a#b#c", "1a:b", ":a", ":", "::", "é:b", "a_b:c", "+a:b",
		"http://a b/", "http://h:port/", "http://h:8a/", "http://[::g]/", "http://[h/", "http://h]/", "http://a@b@c/", "http://h/[x]", "#[", "?[x]", "#a\nb c", "#a\n", "\n", "a\n", "http://h/?a\nb",
		"http://h/\uE000", "http://h/#\uE000", "\uFFFD", "http://h/\xff", "http://h/#\xff", "http://h/%B5", "http://h/%20%b5", "http://h/%C3", "http://h/?%C3x%A9", "http://h/#%ED%A0%80", "%80:",
	} {
		reject(s)
	}
	r := vRand(932)
	for i := 0; i < vScale(4000); i++ {
		s := vGen(r, r.Intn(2) == 0, false).text()
		bad := vOne(r, " ", "<", ">", `"`, "{", "}", "|", "\\", "^", "`", "\n", "\r", "\t", "\x00", "\x7f", "\x80", "\u0085", "\uFDD0", "\uFFFE")
		k := r.Intn(len(s) + 1)
		for k < len(s) && !utf8.RuneStart(s[k]) {
			k++
		}
		reject(s[:k] + bad + s[k:])
	}
	vDone("I02")
}

func vUnreserved(c rune) bool {
	if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("-._~", c) {
		return true
	}
	if c >= 0xA0 && c <= 0xD7FF || c >= 0xF900 && c <= 0xFDCF || c >= 0xFDF0 && c <= 0xFFEF || c >= 0xE1000 && c <= 0xEFFFD {
		return true
	}
	return c >= 0x10000 && c < 0xE0000 && c&0xFFFF <= 0xFFFD
}

func TestVerif_I02_percent(t *testing.T) {
	r := vRand(933)
	runes := []rune{'a', 'Z', '5', '-', '~', '_', '.', ' ', '/', '?', '#', '%', ':', '@', '!', '\n', 0, 0x7f, 0x80, 0x9f, 0xA0, 0xE9, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xF8FF, 0xF900, 0xFDCF, 0xFDD0, 0xFDEF, 0xFDF0, 0xFFEF, 0xFFF0, 0xFFFD,
		0xFFFE, 0x10000, 0x1FFFD, 0x1FFFE, 0x20000, 0xDFFFD, 0xDFFFF, 0xE0000, 0xE0FFF, 0xE1000, 0xEFFFD, 0xEFFFE, 0xF0000, 0x10FFFF}
	enc := func(b byte) string {
		f := "%%%02X"
		if r.Intn(2) == 0 {
			f = "%%%02x"
		}
		return fmt.Sprintf(f, b)
	}
	for i := 0; i < vScale(8000); i++ {
		in, want := "http://h/", "http://h/"
		for n := r.Intn(8); n >= 0; n-- {
			switch r.Intn(4) {
			case 0:
				s := vOne(r, "a", "é", "/", "~", "41", "世", "C3", "!")
				in += s
				want += s
			default:
				c := runes[r.Intn(len(runes))]
				if r.Intn(3) == 0 {
					c = rune(r.Intn(0x10FFFF))
					if !utf8.ValidRune(c) {
						c = 'x'
					}
				}
				for _, b := range []byte(string(c)) {
					in += enc(b)
					if !vUnreserved(c) {
						want += fmt.Sprintf("%%%02X", b)
					}
				}
				if vUnreserved(c) {
					want += string(c)
				}
			}
		}
		vCase("I02", in)
		if msg := vTry(func() {
			got := IRI(in).NormalizePercentEncoding()
			if string(got) != want {
				vFail(t, "I02", "normalize", in, fmt.Sprintf("got %q, want %q", string(got), want))
			}
			if again := got.NormalizePercentEncoding(); again != got {
				vFail(t, "I02", "idempotent", in, fmt.Sprintf("%q, then %q", string(got), string(again)))
			}
			if _, err := Parse(in); err != nil {
				vFail(t, "I02", "parse", in, err.Error())
			}
		}); msg != "" {
			vFail(t, "I02", "panic", in, msg)
		}
	}
	vDone("I02")
}
