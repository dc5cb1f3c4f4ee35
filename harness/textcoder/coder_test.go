package textcoder

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"testing"
)

// --- X02 -------------------------------------------------------------------

type vI8 int8
type vI16 int16
type vU8 uint8
type vU16 uint16
type vI64 int64
type vF32 float32
type vF64 float64
type vBool bool
type vStr string

func vDecode(t *testing.T, text string, ptr interface{}) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic %v", r)
			vFail(t, "X02", "panic", fmt.Sprintf("Unmarshal(%q, %T)", text, ptr), fmt.Sprint(r))
		}
	}()
	return Unmarshal(text, ptr)
}

func vSameValue(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Float32, reflect.Float64:
		x, y := a.Float(), b.Float()
		return math.Float64bits(x) == math.Float64bits(y) || math.IsNaN(x) && math.IsNaN(y)
	}
	return a.Interface() == b.Interface()
}

func vRoundTrip(t *testing.T, v interface{}) {
	in := fmt.Sprintf("%T(%#v)", v, v)
	vCase("X02", in)
	text, err := Marshal(v)
	if err != nil {
		vFail(t, "X02", "marshal", in, err.Error())
		return
	}
	dst := reflect.New(reflect.TypeOf(v))
	if err := vDecode(t, text, dst.Interface()); err != nil {
		vFail(t, "X02", "unmarshal", in+" text "+strconv.Quote(text), err.Error())
		return
	}
	if !vSameValue(dst.Elem(), reflect.ValueOf(v)) {
		vFail(t, "X02", "roundtrip", in+" text "+strconv.Quote(text), fmt.Sprintf("decoded as %#v", dst.Elem().Interface()))
	}
}

var vIntRE = regexp.MustCompile(`^[+-]?[0-9]+$`)

// vText decodes text into every basic type; what is accepted must denote
// exactly the value that comes out.
func vText(t *testing.T, text string) {
	for _, p := range []interface{}{new(int), new(int8), new(int16), new(int32), new(int64), new(uint), new(uint8), new(uint16), new(uint32), new(uint64),
		new(vI8), new(vI16), new(vU8), new(vU16), new(vI64)} {
		in := fmt.Sprintf("text %q into %T", text, p)
		vCase("X02", in)
		if vDecode(t, text, p) != nil {
			continue
		}
		if !vIntRE.MatchString(text) {
			vFail(t, "X02", "accepts", in, fmt.Sprintf("not an integer, decoded as %v", reflect.ValueOf(p).Elem()))
			continue
		}
		want, _ := new(big.Int).SetString(strings.TrimPrefix(text, "+"), 10)
		if got := fmt.Sprint(reflect.ValueOf(p).Elem()); got != want.String() {
			vFail(t, "X02", "wraps", in, fmt.Sprintf("decoded as %v", got))
		}
	}
	for bits, p := range map[int]interface{}{32: new(float32), 64: new(float64), 33: new(vF32), 65: new(vF64)} {
		bits = bits &^ 1
		in := fmt.Sprintf("text %q into %T", text, p)
		vCase("X02", in)
		err := vDecode(t, text, p)
		want, wantErr := strconv.ParseFloat(text, bits)
		if err == nil && wantErr != nil {
			vFail(t, "X02", "float accepts", in, fmt.Sprintf("decoded as %v, but %v", reflect.ValueOf(p).Elem(), wantErr))
		}
		if err == nil && wantErr == nil && !vSameValue(reflect.ValueOf(p).Elem(), reflect.ValueOf(want)) {
			vFail(t, "X02", "float value", in, fmt.Sprintf("decoded as %v", reflect.ValueOf(p).Elem()))
		}
	}
	for _, p := range []interface{}{new(bool), new(vBool)} {
		in := fmt.Sprintf("text %q into %T", text, p)
		vCase("X02", in)
		err := vDecode(t, text, p)
		words := map[string]bool{"true": true, "1": true, "on": true, "yes": true, "false": false, "0": false, "off": false, "no": false}
		want, ok := words[strings.ToLower(text)]
		if err == nil && !ok {
			vFail(t, "X02", "bool accepts", in, fmt.Sprintf("decoded as %v", reflect.ValueOf(p).Elem()))
		}
		if err == nil && ok && reflect.ValueOf(p).Elem().Bool() != want {
			vFail(t, "X02", "bool value", in, fmt.Sprintf("decoded as %v", reflect.ValueOf(p).Elem()))
		}
		if ok && err != nil {
			vFail(t, "X02", "bool rejects", in, err.Error())
		}
	}
	s := "before"
	if err := vDecode(t, text, &s); err != nil || s != text {
		vFail(t, "X02", "string", fmt.Sprintf("text %q into *string", text), fmt.Sprintf("%q %v", s, err))
	}
}

func TestVerif_X02(t *testing.T) {
	r := vRand(201)
	for _, v := range []interface{}{true, false, vBool(true), vBool(false), "", "abc", "a\x00b", "\xff\xfe", " x ", "\n", "日本", vStr(" q "),
		0.0, math.Copysign(0, -1), math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, math.SmallestNonzeroFloat64, 1e-10, 0.1, 1.0 / 3, 123456789.123456789, 1e22, 1e300,
		float32(math.MaxFloat32), float32(math.SmallestNonzeroFloat32), float32(0.1), float32(1e-20), float32(16777217), float32(1) / 3, vF32(1e-9), vF64(2.0 / 3)} {
		vRoundTrip(t, v)
	}
	for i := -128; i < 128; i++ {
		vRoundTrip(t, int8(i))
		vRoundTrip(t, vI8(i))
		vRoundTrip(t, uint8(i))
		vRoundTrip(t, vU8(i))
	}
	for i := -32768; i < 32768; i++ {
		vRoundTrip(t, int16(i))
		vRoundTrip(t, uint16(i))
	}
	ints := []uint64{0, 1}
	for s := uint(0); s < 64; s++ {
		ints = append(ints, 1<<s, 1<<s-1, 1<<s+1, -(1 << s), -(1 << s)-1)
	}
	for i := 0; i < vScale(2000); i++ {
		ints = append(ints, r.Uint64()>>uint(r.Intn(64)))
	}
	for _, u := range ints {
		vRoundTrip(t, int(u))
		vRoundTrip(t, int32(u))
		vRoundTrip(t, int64(u))
		vRoundTrip(t, uint(u))
		vRoundTrip(t, uint32(u))
		vRoundTrip(t, u)
		vRoundTrip(t, vI64(u))
		vRoundTrip(t, vI16(u))
		vRoundTrip(t, vU16(u))
		vRoundTrip(t, math.Float64frombits(u))
		vRoundTrip(t, math.Float32frombits(uint32(u)))
		vRoundTrip(t, float64(u))
		vRoundTrip(t, float32(u))
		vRoundTrip(t, vF64(float64(int64(u))/1000))
	}
	for i := 0; i < vScale(2000); i++ {
		b := make([]byte, r.Intn(12))
		r.Read(b)
		vRoundTrip(t, string(b))
		vRoundTrip(t, vStr(b))
		vRoundTrip(t, r.NormFloat64()*math.Pow(10, float64(r.Intn(600)-300)))
		vRoundTrip(t, float32(r.NormFloat64()*math.Pow(10, float64(r.Intn(70)-35))))
	}
	vDone("X02")
}

func TestVerif_X02_text(t *testing.T) {
	r := vRand(202)
	texts := []string{"", " ", "1 ", " 1", "+1", "-1", "--1", "+-1", "0x10", "0X1F", "0b11", "0o17", "017", "1_000", "1e3", "1.0", "1.5", ".5", "5.", "-0", "+0", "1,000",
		"true", "TRUE", "Yes", "oN", "t", "f", "T", "F", "y", "n", "tru", "truee", "false ", "2", "nil", "NaN", "nan", "inf", "-Inf", "infinity", "1e400", "-1e400", "1e39", "3.5e38", "3.4028236e38",
		"1e-400", "0x1p-2", "1__0", "１２", "1\x00", "99999999999999999999999", "-99999999999999999999999", "12a", "a12", "0x", "1.2.3", "1e", "e1", "+", "-", "1.", "00", "-00"}
	for s := uint(7); s <= 65; s++ {
		b := new(big.Int).Lsh(big.NewInt(1), s)
		for d := int64(-2); d <= 2; d++ {
			x := new(big.Int).Add(b, big.NewInt(d))
			texts = append(texts, x.String(), "-"+x.String(), "+"+x.String(), "0"+x.String())
		}
	}
	for _, k := range []int64{256, 65536, 1 << 32} {
		for d := int64(0); d < 4; d++ {
			texts = append(texts, fmt.Sprint(k*3+d), fmt.Sprint(-k*3-d))
		}
	}
	for _, s := range texts {
		vText(t, s)
	}
	const alpha = "0123456789+-._eExXinfa \ttruefalsoy"
	for i := 0; i < vScale(1500); i++ {
		n := 1 + r.Intn(6)
		if r.Intn(3) == 0 {
			n = 1 + r.Intn(24)
		}
		b := make([]byte, n)
		for j := range b {
			if r.Intn(2) == 0 {
				b[j] = alpha[r.Intn(10)]
			} else {
				b[j] = alpha[r.Intn(len(alpha))]
			}
		}
		vText(t, string(b))
	}
	vDone("X02")
}

// --- X01 -------------------------------------------------------------------

type vMeth string // methods of its own

func (m vMeth) MarshalText() ([]byte, error) { return []byte("meth:" + string(m)), nil }
func (m *vMeth) UnmarshalText(b []byte) error {
	*m = vMeth("meth:" + string(b))
	return nil
}

type vMethInt int

func (m vMethInt) MarshalText() ([]byte, error) { return []byte(fmt.Sprintf("meth:%d", int(m))), nil }
func (m *vMethInt) UnmarshalText(b []byte) error {
	*m = vMethInt(1000 + len(b))
	return nil
}

type vOnlyDec string

func (m *vOnlyDec) UnmarshalText(b []byte) error {
	*m = vOnlyDec("dec:" + string(b))
	return nil
}

type vOnlyEnc string

func (m vOnlyEnc) MarshalText() ([]byte, error) { return []byte("enc:" + string(m)), nil }

type vPlain string
type vPlainInt int
type vStruct struct{ s string }
type vMethStruct struct{ s string }

func (m vMethStruct) MarshalText() ([]byte, error) { return []byte("meth:" + m.s), nil }
func (m *vMethStruct) UnmarshalText(b []byte) error {
	m.s = "meth:" + string(b)
	return nil
}

// vKind describes a type and how it is reached.
type vKind struct {
	t          reflect.Type
	dec, enc   bool         // has methods
	basic      reflect.Type // basic type of its kind
	mkText     func(s string) reflect.Value
	fromMethod string
}

func vKinds() []vKind {
	str, num := reflect.TypeOf(""), reflect.TypeOf(0)
	return []vKind{
		{t: reflect.TypeOf(vMeth("")), dec: true, enc: true, basic: str},
		{t: reflect.TypeOf(vMethInt(0)), dec: true, enc: true, basic: num},
		{t: reflect.TypeOf(vOnlyDec("")), dec: true, basic: str},
		{t: reflect.TypeOf(vOnlyEnc("")), enc: true, basic: str},
		{t: reflect.TypeOf(vPlain("")), basic: str},
		{t: reflect.TypeOf(vPlainInt(0)), basic: num},
		{t: reflect.TypeOf(vStruct{})},
		{t: reflect.TypeOf(vMethStruct{}), dec: true, enc: true},
		{t: str, basic: str},
		{t: num, basic: num},
		{t: reflect.TypeOf([]int{})},
		{t: reflect.TypeOf((*vPlain)(nil))},
		{t: reflect.TypeOf(struct{ vMeth }{}), dec: true, enc: true},
	}
}

// vRegister registers a coder for t that leaves a mark.
func vRegister(r *Registry, t reflect.Type, mark string, log *[]string) error {
	errT := reflect.TypeOf((*error)(nil)).Elem()
	encT := reflect.FuncOf([]reflect.Type{t}, []reflect.Type{reflect.TypeOf(""), errT}, false)
	decT := reflect.FuncOf([]reflect.Type{reflect.TypeOf(""), reflect.PtrTo(t)}, []reflect.Type{errT}, false)
	enc := reflect.MakeFunc(encT, func(a []reflect.Value) []reflect.Value {
		*log = append(*log, "enc "+mark)
		return []reflect.Value{reflect.ValueOf(mark), reflect.Zero(errT)}
	})
	dec := reflect.MakeFunc(decT, func(a []reflect.Value) []reflect.Value {
		*log = append(*log, "dec "+mark+" "+a[0].String())
		return []reflect.Value{reflect.Zero(errT)}
	})
	return r.Register(t, enc.Interface(), dec.Interface())
}

func TestVerif_X01(t *testing.T) {
	r := vRand(101)
	for run := 0; run < vScale(400); run++ {
		reg := NewRegistry()
		marks := map[reflect.Type]string{}
		var log []string
		hist := ""
		kinds := vKinds()
		handles := map[reflect.Type]Coder{}
		for step := 0; step < 8; step++ {
			k := kinds[r.Intn(len(kinds))]
			switch r.Intn(6) {
			case 0: // a registration that is refused changes nothing
				hist += fmt.Sprintf("bad %v; ", k.t)
				bad := []interface{}{nil, 7, func() {}, func(int, int, int) {}, func(string) error { return nil }}
				goodDec := reflect.MakeFunc(reflect.FuncOf([]reflect.Type{reflect.TypeOf(""), reflect.PtrTo(k.t)}, []reflect.Type{reflect.TypeOf((*error)(nil)).Elem()}, false), nil).Interface()
				goodEnc := reflect.MakeFunc(reflect.FuncOf([]reflect.Type{k.t}, []reflect.Type{reflect.TypeOf(""), reflect.TypeOf((*error)(nil)).Elem()}, false), nil).Interface()
				b := bad[r.Intn(len(bad))]
				var err error
				if r.Intn(2) == 0 {
					err = reg.Register(k.t, b, goodDec)
				} else {
					err = reg.Register(k.t, goodEnc, b)
				}
				if err == nil {
					vFail(t, "X01", "bad registration accepted", hist, fmt.Sprintf("%T", b))
				}
			default:
				mark := fmt.Sprintf("m%d", step)
				hist += fmt.Sprintf("register %v %s; ", k.t, mark)
				if err := vRegister(reg, k.t, mark, &log); err != nil {
					vFail(t, "X01", "registration refused", hist, err.Error())
					continue
				}
				marks[k.t] = mark
			}
			vCase("X01", hist)
			for _, k := range kinds {
				vCheckKind(t, reg, k, marks, &log, hist)
				if m := marks[k.t]; m != "" && handles[k.t] == nil {
					handles[k.t] = reg.GetCoder(k.t)
				}
			}
			// coders handed out earlier stay those of their type
			for ty, c := range handles {
				log = nil
				c.DecodeText(NewContext(), "h", reflect.New(ty).Interface())
				if want := "dec " + marks[ty] + " h"; len(log) != 1 || log[0] != want {
					vFail(t, "X01", "handle", hist, fmt.Sprintf("coder of %v: %v, want %s", ty, log, want))
				}
			}
		}
	}
	vDone("X01")
}

func vCheckKind(t *testing.T, reg *Registry, k vKind, marks map[reflect.Type]string, log *[]string, hist string) {
	in := hist + fmt.Sprintf("=> %v", k.t)
	defer func() {
		if r := recover(); r != nil {
			vFail(t, "X01", "panic", in, fmt.Sprint(r))
		}
	}()
	use := func(methods bool) string {
		switch {
		case marks[k.t] != "":
			return "explicit"
		case methods:
			return "methods"
		case k.basic != nil && marks[k.basic] != "":
			return "basic"
		}
		return "none"
	}
	check := func(what, want string, dec Decoder, enc Encoder, isNil bool) {
		if (want == "none") != isNil {
			vFail(t, "X01", what+" presence", in, fmt.Sprintf("found=%v, want %s", !isNil, want))
			return
		}
		if isNil {
			return
		}
		mark := marks[k.t]
		if want == "basic" {
			mark = marks[k.basic]
		}
		if dec != nil {
			*log = nil
			dst := reflect.New(k.t)
			err := dec.DecodeText(NewContext(), "abc", dst.Interface())
			if want == "methods" {
				ref := reflect.New(k.t)
				ref.Interface().(interface{ UnmarshalText([]byte) error }).UnmarshalText([]byte("abc"))
				if len(*log) != 0 || err != nil || !reflect.DeepEqual(dst.Interface(), ref.Interface()) {
					vFail(t, "X01", what+" decode", in, fmt.Sprintf("want the type's method; coders called: %v, got %v %v", *log, dst.Elem().Interface(), err))
				}
			} else if len(*log) != 1 || (*log)[0] != "dec "+mark+" abc" {
				vFail(t, "X01", what+" decode", in, fmt.Sprintf("want %s %s; coders called: %v, %v", want, mark, *log, err))
			}
		}
		if enc != nil {
			*log = nil
			v := reflect.New(k.t).Elem()
			text, err := enc.EncodeText(NewContext(), v.Interface())
			if want == "methods" {
				ref, _ := v.Interface().(interface{ MarshalText() ([]byte, error) }).MarshalText()
				if len(*log) != 0 || err != nil || text != string(ref) {
					vFail(t, "X01", what+" encode", in, fmt.Sprintf("want the type's method; coders called: %v, got %q %v", *log, text, err))
				}
			} else if text != mark || len(*log) != 1 {
				vFail(t, "X01", what+" encode", in, fmt.Sprintf("want %s %s; coders called: %v, %q %v", want, mark, *log, text, err))
			}
		}
	}
	d := reg.GetDecoder(k.t)
	check("decoder", use(k.dec), d, nil, d == nil)
	e := reg.GetEncoder(k.t)
	check("encoder", use(k.enc), nil, e, e == nil)
	c := reg.GetCoder(k.t)
	check("coder", use(k.dec && k.enc), c, c, c == nil)
}

type vDefA struct{ s string }
type vDefB struct{ s string }
type vDefMeth struct{ s string }

func (m vDefMeth) MarshalText() ([]byte, error)  { return []byte("meth"), nil }
func (m *vDefMeth) UnmarshalText(b []byte) error { m.s = "meth"; return nil }

// The default registry and the package functions follow the same order.
func TestVerif_X01_default(t *testing.T) {
	in := "default registry"
	vCase("X01", in)
	if s, err := Marshal(vDefA{}); err == nil {
		vFail(t, "X01", "no coder", in, fmt.Sprintf("Marshal of a type without coder gives %q", s))
	}
	if err := Unmarshal("x", &vDefA{}); err == nil {
		vFail(t, "X01", "no coder", in, "Unmarshal of a type without coder gives no error")
	}
	if s, err := Marshal(vDefMeth{}); err != nil || s != "meth" {
		vFail(t, "X01", "methods", in, fmt.Sprint(s, err))
	}
	MustRegister(reflect.TypeOf(vDefMeth{}), func(vDefMeth) (string, error) { return "explicit", nil }, func(s string, d *vDefMeth) error { d.s = "explicit"; return nil })
	if s, err := Marshal(vDefMeth{}); err != nil || s != "explicit" {
		vFail(t, "X01", "explicit", in, fmt.Sprint(s, err))
	}
	var m vDefMeth
	if err := Unmarshal("q", &m); err != nil || m.s != "explicit" {
		vFail(t, "X01", "explicit", in, fmt.Sprint(m, err))
	}
	if s, err := Marshal(vDefB{}); err == nil {
		vFail(t, "X01", "no coder", in, fmt.Sprintf("Marshal of a type without coder gives %q", s))
	}
	if s, err := Marshal(int8(5)); err != nil || s != "5" {
		vFail(t, "X01", "others", in, fmt.Sprint(s, err))
	}
	vDone("X01")
}

// --- X03 -------------------------------------------------------------------

type vCtxT struct{ text string }
type vCtxU struct{ text string }

var vCtxSeen []*Context
var vTextSeen []string

type vTM struct{ got string }

func (m *vTM) UnmarshalText(b []byte) error {
	m.got = string(b)
	for i := range b {
		b[i] = 'x'
	}
	return nil
}

func vModel(c *Context, m map[interface{}]interface{}, keys []interface{}) string {
	for _, k := range keys {
		want, has := m[k]
		got, ok := c.Value(k)
		if ok != has || got != want {
			return fmt.Sprintf("Value(%#v) = %v, %v; want %v, %v", k, got, ok, want, has)
		}
	}
	return ""
}

func TestVerif_X03(t *testing.T) {
	r := vRand(301)
	MustRegister(reflect.TypeOf(vCtxT{}), func(c *Context, v vCtxT) (string, error) {
		vCtxSeen = append(vCtxSeen, c)
		return v.text, nil
	}, func(c *Context, s string, d *vCtxT) error {
		vCtxSeen = append(vCtxSeen, c)
		vTextSeen = append(vTextSeen, s)
		d.text = s
		if s == "bad" {
			return errors.New("bad")
		}
		return nil
	})
	type kt string
	keys := []interface{}{"a", "b", kt("a"), kt("b"), 1, 2, int8(1), struct{ x int }{1}, nil, true, "registry-not", ""}
	for run := 0; run < vScale(300); run++ {
		type node struct {
			c *Context
			m map[interface{}]interface{}
		}
		reg := NewRegistry()
		nodes := []node{{NewContext(), map[interface{}]interface{}{}}, {reg.NewContext(), map[interface{}]interface{}{}}}
		regs := []*Registry{DefaultRegistry(), reg}
		hist := ""
		for step := 0; step < 12; step++ {
			p := r.Intn(len(nodes))
			k, v := keys[r.Intn(len(keys))], interface{}(r.Intn(5))
			if r.Intn(6) == 0 {
				v = nil
			}
			hist += fmt.Sprintf("n%d = n%d.WithValue(%#v, %v); ", len(nodes), p, k, v)
			vCase("X03", hist)
			c := nodes[p].c.WithValue(k, v)
			m := map[interface{}]interface{}{k: v}
			for a, b := range nodes[p].m {
				if a != k {
					m[a] = b
				}
			}
			nodes = append(nodes, node{c, m})
			regs = append(regs, regs[p])
			for i, n := range nodes {
				if d := vModel(n.c, n.m, keys); d != "" {
					vFail(t, "X03", "values", hist, fmt.Sprintf("n%d: %s", i, d))
				}
				if n.c.Registry() != regs[i] {
					vFail(t, "X03", "registry", hist, fmt.Sprintf("n%d: registry of the context changed", i))
				}
			}
		}
		// the context and the text reach the coder
		n := nodes[r.Intn(len(nodes))]
		text := vRandText(r)
		vCtxSeen, vTextSeen = nil, nil
		var d vCtxT
		in := fmt.Sprintf("text %q with context %s", text, hist)
		if err := UnmarshalContext(n.c, text, &d); (err != nil) != (text == "bad") {
			vFail(t, "X03", "unmarshal error", in, fmt.Sprint(err))
		}
		if len(vCtxSeen) != 1 || vCtxSeen[0] == nil || len(vTextSeen) != 1 || vTextSeen[0] != text {
			vFail(t, "X03", "unmarshal context", in, fmt.Sprintf("the decoder got %v, %q", vCtxSeen, vTextSeen))
		} else if d := vModel(vCtxSeen[0], n.m, keys); d != "" || vCtxSeen[0] != n.c {
			vFail(t, "X03", "unmarshal context", in, "the decoder got another context: "+d)
		}
		vCtxSeen = nil
		out, err := MarshalContext(n.c, vCtxT{text})
		if err != nil || out != text {
			vFail(t, "X03", "marshal", in, fmt.Sprint(out, err))
		}
		if len(vCtxSeen) != 1 || vCtxSeen[0] != n.c {
			vFail(t, "X03", "marshal context", in, "the encoder got another context")
		}
		var tm vTM
		if err := UnmarshalContext(n.c, text, &tm); err != nil || tm.got != text {
			vFail(t, "X03", "method text", in, fmt.Sprintf("UnmarshalText got %q, %v", tm.got, err))
		}
		for _, n := range nodes {
			if d := vModel(n.c, n.m, keys); d != "" {
				vFail(t, "X03", "values", hist, "after coding: "+d)
			}
		}
	}
	vDone("X03")
}

func vRandText(r *rand.Rand) string {
	switch r.Intn(4) {
	case 0:
		return []string{"", " ", "bad", " a ", "\n", "\xff", "a\x00b", "\ufeffx", "a,b", "x\r\n"}[r.Intn(10)]
	}
	b := make([]byte, r.Intn(8))
	r.Read(b)
	return string(b)
}
