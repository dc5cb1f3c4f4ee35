package wirepath

import (
	"fmt"
	"math"
	"math/rand"
	"strings"
	"testing"

	pb "github.com/google/xtoproto/proto/wirepath"
	"github.com/google/xtoproto/proto/wirepath/testproto"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/dynamicpb"
)

// vSeg is one element of a path, with the text it is written as.
type vSeg struct {
	text string
	self bool
	num  int32
	name string
	kind string      // "", "index", or the name of a key kind
	val  interface{} // int64 index or Go value of the key
}

func (s *vSeg) proto() *pb.WirePath {
	p := &pb.WirePath{FieldName: s.name}
	if s.self {
		p.Element = &pb.WirePath_SpecialPath_{SpecialPath: pb.WirePath_SELF}
	} else {
		p.Element = &pb.WirePath_FieldNumber{FieldNumber: s.num}
	}
	switch s.kind {
	case "index":
		p.Slot = &pb.WirePath_RepeatedFieldOffset{RepeatedFieldOffset: s.val.(int64)}
	case "string":
		p.Slot = &pb.WirePath_MapKeyString{MapKeyString: s.val.(string)}
	case "bool":
		p.Slot = &pb.WirePath_MapKeyBool{MapKeyBool: s.val.(bool)}
	case "int32":
		p.Slot = &pb.WirePath_MapKeyInt32{MapKeyInt32: s.val.(int32)}
	case "sint32":
		p.Slot = &pb.WirePath_MapKeySint32{MapKeySint32: s.val.(int32)}
	case "sfixed32":
		p.Slot = &pb.WirePath_MapKeySfixed32{MapKeySfixed32: s.val.(int32)}
	case "int64":
		p.Slot = &pb.WirePath_MapKeyInt64{MapKeyInt64: s.val.(int64)}
	case "sint64":
		p.Slot = &pb.WirePath_MapKeySint64{MapKeySint64: s.val.(int64)}
	case "sfixed64":
		p.Slot = &pb.WirePath_MapKeySfixed64{MapKeySfixed64: s.val.(int64)}
	case "uint32":
		p.Slot = &pb.WirePath_MapKeyUint32{MapKeyUint32: s.val.(uint32)}
	case "fixed32":
		p.Slot = &pb.WirePath_MapKeyFixed32{MapKeyFixed32: s.val.(uint32)}
	case "uint64":
		p.Slot = &pb.WirePath_MapKeyUint64{MapKeyUint64: s.val.(uint64)}
	case "fixed64":
		p.Slot = &pb.WirePath_MapKeyFixed64{MapKeyFixed64: s.val.(uint64)}
	}
	return p
}

var vKinds = []string{"bool", "int32", "sint32", "sfixed32", "int64", "sint64", "sfixed64", "uint32", "fixed32", "uint64", "fixed64"}

func vPick32(r *rand.Rand) int32 {
	return []int32{0, 1, -1, 7, -10, 127, -128, 32767, -32768, math.MaxInt32, math.MinInt32, int32(r.Uint32())}[r.Intn(12)]
}

func vPick64(r *rand.Rand) int64 {
	return []int64{0, 1, -1, 9, math.MaxInt32, math.MinInt32, math.MaxInt32 + 1, math.MinInt32 - 1, math.MaxUint32, math.MaxInt64, math.MinInt64, int64(r.Uint64())}[r.Intn(12)]
}

// vKey gives a value of a key kind and its text.
func vKey(r *rand.Rand, kind string) (interface{}, string) {
	switch kind {
	case "bool":
		b := r.Intn(2) == 1
		return b, map[bool]string{true: "1", false: "0"}[b]
	case "int32", "sint32", "sfixed32":
		v := vPick32(r)
		t := fmt.Sprint(v)
		if v >= 0 && r.Intn(4) == 0 {
			t = "+" + t
		}
		return v, t
	case "int64", "sint64", "sfixed64":
		v := vPick64(r)
		return v, fmt.Sprint(v)
	case "uint32", "fixed32":
		v := uint32(vPick32(r))
		return v, fmt.Sprint(v)
	default:
		v := uint64(vPick64(r))
		return v, fmt.Sprint(v)
	}
}

// vLiteral gives a string and a literal that denotes it.
func vLiteral(r *rand.Rand) (string, string) {
	var val, lit strings.Builder
	lit.WriteByte('"')
	for n := r.Intn(7); n > 0; n-- {
		switch r.Intn(6) {
		case 0, 1:
			c := []string{"a", "/", "[", "]", ":", ".", "é", "世", " ", "'", "0", "x", "*", "\t", "("}[r.Intn(15)]
			val.WriteString(c)
			lit.WriteString(c)
		case 2:
			b := byte(r.Intn(256))
			val.WriteByte(b)
			fmt.Fprintf(&lit, []string{`\x%02x`, `\X%02X`}[r.Intn(2)], b)
		case 3:
			b := byte(r.Intn(256))
			val.WriteByte(b)
			fmt.Fprintf(&lit, `\0%03o`, b)
		default:
			i := r.Intn(10)
			val.WriteByte("\a\b\f\n\r\t\v\\'\""[i])
			lit.WriteByte('\\')
			lit.WriteByte("abfnrtv\\'\""[i])
		}
	}
	lit.WriteByte('"')
	return val.String(), lit.String()
}

func vSegment(r *rand.Rand, first bool) *vSeg {
	if r.Intn(12) == 0 {
		return &vSeg{text: ".", self: true}
	}
	s := &vSeg{num: []int32{0, 1, 2, 10, 42, 20000, math.MaxInt32}[r.Intn(7)]}
	s.text = fmt.Sprint(s.num)
	if r.Intn(3) == 0 {
		s.name = []string{"a", "B_", "field_1", "SELF", "int32", "x9"}[r.Intn(6)]
		s.text += "(" + s.name + ")"
	}
	switch r.Intn(4) {
	case 0:
		v := vPick64(r)
		s.kind, s.val = "index", v
		s.text += fmt.Sprintf("[%d]", v)
	case 1:
		v, l := vLiteral(r)
		s.kind, s.val = "string", v
		s.text += "[" + l + "]"
	case 2:
		k := vKinds[r.Intn(len(vKinds))]
		v, l := vKey(r, k)
		s.kind, s.val = k, v
		s.text += "[" + l + ":" + k + "]"
	}
	return s
}

func vPath(segs []*vSeg) (*pb.WirePath, string) {
	var p *pb.WirePath
	var ts []string
	for i := len(segs) - 1; i >= 0; i-- {
		q := segs[i].proto()
		q.Child = p
		p = q
	}
	for _, s := range segs {
		ts = append(ts, s.text)
	}
	return p, strings.Join(ts, "/")
}

// vSamePath compares element by element, not relying on the text encoding of
// messages.
func vSamePath(a, b *pb.WirePath) string {
	for i := 0; ; i++ {
		if a == nil || b == nil {
			if a != nil || b != nil {
				return fmt.Sprintf("different number of elements (they agree up to element %d)", i)
			}
			return ""
		}
		if fmt.Sprintf("%T %v", a.Element, a.Element) != fmt.Sprintf("%T %v", b.Element, b.Element) {
			return fmt.Sprintf("element %d: %v, want %v", i, a.Element, b.Element)
		}
		if a.FieldName != b.FieldName {
			return fmt.Sprintf("element %d: name %q, want %q", i, a.FieldName, b.FieldName)
		}
		if x, y := fmt.Sprintf("%T %q", a.Slot, fmt.Sprint(a.Slot)), fmt.Sprintf("%T %q", b.Slot, fmt.Sprint(b.Slot)); x != y {
			return fmt.Sprintf("element %d: slot %s, want %s", i, x, y)
		}
		a, b = a.Child, b.Child
	}
}

func vParses(t *testing.T, text string, want *pb.WirePath) {
	vCase("W01", text)
	if msg := vTry(func() {
		got, err := ParseString(text)
		if err != nil {
			vFail(t, "W01", "rejects", text, err.Error())
			return
		}
		if got == nil || got.Proto() == nil {
			vFail(t, "W01", "elements", text, "the path has no elements")
			return
		}
		if d := vSamePath(got.Proto(), want); d != "" {
			vFail(t, "W01", "elements", text, d)
		}
	}); msg != "" {
		vFail(t, "W01", "panic", text, msg)
	}
}

func TestVerif_W01_paths(t *testing.T) {
	r := vRand(901)
	for i := 0; i < vScale(3000); i++ {
		n := 1 + r.Intn(5)
		if r.Intn(50) == 0 {
			n = 12 + r.Intn(20)
		}
		var segs []*vSeg
		for j := 0; j < n; j++ {
			segs = append(segs, vSegment(r, j == 0))
		}
		want, text := vPath(segs)
		vParses(t, text, want)
	}
	// every kind of key at every boundary, followed by an element
	for _, k := range vKinds {
		for i := 0; i < 60; i++ {
			v, l := vKey(r, k)
			s := &vSeg{num: 3, kind: k, val: v, text: "3[" + l + ":" + k + "]"}
			want, text := vPath([]*vSeg{s, {num: 4, text: "4"}})
			vParses(t, text, want)
		}
	}
	vDone("W01")
}

func TestVerif_W01_literals(t *testing.T) {
	r := vRand(902)
	for b := 0; b < 256; b++ {
		for _, f := range []string{`"\x%02x"`, `"\X%02X"`, `"\0%03o"`, `"a\x%02xb"`} {
			l := fmt.Sprintf(f, b)
			want := string([]byte{byte(b)})
			if strings.HasPrefix(f, `"a`) {
				want = "a" + want + "b"
			}
			vCase("W01", l)
			got, err := parseProtobufStringLiteral(l)
			if err != nil || got != want {
				vFail(t, "W01", "literal", l, fmt.Sprintf("%q %v, want %q", got, err, want))
			}
		}
	}
	for i := 0; i < vScale(1500); i++ {
		want, l := vLiteral(r)
		vCase("W01", l)
		got, err := parseProtobufStringLiteral(l)
		if err != nil || got != want {
			vFail(t, "W01", "literal", l, fmt.Sprintf("%q %v, want %q", got, err, want))
		}
	}
	vDone("W01")
}

func TestVerif_W01_malformed(t *testing.T) {
	bad := []string{
		"/", "1/", "/1", "1//2", "1/2/", "//", "a", "-1", "+1", "1(", "1()", "1(2a)", "1(a", "1)", "1[", "1]", "1[]", "1[x]", "1[3:]", "1[:int32]",
		"1[3:foo]", "1[3:string]", "1[01]", "1[-]", "1[3", "1[3]4", "1[3][4]", "1[3](a)", "1 2", "1[ 3]", "1[3 ]", "..", ".[1]", "./..", "1.2", ".a",
		`1["a]`, `1[a"]`, `1["a"b"]`, `1["\q"]`, `1["\x1"]`, `1["\xzz"]`, `1["\0400"]`, `1["\01"]`, `1["\08"]`, `1["\"]`, `1["a\"]`, `1["`, `1["]`, "1[\"a\nb\"]", "1[\"\x00\"]", `1['a']`,
		"1[2:bool]", "1[-1:bool]", "1[true:bool]", "1[-1:uint32]", "1[-1:uint64]", "1[-1:fixed32]", "1[-1:fixed64]",
		"1[4294967296:uint32]", "1[4294967296:fixed32]", "1[18446744073709551616:uint64]", "1[18446744073709551616:fixed64]",
		"1[9223372036854775808]", "1[-9223372036854775809]", "2147483648", "4294967297", "99999999999999999999", "1[1.5]", "1[1e3]", "1[0x10]", "1[1_0]",
		`1["a":string]`, `1["1":int32]`, "1[1:int16]", "1[1:float]", "1[1:int32:int32]", "1[1,2]", "1/a", "1/2/x/3", "1[3:int32]/]", "1[1:Friend]",
	}
	for _, k := range []string{"int32", "sint32", "sfixed32"} {
		for _, v := range []string{"2147483648", "-2147483649", "4294967296", "99999999999999999999"} {
			bad = append(bad, fmt.Sprintf("1[%s:%s]", v, k))
		}
	}
	for _, k := range []string{"int64", "sint64", "sfixed64"} {
		for _, v := range []string{"9223372036854775808", "-9223372036854775809", "18446744073709551616"} {
			bad = append(bad, fmt.Sprintf("1[%s:%s]", v, k))
		}
	}
	check := func(text string) {
		vCase("W01", text)
		if msg := vTry(func() {
			if got, err := ParseString(text); err == nil {
				vFail(t, "W01", "accepts", text, fmt.Sprintf("accepted as %v", got.Proto()))
			}
		}); msg != "" {
			vFail(t, "W01", "panic", text, msg)
		}
	}
	for _, b := range bad {
		check(b)
		if !strings.HasPrefix(b, "/") {
			check("5/" + b)
		}
		if !strings.HasSuffix(b, "/") && !strings.Contains(b, `"`) {
			check(b + "/6(x)")
		}
	}
	// text of any kind is parsed or rejected
	r := vRand(903)
	al := []string{"1", "2", "/", "[", "]", `"`, "\\", "a", ".", ":", "int32", "bool", "(", ")", "x", "0", "-", "\xff", "é", " "}
	for i := 0; i < vScale(3000); i++ {
		var b strings.Builder
		for n := r.Intn(10); n >= 0; n-- {
			b.WriteString(al[r.Intn(len(al))])
		}
		vCase("W01", b.String())
		if msg := vTry(func() { _, _ = ParseString(b.String()) }); msg != "" {
			vFail(t, "W01", "panic", b.String(), msg)
		}
	}
	vDone("W01")
}

// --- W02

func vExample(r *rand.Rand, depth int) *testproto.Example {
	e := &testproto.Example{
		ColumnIndex: int32(r.Intn(100)), ColName: fmt.Sprint("col", r.Intn(100)), ProtoName: fmt.Sprint("n", r.Intn(100)),
		ProtoType: fmt.Sprint("t", r.Intn(100)), ProtoTag: int32(r.Intn(100)), Ignored: r.Intn(2) == 0,
	}
	for n := r.Intn(4); n > 0; n-- {
		e.ProtoImports = append(e.ProtoImports, fmt.Sprint("i", r.Intn(1000)))
	}
	if r.Intn(3) > 0 {
		e.ModbusValues = map[int32]string{}
		for n := r.Intn(4); n > 0; n-- {
			e.ModbusValues[int32(r.Intn(5)-2)] = fmt.Sprint("m", r.Intn(1000))
		}
	}
	if r.Intn(3) > 0 {
		e.NamedFriends = map[bool]*testproto.Friend{}
		for _, b := range []bool{true, false} {
			if r.Intn(2) == 0 {
				e.NamedFriends[b] = &testproto.Friend{Name: fmt.Sprint("f", r.Intn(1000))}
			}
		}
	}
	if depth > 0 {
		for n := r.Intn(3); n > 0; n-- {
			e.Children = append(e.Children, vExample(r, depth-1))
		}
		if r.Intn(2) == 0 {
			e.Child = vExample(r, depth-1)
		}
		if r.Intn(3) > 0 {
			e.NamedChildren = map[string]*testproto.Example{}
			for n := r.Intn(3); n > 0; n-- {
				e.NamedChildren[[]string{"", "a", "b/c", "1"}[r.Intn(4)]] = vExample(r, depth-1)
			}
		}
	}
	return e
}

// vAbsent stands for a map key that is not there.
type vAbsent struct{}

// vFollow follows one element through plain Go values.
func vFollow(cur interface{}, s *vSeg) (interface{}, error) {
	base := cur
	if !s.self {
		switch m := cur.(type) {
		case *testproto.Example:
			switch s.num {
			case 1:
				base = m.GetColumnIndex()
			case 2:
				base = m.GetColName()
			case 3:
				base = m.GetProtoName()
			case 4:
				base = m.GetProtoType()
			case 5:
				base = m.GetProtoTag()
			case 6:
				base = m.GetIgnored()
			case 7:
				base = m.GetProtoImports()
			case 8:
				base = m.GetChildren()
			case 9:
				base = m.GetModbusValues()
			case 10:
				base = m.GetChild()
			case 11:
				base = m.GetNamedChildren()
			case 12:
				base = m.GetNamedFriends()
			default:
				return nil, fmt.Errorf("no field %d", s.num)
			}
		case *testproto.Friend:
			if s.num != 20000 {
				return nil, fmt.Errorf("no field %d", s.num)
			}
			base = m.GetName()
		default:
			return nil, fmt.Errorf("%T has no fields", cur)
		}
	} else {
		switch cur.(type) {
		case *testproto.Example, *testproto.Friend:
		default:
			return nil, fmt.Errorf("%T is not a message", cur)
		}
	}
	if s.kind == "" {
		return base, nil
	}
	if s.kind == "index" {
		i := s.val.(int64)
		switch l := base.(type) {
		case []string:
			if i >= 0 && i < int64(len(l)) {
				return l[i], nil
			}
		case []*testproto.Example:
			if i >= 0 && i < int64(len(l)) {
				return l[i], nil
			}
		}
		return nil, fmt.Errorf("no element %d", i)
	}
	switch m := base.(type) {
	case map[int32]string:
		if s.kind == "int32" {
			if v, ok := m[s.val.(int32)]; ok {
				return v, nil
			}
			return vAbsent{}, nil
		}
	case map[string]*testproto.Example:
		if s.kind == "string" {
			if v, ok := m[s.val.(string)]; ok {
				return v, nil
			}
			return vAbsent{}, nil
		}
	case map[bool]*testproto.Friend:
		if s.kind == "bool" {
			if v, ok := m[s.val.(bool)]; ok {
				return v, nil
			}
			return vAbsent{}, nil
		}
	}
	return nil, fmt.Errorf("no entry of kind %s", s.kind)
}

// vSameValue compares what the code returned with the plain Go value.
func vSameValue(got protoreflect.Value, want interface{}) string {
	if _, ok := want.(vAbsent); ok {
		if got.IsValid() {
			return fmt.Sprintf("got %v for an absent key", got)
		}
		return ""
	}
	if !got.IsValid() {
		return fmt.Sprintf("no value, want %v", want)
	}
	switch w := want.(type) {
	case proto.Message:
		m, ok := got.Interface().(protoreflect.Message)
		if !ok || !proto.Equal(m.Interface(), w) {
			return fmt.Sprintf("%v, want the message %v", got, w)
		}
	case []string:
		l, ok := got.Interface().(protoreflect.List)
		if !ok || l.Len() != len(w) {
			return fmt.Sprintf("%v, want %v", got, want)
		}
		for i := range w {
			if l.Get(i).String() != w[i] {
				return fmt.Sprintf("element %d is %v, want %v", i, l.Get(i), w[i])
			}
		}
	case []*testproto.Example:
		l, ok := got.Interface().(protoreflect.List)
		if !ok || l.Len() != len(w) {
			return fmt.Sprintf("%v, want %v", got, want)
		}
		for i := range w {
			if !proto.Equal(l.Get(i).Message().Interface(), w[i]) {
				return fmt.Sprintf("element %d is %v, want %v", i, l.Get(i), w[i])
			}
		}
	case map[int32]string:
		m, ok := got.Interface().(protoreflect.Map)
		if !ok || m.Len() != len(w) {
			return fmt.Sprintf("%v, want %v", got, want)
		}
		for k, v := range w {
			if m.Get(protoreflect.ValueOfInt32(k).MapKey()).String() != v {
				return fmt.Sprintf("entry %d differs", k)
			}
		}
	case map[string]*testproto.Example:
		m, ok := got.Interface().(protoreflect.Map)
		if !ok || m.Len() != len(w) {
			return fmt.Sprintf("%v, want %v", got, want)
		}
	case map[bool]*testproto.Friend:
		m, ok := got.Interface().(protoreflect.Map)
		if !ok || m.Len() != len(w) {
			return fmt.Sprintf("%v, want %v", got, want)
		}
	default:
		if fmt.Sprintf("%T %v", got.Interface(), got.Interface()) != fmt.Sprintf("%T %v", want, want) {
			return fmt.Sprintf("%v, want %v", got, want)
		}
	}
	return ""
}

func vTarget(r *rand.Rand) *vSeg {
	if r.Intn(10) == 0 {
		return &vSeg{self: true, text: "."}
	}
	s := &vSeg{num: []int32{8, 10, 11, 12, 7, 9, 8, 10, 11, 12, 1, 2, 4, 5, 6, 20000, 99, 0, -3}[r.Intn(19)]}
	if r.Intn(5) == 0 {
		s.name = "other_name"
	}
	k := r.Intn(12)
	switch {
	case s.num == 8 && k < 9 || s.num == 7 && k < 8 || k == 0:
		s.kind, s.val = "index", []int64{0, 0, 0, 1, 1, 2, 3, -1, math.MinInt64, math.MaxInt64, 1 << 32}[r.Intn(11)]
	case s.num == 11 && k < 9 || k == 1:
		s.kind, s.val = "string", []string{"", "a", "b/c", "1", "zz"}[r.Intn(5)]
	case s.num == 12 && k < 9 || k == 2:
		s.kind, s.val = "bool", r.Intn(2) == 0
	case s.num == 9 && k < 9 || k == 3:
		s.kind, s.val = "int32", int32(r.Intn(6)-3)
	case k == 4:
		s.kind = vKinds[r.Intn(len(vKinds))]
		s.val, _ = vKey(r, s.kind)
	}
	if s.self {
		s.kind = ""
	}
	s.text = fmt.Sprintf("%d(%s)[%v:%s]", s.num, s.name, s.val, s.kind)
	return s
}

func TestVerif_W02_values(t *testing.T) {
	r := vRand(911)
	for i := 0; i < vScale(6000); i++ {
		m := vExample(r, 2)
		var segs []*vSeg
		for n := r.Intn(5); n >= 0; n-- {
			s := vTarget(r)
			if s.self && r.Intn(3) == 0 {
				// a slot where there is no field
				s.kind, s.val = "string", "a"
				if r.Intn(2) == 0 {
					s.kind, s.val = "index", int64(0)
				}
				s.text = fmt.Sprintf(".[%v]", s.val)
			}
			segs = append(segs, s)
		}
		path, text := vPath(segs)
		if r.Intn(10) == 0 && segs[len(segs)-1].self {
			// an unset element means the value itself
			for q := path; q != nil; q = q.Child {
				if q.GetSpecialPath() == pb.WirePath_SELF {
					q.Element = nil
				}
			}
			text += " (elements unset)"
		}
		var want interface{} = m
		var wantErr error
		for _, s := range segs {
			if _, ok := want.(vAbsent); ok {
				wantErr = fmt.Errorf("continues below an absent key")
				break
			}
			if want, wantErr = vFollow(want, s); wantErr != nil {
				break
			}
		}
		in := fmt.Sprintf("path %s (%v) in %v", text, path, m)
		vCase("W02", in)
		before := proto.Clone(m)
		if msg := vTry(func() {
			p, err := FromProto(path)
			if err != nil {
				vFail(t, "W02", "fromproto", in, err.Error())
				return
			}
			got, err := GetValue(p, m)
			if (err != nil) != (wantErr != nil) {
				vFail(t, "W02", "error", in, fmt.Sprintf("got %v, error %v; want %v, error %v", got, err, want, wantErr))
				return
			}
			if err == nil {
				if d := vSameValue(got, want); d != "" {
					vFail(t, "W02", "value", in, d)
				}
			}
			if !proto.Equal(m, before) {
				vFail(t, "W02", "modified", in, "the message was modified")
			}
		}); msg != "" {
			vFail(t, "W02", "panic", in, msg)
		}
	}
	vDone("W02")
}

// vMapsMessage is a message with one map field for every kind of key: the
// field of kind i has number i+1; values name their key.
func vMapsMessage(t *testing.T) (protoreflect.MessageDescriptor, []string) {
	kinds := append([]string{"string"}, vKinds...)
	typ := map[string]descriptorpb.FieldDescriptorProto_Type{
		"string": descriptorpb.FieldDescriptorProto_TYPE_STRING, "bool": descriptorpb.FieldDescriptorProto_TYPE_BOOL,
		"int32": descriptorpb.FieldDescriptorProto_TYPE_INT32, "sint32": descriptorpb.FieldDescriptorProto_TYPE_SINT32, "sfixed32": descriptorpb.FieldDescriptorProto_TYPE_SFIXED32,
		"int64": descriptorpb.FieldDescriptorProto_TYPE_INT64, "sint64": descriptorpb.FieldDescriptorProto_TYPE_SINT64, "sfixed64": descriptorpb.FieldDescriptorProto_TYPE_SFIXED64,
		"uint32": descriptorpb.FieldDescriptorProto_TYPE_UINT32, "fixed32": descriptorpb.FieldDescriptorProto_TYPE_FIXED32,
		"uint64": descriptorpb.FieldDescriptorProto_TYPE_UINT64, "fixed64": descriptorpb.FieldDescriptorProto_TYPE_FIXED64,
	}
	opt, rep := descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum(), descriptorpb.FieldDescriptorProto_LABEL_REPEATED.Enum()
	m := &descriptorpb.DescriptorProto{Name: proto.String("M")}
	for i, k := range kinds {
		en := strings.ToUpper(k[:1]) + k[1:] + "Entry"
		m.NestedType = append(m.NestedType, &descriptorpb.DescriptorProto{
			Name: proto.String(en),
			Field: []*descriptorpb.FieldDescriptorProto{
				{Name: proto.String("key"), Number: proto.Int32(1), Label: opt, Type: typ[k].Enum()},
				{Name: proto.String("value"), Number: proto.Int32(2), Label: opt, Type: descriptorpb.FieldDescriptorProto_TYPE_STRING.Enum()},
			},
			Options: &descriptorpb.MessageOptions{MapEntry: proto.Bool(true)},
		})
		m.Field = append(m.Field, &descriptorpb.FieldDescriptorProto{
			Name: proto.String(k), Number: proto.Int32(int32(i + 1)), Label: rep,
			Type: descriptorpb.FieldDescriptorProto_TYPE_MESSAGE.Enum(), TypeName: proto.String(".v.M." + en),
		})
	}
	fd, err := protodesc.NewFile(&descriptorpb.FileDescriptorProto{Name: proto.String("v.proto"), Package: proto.String("v"), Syntax: proto.String("proto3"), MessageType: []*descriptorpb.DescriptorProto{m}}, nil)
	if err != nil {
		t.Skip(err)
	}
	return fd.Messages().Get(0), kinds
}

func TestVerif_W02_keykinds(t *testing.T) {
	md, kinds := vMapsMessage(t)
	r := vRand(912)
	for i := 0; i < vScale(3000); i++ {
		m := dynamicpb.NewMessage(md)
		// some entries, among them every key that is asked for below
		fi, ki := r.Intn(len(kinds)), r.Intn(len(kinds))
		if r.Intn(2) == 0 {
			ki = fi
		}
		key := func(k string) interface{} {
			if k == "string" {
				v, _ := vLiteral(r)
				return strings.ToValidUTF8(v, "?")
			}
			v, _ := vKey(r, k)
			return v
		}
		have := map[interface{}]string{}
		mf := md.Fields().ByNumber(protoreflect.FieldNumber(fi + 1))
		mm := m.Mutable(mf).Map()
		for n := r.Intn(5); n > 0; n-- {
			k := key(kinds[fi])
			have[k] = fmt.Sprint("value of ", k)
			mm.Set(protoreflect.ValueOf(k).MapKey(), protoreflect.ValueOfString(have[k]))
		}
		ask := key(kinds[ki])
		s := &vSeg{num: int32(fi + 1), kind: kinds[ki], val: ask, text: fmt.Sprintf("%d[%v:%s]", fi+1, ask, kinds[ki])}
		path, text := vPath([]*vSeg{s})
		in := fmt.Sprintf("path %s in a map of %s keys %v", text, kinds[fi], have)
		vCase("W02", in)
		if msg := vTry(func() {
			p, _ := FromProto(path)
			got, err := GetValue(p, m)
			if (err != nil) != (ki != fi) {
				vFail(t, "W02", "keykind", in, fmt.Sprintf("%v, error %v", got, err))
				return
			}
			if err == nil {
				w, ok := have[ask]
				if ok != got.IsValid() || ok && got.String() != w {
					vFail(t, "W02", "entry", in, fmt.Sprintf("%v, want %q (present: %v)", got, w, ok))
				}
			}
		}); msg != "" {
			vFail(t, "W02", "panic", in, msg)
		}
	}
	vDone("W02")
}
