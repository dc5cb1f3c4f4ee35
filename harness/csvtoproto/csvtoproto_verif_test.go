package csvtoproto

import (
	"bytes"
	"encoding/csv"
	"encoding/json"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	dpbuf "github.com/golang/protobuf/protoc-gen-go/descriptor"
	"github.com/google/xtoproto/proto/recordtoproto"
	"github.com/jhump/protoreflect/desc"
	"github.com/jhump/protoreflect/desc/protoparse"
	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/pluginpb"
)

const vModule = "github.com/google/xtoproto"

type vColumn struct {
	*recordtoproto.ColumnToFieldMapping
	values, want []string
	goName       string
}

type vMapping struct {
	m    *recordtoproto.RecordProtoMapping
	cols []*vColumn
}

func (m *vMapping) String() string {
	b, _ := json.Marshal(m.m)
	return string(b)
}

var vTypes = []string{"int32", "int64", "float", "double", "string", "google.protobuf.Timestamp", "google.protobuf.Duration"}

var vComments = []string{"", "plain", "ends */ here", "two\nlines", "blank\n\n\nlines\n", "// nested", "  leading and trailing  ", strings.Repeat("long words ", 30), strings.Repeat("x", 120), "semi; } message Evil {", "tab\tand\rreturn", "quote \" and ' and \\", "日本語 コメント", "\"", "/* open", "a\n  int32 evil = 99;\n", "import \"evil.proto\";\nmessage E {}", "dashes -- and 100%d %s %%"}

var vColNames = []string{"a", "Name", "two words", "quo\"te", "back`tick", "comma,name", "ünïcode", "a:b", "back\\slash", "tab\there", "json:\"x\"", "percent %s", "csv", "x y z", "'single'", "semi;", "{brace}", "line\nbreak", "日本", "1", "#", "`", "``", "\"\""}

var vProtoNames = []string{"a", "b", "b_c", "col_1", "x2y", "x_2y", "string", "proto", "reset", "get_a", "descriptor", "upperCase", "Upper", "ABC", "a__b", "trailing_", "message", "type", "time", "err", "r", "marshal", "proto_message", "_lead", "a1_b2", "fmt", "return_", "io", "reader", "package", "int32", "option", "z9"}

func (m *vMapping) value(r *rand.Rand, c *vColumn) (string, string) {
	switch c.ProtoType {
	case "int32":
		v := fmt.Sprint(int32(r.Uint32()))
		return v, v
	case "int64":
		v := fmt.Sprint(int64(r.Uint64()))
		return v, v
	case "float":
		f := float32(r.NormFloat64())
		return strconv.FormatFloat(float64(f), 'g', -1, 32), fmt.Sprint(f)
	case "double":
		f := r.NormFloat64()
		return strconv.FormatFloat(f, 'g', -1, 64), fmt.Sprint(f)
	case "string":
		s := []string{"text", "", "with,comma", "quo\"te", " sp ", "日本"}[r.Intn(6)]
		return s, fmt.Sprint(s)
	case "google.protobuf.Timestamp":
		loc, _ := time.LoadLocation(c.GetTimeFormat().GetTimeZoneName())
		if c.GetTimeFormat().GetTimeZoneName() == "" {
			loc = time.UTC
		}
		s := time.Unix(1500000000+r.Int63n(1e8), 0).In(loc).Format(c.GetTimeFormat().GetGoLayout())
		t, err := time.ParseInLocation(c.GetTimeFormat().GetGoLayout(), s, loc)
		if err != nil {
			panic(err)
		}
		return s, fmt.Sprint(t.Unix(), " ", t.Nanosecond())
	default:
		s := fmt.Sprint(r.Intn(2000) - 1000)
		unit := c.GetDurationFormat().GetGoUnitSuffix()
		if unit == "" {
			s += []string{"s", "ms", "h", "m"}[r.Intn(4)]
		}
		d, err := time.ParseDuration(s + unit)
		if err != nil {
			panic(err)
		}
		return s, fmt.Sprint(int64(d/time.Second), " ", int32(d%time.Second))
	}
}

func vMappingFor(r *rand.Rand, seq int) *vMapping {
	m := &vMapping{m: &recordtoproto.RecordProtoMapping{
		PackageName: []string{"pkg", "my.deep.pkg", "p_1"}[r.Intn(3)],
		MessageName: []string{"Record", "foo_bar", "Reader", "X", "lower", "Msg_2"}[r.Intn(6)],
		GoOptions:   &recordtoproto.GoOptions{GoPackageName: fmt.Sprintf("conv%d", seq), ProtoImport: fmt.Sprintf("%s/zzverif/c%d/pb", vModule, seq)},
	}}
	names, colNames, tags := r.Perm(len(vProtoNames)), r.Perm(len(vColNames)), r.Perm(200)
	json := map[string]bool{}
	name := func() string {
		for {
			n := vProtoNames[names[0]]
			names = names[1:]
			j := strings.ToLower(strings.Replace(n, "_", "", -1))
			if !json[j] {
				json[j] = true
				return n
			}
		}
	}
	imports := func(typ string) []string {
		out := map[string][]string{"google.protobuf.Timestamp": {"google/protobuf/timestamp.proto"}, "google.protobuf.Duration": {"google/protobuf/duration.proto"}}[typ]
		for r.Intn(3) == 0 {
			out = append(out, []string{"dep/one.proto", "dep/two.proto", "a.proto", "dep/with space.proto"}[r.Intn(4)])
		}
		return out
	}
	for i, n := 0, r.Intn(9); i < n; i++ {
		c := &vColumn{ColumnToFieldMapping: &recordtoproto.ColumnToFieldMapping{
			ColumnIndex: int32(i), ColName: vColNames[colNames[i]], ProtoName: name(), ProtoType: vTypes[r.Intn(len(vTypes))],
			ProtoTag: int32(tags[i] + 1), Ignored: r.Intn(4) == 0, Comment: vComments[r.Intn(len(vComments))],
		}}
		c.ProtoImports = imports(c.ProtoType)
		switch c.ProtoType {
		case "google.protobuf.Timestamp":
			f := &recordtoproto.TimeFormat{GoLayout: []string{"2006-01-02", time.RFC3339, "2006-01-02 15:04:05", "Jan _2 2006 \"at\" 15:04"}[r.Intn(4)], TimeZoneName: []string{"", "UTC", "America/Los_Angeles", "Asia/Tokyo"}[r.Intn(4)]}
			c.ParsingInfo = &recordtoproto.ColumnToFieldMapping_TimeFormat{TimeFormat: f}
		case "google.protobuf.Duration":
			if r.Intn(4) != 0 {
				c.ParsingInfo = &recordtoproto.ColumnToFieldMapping_DurationFormat{DurationFormat: &recordtoproto.DurationFormat{GoUnitSuffix: []string{"", "s", "ms", "h"}[r.Intn(4)]}}
			}
		}
		m.cols = append(m.cols, c)
		m.m.ColumnToFieldMappings = append(m.m.ColumnToFieldMappings, c.ColumnToFieldMapping)
	}
	for i, n := 0, r.Intn(3)*r.Intn(2); i < n; i++ {
		typ := []string{"string", "int64", "google.protobuf.Timestamp"}[r.Intn(3)]
		m.m.ExtraFieldDefinitions = append(m.m.ExtraFieldDefinitions, &recordtoproto.FieldDefinition{
			ProtoName: name(), ProtoType: typ, ProtoTag: int32(tags[100+i] + 1), ProtoImports: imports(typ), Comment: vComments[r.Intn(len(vComments))]})
	}
	return m
}

func vWords(s string) string { return strings.Join(strings.Fields(s), " ") }

// vSchema reads the generated definition and compares it with the mapping.
func vSchema(m *vMapping, text string) (*desc.FileDescriptor, string) {
	p := &protoparse.Parser{IncludeSourceCodeInfo: true, Accessor: func(name string) (io.ReadCloser, error) {
		if name == "main.proto" {
			return ioutil.NopCloser(strings.NewReader(text)), nil
		}
		switch name {
		case "dep/one.proto", "dep/two.proto", "a.proto", "dep/with space.proto":
			return ioutil.NopCloser(strings.NewReader("syntax = \"proto3\";\npackage dep;\n")), nil
		}
		return nil, os.ErrNotExist
	}}
	fds, err := p.ParseFiles("main.proto")
	if err != nil {
		return nil, "the definition is no valid file: " + err.Error()
	}
	fd := fds[0]
	type field struct {
		name, typ, comment string
		tag                int32
	}
	var want []field
	deps := map[string]bool{}
	for _, c := range m.cols {
		if c.Ignored {
			continue
		}
		want = append(want, field{c.ProtoName, c.ProtoType, vWords(c.Comment + " csv field: " + fmt.Sprintf("%q", c.ColName)), c.ProtoTag})
		for _, i := range c.ProtoImports {
			deps[i] = true
		}
	}
	for _, x := range m.m.ExtraFieldDefinitions {
		want = append(want, field{x.ProtoName, x.ProtoType, vWords(x.Comment), x.ProtoTag})
		for _, i := range x.ProtoImports {
			deps[i] = true
		}
	}
	var a, b []string
	for d := range deps {
		a = append(a, d)
	}
	b = append(b, fd.AsFileDescriptorProto().GetDependency()...)
	sort.Strings(a)
	sort.Strings(b)
	if fmt.Sprint(a) != fmt.Sprint(b) {
		return nil, fmt.Sprintf("imports %q, expected %q", b, a)
	}
	if fd.GetPackage() != m.m.PackageName || len(fd.GetMessageTypes()) != 1 || fd.GetMessageTypes()[0].GetName() != m.m.MessageName || len(fd.GetEnumTypes())+len(fd.GetServices())+len(fd.GetExtensions()) != 0 {
		return nil, "something other than the one message is declared"
	}
	md := fd.GetMessageTypes()[0]
	if len(md.GetNestedMessageTypes())+len(md.GetNestedEnumTypes())+len(md.GetOneOfs()) != 0 {
		return nil, "something other than fields is declared"
	}
	for i := 0; i < len(want) || i < len(md.GetFields()); i++ {
		if i >= len(want) {
			return nil, fmt.Sprintf("the field %s is not expected", md.GetFields()[i].GetName())
		}
		if i >= len(md.GetFields()) {
			return nil, fmt.Sprintf("no field is declared for %s", want[i].name)
		}
		f := md.GetFields()[i]
		typ := strings.ToLower(strings.TrimPrefix(f.GetType().String(), "TYPE_"))
		if f.GetMessageType() != nil {
			typ = f.GetMessageType().GetFullyQualifiedName()
		}
		got := field{f.GetName(), typ, vWords(f.GetSourceInfo().GetLeadingComments()), f.GetNumber()}
		if got != want[i] || f.IsRepeated() {
			return nil, fmt.Sprintf("field %d is %+v, expected %+v", i, got, want[i])
		}
		if f.GetSourceInfo().GetTrailingComments() != "" {
			return nil, fmt.Sprintf("the field %s has a second comment %q", f.GetName(), f.GetSourceInfo().GetTrailingComments())
		}
	}
	return fd, ""
}

// vGoNames finds the names that the Go code of the message has.
func vGoNames(fd *desc.FileDescriptor, path string) (msg string, fields []string) {
	req := &pluginpb.CodeGeneratorRequest{FileToGenerate: []string{fd.GetName()}}
	seen := map[string]bool{}
	var visit func(f *desc.FileDescriptor)
	visit = func(f *desc.FileDescriptor) {
		if seen[f.GetName()] {
			return
		}
		seen[f.GetName()] = true
		for _, d := range f.GetDependencies() {
			visit(d)
		}
		x := proto.Clone(f.AsProto().(proto.Message)).(*dpbuf.FileDescriptorProto)
		if x.Options == nil {
			x.Options = &dpbuf.FileOptions{}
		}
		g := "example.com/" + strings.Replace(f.GetName(), " ", "_", -1)
		x.Options.GoPackage = &g
		req.ProtoFile = append(req.ProtoFile, x)
	}
	visit(fd)
	pl, err := protogen.Options{}.New(req)
	if err != nil {
		panic(err)
	}
	m := pl.FilesByPath[fd.GetName()].Messages[0]
	for _, f := range m.Fields {
		fields = append(fields, f.GoName)
	}
	return m.GoIdent.GoName, fields
}

var vGoTypes = map[string]string{"int32": "int32", "int64": "int64", "float": "float32", "double": "float64", "string": "string", "google.protobuf.Timestamp": "*timestamppb.Timestamp", "google.protobuf.Duration": "*durationpb.Duration"}

// vPrograms builds and runs the generated converters.
func vPrograms(t *testing.T, r *rand.Rand, ms []*vMapping, codes []string, fds []*desc.FileDescriptor) {
	dir, err := ioutil.TempDir("", "verif")
	if err != nil {
		t.Skip(err)
	}
	defer os.RemoveAll(dir)
	root, _ := os.Getwd()
	root = filepath.Dir(root)
	overlay := struct{ Replace map[string]string }{map[string]string{}}
	if b, err := ioutil.ReadFile(os.Getenv("VERIF_OVERLAY")); err == nil {
		json.Unmarshal(b, &overlay)
	}
	put := func(path, text string) {
		real := filepath.Join(dir, strings.Replace(path, "/", "_", -1))
		if err := ioutil.WriteFile(real, []byte(text), 0o644); err != nil {
			panic(err)
		}
		overlay.Replace[filepath.Join(root, "zzverif", path)] = real
	}
	var imports, body strings.Builder
	for i, m := range ms {
		msg, names := vGoNames(fds[i], "")
		var pb strings.Builder
		fmt.Fprintf(&pb, "package pb\n\nimport (\n\t\"google.golang.org/protobuf/reflect/protoreflect\"\n\t\"google.golang.org/protobuf/types/known/timestamppb\"\n\t\"google.golang.org/protobuf/types/known/durationpb\"\n)\n\nvar _ timestamppb.Timestamp\nvar _ durationpb.Duration\n\ntype %s struct {\n", msg)
		k := 0
		for _, c := range m.cols {
			if !c.Ignored {
				c.goName = names[k]
				fmt.Fprintf(&pb, "\t%s %s\n", names[k], vGoTypes[c.ProtoType])
				k++
			}
		}
		for _, x := range m.m.ExtraFieldDefinitions {
			fmt.Fprintf(&pb, "\t%s %s\n", names[k], vGoTypes[x.ProtoType])
			k++
		}
		fmt.Fprintf(&pb, "}\n\nfunc (*%s) ProtoReflect() protoreflect.Message { return nil }\n", msg)
		put(fmt.Sprintf("c%d/pb/pb.go", i), pb.String())
		put(fmt.Sprintf("c%d/conv.go", i), codes[i])
		fmt.Fprintf(&imports, "\tc%d %q\n", i, fmt.Sprintf("%s/zzverif/c%d", vModule, i))

		cols := append([]*vColumn{}, m.cols...)
		r.Shuffle(len(cols), func(i, j int) { cols[i], cols[j] = cols[j], cols[i] })
		var text bytes.Buffer
		w := csv.NewWriter(&text)
		header := []string{"unused"}
		for _, c := range cols {
			header = append(header, c.ColName)
		}
		w.Write(header)
		for row := 0; row < 3; row++ {
			cells := []string{"u"}
			for _, c := range cols {
				s, want := "anything", ""
				if !c.Ignored {
					s, want = m.value(r, c)
				}
				c.values, c.want = append(c.values, s), append(c.want, want)
				cells = append(cells, s)
			}
			w.Write(cells)
		}
		w.Flush()
		fmt.Fprintf(&body, "\tfunc() {\n\t\tr, err := c%d.NewReader(strings.NewReader(%q))\n\t\tif err != nil {\n\t\t\temit(%d, \"error\", err)\n\t\t\treturn\n\t\t}\n\t\tall, err := r.ReadAll()\n\t\temit(%d, \"error\", err)\n\t\temit(%d, \"rows\", len(all))\n\t\tfor _, m := range all {\n\t\t\t_ = m\n", i, text.String(), i, i, i)
		for _, c := range m.cols {
			if c.Ignored {
				continue
			}
			switch {
			case strings.HasPrefix(c.ProtoType, "google."):
				fmt.Fprintf(&body, "\t\t\temit(%d, %q, fmt.Sprint(m.%s.GetSeconds(), \" \", m.%[3]s.GetNanos()))\n", i, c.goName, c.goName)
			default:
				fmt.Fprintf(&body, "\t\t\temit(%d, %q, m.%s)\n", i, c.goName, c.goName)
			}
		}
		body.WriteString("\t\t}\n\t}()\n")
	}
	put("main.go", "package main\n\nimport (\n\t\"encoding/json\"\n\t\"fmt\"\n\t\"os\"\n\t\"strings\"\n\n"+imports.String()+")\n\nvar out = map[string][]string{}\n\nfunc emit(i int, key string, v interface{}) {\n\tk := fmt.Sprint(i, \" \", key)\n\tout[k] = append(out[k], fmt.Sprint(v))\n}\n\nfunc main() {\n\t_ = strings.NewReader\n"+body.String()+"\tjson.NewEncoder(os.Stdout).Encode(out)\n}\n")
	ov := filepath.Join(dir, "overlay.json")
	b, _ := json.Marshal(overlay)
	ioutil.WriteFile(ov, b, 0o644)
	bin := filepath.Join(dir, "prog")
	cmd := exec.Command("go", "build", "-overlay", ov, "-o", bin, "./zzverif")
	cmd.Dir = root
	if out, err := cmd.CombinedOutput(); err != nil {
		text := string(out)
		for i, m := range ms {
			if j := strings.Index(text, fmt.Sprintf("zzverif/c%d/conv.go:", i)); j >= 0 {
				vFail(t, "P01", "converter-compiles", m.String(), text[j:]+"\n"+codes[i])
				return
			}
			if strings.Contains(text, fmt.Sprintf("c%d.", i)) && strings.Contains(text, "undefined: c") {
				vFail(t, "P01", "converter-compiles", m.String(), text)
				return
			}
		}
		t.Logf("the converters were not built: %s", text)
		return
	}
	run := exec.Command(bin)
	run.Dir = dir
	var stderr bytes.Buffer
	run.Stderr = &stderr
	res, err := run.Output()
	got := map[string][]string{}
	if err != nil || json.Unmarshal(res, &got) != nil {
		vFail(t, "P01", "converter-runs", fmt.Sprint(ms), fmt.Sprint(err, " ", stderr.String()))
		return
	}
	for i, m := range ms {
		vCase("P01", "converter of "+m.String())
		at := func(key string) []string { return got[fmt.Sprint(i, " ", key)] }
		if e := at("error"); len(e) != 1 || e[0] != "<nil>" {
			vFail(t, "P01", "converter-reads", m.String(), fmt.Sprint("the converter fails: ", e))
			continue
		}
		if n := at("rows"); len(n) != 1 || n[0] != "3" {
			vFail(t, "P01", "converter-reads", m.String(), fmt.Sprint("the converter reads ", n, " rows of 3"))
			continue
		}
		for _, c := range m.cols {
			if c.Ignored {
				continue
			}
			if fmt.Sprintf("%q", at(c.goName)) != fmt.Sprintf("%q", c.want) {
				vFail(t, "P01", "converter-values", m.String(), fmt.Sprintf("the field of column %q is %q, expected %q", c.ColName, at(c.goName), c.want))
			}
		}
	}
}

func TestVerif_P01(t *testing.T) {
	r := vRand(701)
	var ms []*vMapping
	var codes []string
	var fds []*desc.FileDescriptor
	for i := 0; i < vScale(40); i++ {
		m := vMappingFor(r, i)
		before := proto.Clone(m.m)
		protoCode, goCode, err := GenerateCode(m.m, true, true)
		if err != nil {
			vFail(t, "P01", "refused", m.String(), err.Error())
			continue
		}
		if !proto.Equal(before, m.m) {
			vFail(t, "P01", "mapping-changed", m.String(), "the mapping is changed")
		}
		fd, msg := vSchema(m, protoCode)
		if msg != "" {
			vFail(t, "P01", "schema", m.String(), msg+"\n"+protoCode)
			continue
		}
		m.m.GoOptions.ProtoImport = fmt.Sprintf("%s/zzverif/c%d/pb", vModule, len(ms))
		_, goCode, _ = GenerateCode(m.m, false, true)
		ms, codes, fds = append(ms, m), append(codes, goCode), append(fds, fd)
	}
	if len(ms) > 0 {
		vPrograms(t, r, ms, codes, fds)
	}
	vDone("P01")
}

func TestVerif_P01_schema(t *testing.T) {
	r := vRand(702)
	for i := 0; i < vScale(1500); i++ {
		m := vMappingFor(r, i)
		vCase("P01", m.String())
		protoCode, goCode, err := GenerateCode(m.m, true, false)
		if err != nil || goCode != "" {
			vFail(t, "P01", "schema", m.String(), fmt.Sprint("schema alone: ", err, goCode))
			continue
		}
		if _, msg := vSchema(m, protoCode); msg != "" {
			vFail(t, "P01", "schema", m.String(), msg+"\n"+protoCode)
		}
		protoCode, goCode, err = GenerateCode(m.m, false, true)
		if err != nil || protoCode != "" || goCode == "" {
			vFail(t, "P01", "converter", m.String(), fmt.Sprint("converter alone: ", err, protoCode))
		}
	}
	vDone("P01")
}

func TestVerif_P01_errors(t *testing.T) {
	r := vRand(703)
	for _, typ := range []string{"bool", "bytes", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "", "Timestamp", "google.protobuf.Any", "google.protobuf.timestamp", "int", "Int32", "repeated string", "my.Enum", "google.protobuf.Duration ", "float64"} {
		for i := 0; i < 20; i++ {
			m := vMappingFor(r, i)
			if len(m.cols) == 0 {
				continue
			}
			k := r.Intn(len(m.cols))
			c := m.cols[k]
			c.ProtoType, c.Ignored = typ, i%5 == 0
			vCase("P01", m.String())
			_, code, err := GenerateCode(m.m, false, true)
			if (err == nil) != c.Ignored || err != nil && code != "" {
				vFail(t, "P01", "unsupported-type", m.String(), fmt.Sprintf("type %q: error %v", typ, err))
			}
		}
	}
	vDone("P01")
}
