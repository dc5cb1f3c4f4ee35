package recordinfer

import (
	"fmt"
	"math/rand"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/golang/protobuf/proto"

	pb "github.com/google/xtoproto/proto/recordtoproto"
)

var vLayouts = []string{
	"2006-01-02 15:04:05", "2006-01-02 03:04:05 PM", "1/2/2006 3:04:05 PM",
	time.ANSIC, time.UnixDate, time.RubyDate, time.RFC822, time.RFC822Z, time.RFC850,
	time.RFC1123, time.RFC1123Z, time.RFC3339, time.RFC3339Nano, time.Kitchen,
	time.Stamp, time.StampMilli, time.StampMicro, time.StampNano,
	"2006-1-2", "2006/1/2", "20060102",
}

func vZone(r *rand.Rand) *time.Location {
	switch r.Intn(4) {
	case 0:
		return nil
	case 1:
		return time.UTC
	}
	loc, err := time.LoadLocation([]string{"America/New_York", "Asia/Tokyo", "Europe/Berlin"}[r.Intn(3)])
	if err != nil {
		return time.UTC
	}
	return loc
}

func vOther(r *rand.Rand) string {
	return []string{"", "abc", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "1e10", "1e39", "3.4e38", "NaN", "Inf", "-inf", "0x10", "1_000", "0", "+5", "007", "1.0", ".5", "20190102", "20191332", "2019-2-30", "2019-02-03", "2019-1-2", "2019/1/2", "10/11/12", "12:00AM", " 1", "1 ", "true", "ünï", "a\"b", "a\nb", "5 (3)"}[r.Intn(33)]
}

func vTime(r *rand.Rand, layout string) string {
	t := time.Unix(r.Int63n(4e9), r.Int63n(1e9)).UTC()
	if r.Intn(3) == 0 {
		t = time.Date(2019, time.Month(1+r.Intn(12)), 1+r.Intn(28), r.Intn(24), 0, 0, 0, time.UTC)
	}
	return t.Format(layout)
}

func vColumn(r *rand.Rand, n int) []string {
	var out []string
	kind, layout := r.Intn(6), vLayouts[r.Intn(len(vLayouts))]
	odd := -1
	if r.Intn(3) == 0 {
		odd = r.Intn(n)
		if r.Intn(2) == 0 {
			odd = n - 1
		}
	}
	few := []string{vOther(r), vOther(r), vOther(r)}
	for i := 0; i < n; i++ {
		v := ""
		switch kind {
		case 0:
			v = vTime(r, layout)
		case 1:
			v = fmt.Sprint(r.Int63() >> uint(r.Intn(63)))
		case 2:
			v = strconv.FormatFloat(r.NormFloat64()*1000, 'g', -1, 64)
		case 3:
			v = fmt.Sprint(r.Intn(4))
		case 4:
			v = few[r.Intn(3)]
		case 5:
			v = string('a' + rune(r.Intn(8)))
		}
		if i == odd {
			v = vOther(r)
			if r.Intn(2) == 0 {
				v = vTime(r, vLayouts[r.Intn(len(vLayouts))])
			}
		}
		out = append(out, v)
	}
	return out
}

// vWant is the type of a column by the rules of the property.
func vWant(vals []string, loc *time.Location) (typ, layout string) {
	for _, l := range vLayouts {
		ok := true
		for _, v := range vals {
			var err error
			if loc == nil {
				_, err = time.Parse(l, v)
			} else {
				_, err = time.ParseInLocation(l, v, loc)
			}
			ok = ok && err == nil
		}
		if ok {
			return "google.protobuf.Timestamp", l
		}
	}
	ints, floats := true, true
	for _, v := range vals {
		_, err := strconv.ParseInt(v, 10, 64)
		ints = ints && err == nil
		_, err = strconv.ParseFloat(v, 32)
		floats = floats && err == nil
	}
	if ints {
		return "int64", ""
	}
	if floats {
		return "float", ""
	}
	return "string", ""
}

func vComment(vals []string) string {
	counts := map[string]int{}
	for _, v := range vals {
		counts[v]++
	}
	var keys []string
	for k := range counts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	sort.SliceStable(keys, func(i, j int) bool { return counts[keys[i]] > counts[keys[j]] })
	if len(keys) > 5 {
		keys = keys[:5]
	}
	var parts []string
	for _, k := range keys {
		parts = append(parts, fmt.Sprintf("%q (%d)", k, counts[k]))
	}
	return fmt.Sprintf("Field type inferred from %d unique values in %d rows; %d most common: %s", len(counts), len(vals), len(keys), strings.Join(parts, "; "))
}

func vTable(r *rand.Rand) ([][]string, *Options) {
	cols, n := 1+r.Intn(5), 1+r.Intn(7)
	if r.Intn(10) == 0 {
		n = 40
	}
	names := []string{"a", "Big Name", "x_y", "Time (UTC)", "col", "naïve", "é", "AlphaBet", "__z__", "Q1/Q2", "quote\"d"}
	var data [][]string
	header := []string{}
	for c := 0; c < cols; c++ {
		data = append(data, vColumn(r, n))
		header = append(header, names[r.Intn(len(names))]+fmt.Sprint(c))
		if c > 0 && r.Intn(6) == 0 {
			data[c] = append([]string{}, data[c-1]...)
		}
	}
	rows := [][]string{header}
	for i := 0; i < n; i++ {
		var row []string
		for c := 0; c < cols; c++ {
			row = append(row, data[c][i])
		}
		rows = append(rows, row)
	}
	o := &Options{MessageName: "Msg" + fmt.Sprint(r.Intn(9)), PackageName: "pkg" + fmt.Sprint(r.Intn(9)), TimestampLocation: vZone(r)}
	if r.Intn(2) == 0 {
		o.GoPackageName = "gopkg"
	}
	if r.Intn(2) == 0 {
		o.GoProtoImport = "path/to/x"
	}
	return rows, o
}

func vBuild(rows [][]string, o *Options) (*InferredProto, error) {
	b := NewRecordBasedInferrer(o)
	for _, row := range rows {
		if err := b.AddRow(row); err != nil {
			return nil, err
		}
	}
	return b.Build()
}

func TestVerif_R01_types(t *testing.T) {
	r := vRand(701)
	for i := 0; i < vScale(3000); i++ {
		rows, o := vTable(r)
		in := fmt.Sprintf("rows %q, zone %v", rows, o.TimestampLocation)
		vCase("R01", in)
		ip, err := vBuild(rows, o)
		if err != nil {
			vFail(t, "R01", "refused", in, err.Error())
			continue
		}
		m := ip.Mapping().GetColumnToFieldMappings()
		if len(m) != len(rows[0]) {
			vFail(t, "R01", "columns", in, fmt.Sprint(len(m), " columns"))
			continue
		}
		for c := range rows[0] {
			var vals []string
			single := [][]string{}
			for k, row := range rows {
				if k > 0 {
					vals = append(vals, row[c])
				}
				single = append(single, []string{row[c]})
			}
			typ, layout := vWant(vals, o.TimestampLocation)
			got := m[c]
			if got.GetProtoType() != typ || got.GetTimeFormat().GetGoLayout() != layout {
				vFail(t, "R01", "type", in, fmt.Sprintf("column %d is inferred as %s %q, expected %s %q", c, got.GetProtoType(), got.GetTimeFormat().GetGoLayout(), typ, layout))
			}
			if zone := got.GetTimeFormat().GetTimeZoneName(); typ == "google.protobuf.Timestamp" {
				want := ""
				if o.TimestampLocation != nil {
					want = o.TimestampLocation.String()
				}
				if zone != want {
					vFail(t, "R01", "zone", in, fmt.Sprintf("column %d is in zone %q, expected %q", c, zone, want))
				}
			}
			alone, err := vBuild(single, o)
			if err != nil {
				vFail(t, "R01", "alone", in, err.Error())
			} else if a := alone.Mapping().GetColumnToFieldMappings()[0]; a.GetProtoType() != got.GetProtoType() || a.GetTimeFormat().GetGoLayout() != got.GetTimeFormat().GetGoLayout() {
				vFail(t, "R01", "other-columns", in, fmt.Sprintf("column %d alone is inferred as %s", c, a))
			}
		}
	}
	vDone("R01")
}

func TestVerif_R01_refused(t *testing.T) {
	r := vRand(702)
	for i := 0; i < vScale(1000); i++ {
		rows, o := vTable(r)
		in := fmt.Sprintf("rows %q", rows)
		vCase("R01", "refusals "+in)
		b := NewRecordBasedInferrer(o)
		accepted := [][]string{}
		for _, row := range rows {
			if r.Intn(4) == 0 {
				row = append(append([]string{}, row...), "x")
			} else if r.Intn(4) == 0 {
				row = row[:len(row)-1]
			}
			err := b.AddRow(row)
			ok := len(accepted) == 0 || len(row) == len(accepted[0])
			if (err == nil) != ok {
				vFail(t, "R01", "ragged", in, fmt.Sprintf("row %q after %q: %v", row, accepted, err))
			}
			if err == nil {
				accepted = append(accepted, row)
			}
			if r.Intn(12) == 0 {
				break
			}
		}
		ip, err := b.Build()
		ok := len(accepted) >= 2 && len(accepted[0]) > 0
		if (err == nil) != ok {
			vFail(t, "R01", "few", in, fmt.Sprintf("rows %q: %v", accepted, err))
		}
		if err != nil || !ok {
			continue
		}
		again, err := vBuild(accepted, o)
		if err != nil || !proto.Equal(ip.Mapping(), again.Mapping()) {
			vFail(t, "R01", "refused-counts", in, fmt.Sprintf("a refused row changes what is inferred from %q", accepted))
		}
	}
	vDone("R01")
}

var vFieldLine = regexp.MustCompile(`(?m)^\s+([\w.]+) (\w*) = (\d+);$`)
var vImportLine = regexp.MustCompile(`(?m)^import "(.*)";$`)

func TestVerif_R02_mapping(t *testing.T) {
	r := vRand(703)
	for i := 0; i < vScale(3000); i++ {
		rows, o := vTable(r)
		in := fmt.Sprintf("rows %q, options %+v", rows, *o)
		vCase("R02", in)
		ip, err := vBuild(rows, o)
		if err != nil {
			vFail(t, "R02", "refused", in, err.Error())
			continue
		}
		m := ip.Mapping()
		if m.GetMessageName() != o.MessageName || m.GetPackageName() != o.PackageName || m.GetGoOptions().GetGoPackageName() != o.GoPackageName || m.GetGoOptions().GetProtoImport() != o.GoProtoImport {
			vFail(t, "R02", "names", in, m.String())
		}
		fs := m.GetColumnToFieldMappings()
		if len(fs) != len(rows[0]) || len(m.GetExtraFieldDefinitions()) != 0 {
			vFail(t, "R02", "entries", in, m.String())
			continue
		}
		imports := map[string]bool{}
		code := ip.Code()
		lines := vFieldLine.FindAllStringSubmatch(code, -1)
		if len(lines) != len(fs) {
			vFail(t, "R02", "fields", in, code)
			continue
		}
		for c, f := range fs {
			var vals []string
			for _, row := range rows[1:] {
				vals = append(vals, row[c])
			}
			if f.GetColName() != rows[0][c] || f.GetColumnIndex() != int32(c) || f.GetProtoTag() != int32(c+1) || f.GetIgnored() {
				vFail(t, "R02", "entry", in, fmt.Sprintf("entry %d is %v", c, f))
			}
			if f.GetComment() != vComment(vals) {
				vFail(t, "R02", "comment", in, fmt.Sprintf("the comment of column %d is %s, expected %s", c, f.GetComment(), vComment(vals)))
			}
			if l := lines[c]; l[1] != f.GetProtoType() || l[2] != f.GetProtoName() || l[3] != fmt.Sprint(f.GetProtoTag()) {
				vFail(t, "R02", "declared", in, fmt.Sprintf("%q declares %v", l[0], f))
			}
			if f.GetProtoType() == "google.protobuf.Timestamp" != (len(f.GetProtoImports()) == 1 && f.GetProtoImports()[0] == "google/protobuf/timestamp.proto") {
				vFail(t, "R02", "imports", in, fmt.Sprintf("entry %d is %v", c, f))
			}
			for _, p := range f.GetProtoImports() {
				imports[p] = true
			}
		}
		got := vImportLine.FindAllStringSubmatch(code, -1)
		if len(got) != len(imports) {
			vFail(t, "R02", "code-imports", in, code)
		}
		for _, g := range got {
			if !imports[g[1]] {
				vFail(t, "R02", "code-imports", in, code)
			}
		}
		if !strings.Contains(code, "package "+o.PackageName+";") || !strings.Contains(code, "message "+o.MessageName+" {") {
			vFail(t, "R02", "code-names", in, code)
		}
		back := &pb.RecordProtoMapping{}
		if err := proto.UnmarshalText(ip.FormattedMapping(&pb.RecordProtoMapping{}), back); err != nil || !proto.Equal(back, m) {
			vFail(t, "R02", "formatted", in, fmt.Sprint(err, ip.FormattedMapping(&pb.RecordProtoMapping{})))
		}
	}
	vDone("R02")
}
