package service

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"strings"
	"testing"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/google/xtoproto/csvinfer"
	"github.com/google/xtoproto/csvtoproto"
	"github.com/google/xtoproto/recordinfer"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"

	rpb "github.com/google/xtoproto/proto/recordtoproto"
	spb "github.com/google/xtoproto/proto/service"
)

type vWrapped struct{ err error }

func (w vWrapped) Error() string { return "wrapped" }
func (w vWrapped) Unwrap() error { return w.err }

// vFileErr is an error of a file operation and the status it must get (Unknown
// stands for any status that names neither cause).
func vFileErr(r *rand.Rand) (error, codes.Code) {
	switch r.Intn(9) {
	case 0:
		return os.ErrNotExist, codes.NotFound
	case 1:
		return &os.PathError{Op: "open", Path: "x", Err: os.ErrNotExist}, codes.NotFound
	case 2:
		return fmt.Errorf("opening: %w", os.ErrNotExist), codes.NotFound
	case 3:
		return vWrapped{vWrapped{os.ErrNotExist}}, codes.NotFound
	case 4:
		return os.ErrPermission, codes.PermissionDenied
	case 5:
		return fmt.Errorf("writing: %w", &os.PathError{Op: "open", Path: "x", Err: os.ErrPermission}), codes.PermissionDenied
	case 6:
		return vWrapped{os.ErrPermission}, codes.PermissionDenied
	case 7:
		return io.ErrUnexpectedEOF, codes.Unknown
	}
	return errors.New("file does not exist"), codes.Unknown
}

func vStatusOK(err error, want codes.Code) bool {
	c := status.Code(err)
	if err == nil || c == codes.OK {
		return false
	}
	if want == codes.Unknown {
		return c != codes.NotFound && c != codes.PermissionDenied && c != codes.InvalidArgument
	}
	return c == want
}

func vDir(r *rand.Rand) string {
	parts := []string{"a", "b", "..", ".", "", "a.b", "..x", "...", "dir/sub", "../.."}
	n := r.Intn(5)
	var out []string
	for i := 0; i < n; i++ {
		p := parts[r.Intn(len(parts))]
		if strings.Contains(p, "..") && r.Intn(2) == 0 {
			p = "c"
		}
		out = append(out, p)
	}
	s := strings.Join(out, "/")
	if r.Intn(6) == 0 {
		s = "/" + s
	}
	if r.Intn(6) == 0 {
		s += "/"
	}
	return s
}

// vResolveLate resolves a relative path against a directory; ok is false when
// the path is absolute or empty, or does not lead strictly below the directory.
func vResolveLate(dir, name string) (string, bool) {
	if strings.HasPrefix(dir, "/") || strings.HasPrefix(name, "/") || name == "" {
		return "", false
	}
	var stack []string
	for _, p := range strings.Split(dir+"/"+name, "/") {
		switch {
		case p == "" || p == ".":
		case p == ".." && len(stack) > 0 && stack[len(stack)-1] != "..":
			stack = stack[:len(stack)-1]
		default:
			stack = append(stack, p)
		}
	}
	return strings.Join(stack, "/"), len(stack) > 0 && stack[0] != ".."
}

func vMapping(r *rand.Rand) *rpb.RecordProtoMapping {
	m := &rpb.RecordProtoMapping{PackageName: "pkg", MessageName: []string{"MyMessage", "", "X", "HTTPServer2"}[r.Intn(4)]}
	if r.Intn(6) != 0 {
		m.GoOptions = &rpb.GoOptions{GoPackageName: "conv", ProtoImport: "path/to/go_proto"}
	}
	for i := 0; i < r.Intn(4); i++ {
		m.ColumnToFieldMappings = append(m.ColumnToFieldMappings, &rpb.ColumnToFieldMapping{
			ColName: "c" + fmt.Sprint(i), ColumnIndex: int32(i), ProtoName: "c" + fmt.Sprint(i), ProtoTag: int32(i + 1),
			ProtoType: []string{"int64", "string", "float", "int32", "double", "bytes"}[r.Intn(6)], Ignored: r.Intn(5) == 0,
		})
	}
	return m
}

func TestVerif_V01_writes(t *testing.T) {
	r := vRand(801)
	names := []string{"", "x.proto", "sub/x.proto", "../x.proto", "a/../../x", "/abs.proto", "..", ".", "./y.go", "..y", "a/..", "n.go", "x/"}
	for i := 0; i < vScale(6000); i++ {
		req := &spb.GenerateCodeRequest{}
		if r.Intn(10) != 0 {
			req.Mapping = vMapping(r)
		}
		if r.Intn(3) != 0 {
			req.WorkspacePath = []string{"/ws", "/w/s/", "rel", "/ws/../other", "/"}[r.Intn(5)]
		}
		if r.Intn(4) != 0 {
			req.ProtoDefinition = &spb.GenerateCodeRequest_ProtoDefinition{Directory: vDir(r), ProtoFileName: names[r.Intn(len(names))]}
		}
		if r.Intn(4) != 0 {
			req.Converter = &spb.GenerateCodeRequest_Converter{Directory: vDir(r), GoFileName: names[r.Intn(len(names))]}
		}
		fail, failErr, failCode := -1, error(nil), codes.OK
		if r.Intn(4) == 0 {
			fail = r.Intn(2)
			failErr, failCode = vFileErr(r)
		}
		in := fmt.Sprintf("request %v, write %d fails with %v", req, fail, failErr)
		vCase("V01", in)
		type file struct {
			path string
			data []byte
		}
		var wrote []file
		reads := 0
		before := proto.Clone(req)
		s := New("/default", func(context.Context, string) ([]byte, error) { reads++; return nil, nil },
			func(ctx context.Context, p string, data []byte) error {
				if len(wrote) == fail {
					wrote = append(wrote, file{p, append([]byte{}, data...)})
					return failErr
				}
				wrote = append(wrote, file{p, append([]byte{}, data...)})
				return nil
			})
		var resp *spb.GenerateCodeResponse
		var err error
		if msg := vTry(func() { resp, err = s.GenerateCode(context.Background(), req) }); msg != "" {
			vFail(t, "V01", "panic", in, msg)
			continue
		}
		if !proto.Equal(before, req) || reads != 0 {
			vFail(t, "V01", "request", in, fmt.Sprint("the request is changed or a file is read"))
		}
		root := req.WorkspacePath
		if root == "" {
			root = "/default"
		}
		var want []file
		var rels []string
		ok := req.Mapping != nil
		var protoCode, goCode string
		if ok {
			var genErr error
			protoCode, goCode, genErr = csvtoproto.GenerateCode(req.Mapping, req.ProtoDefinition != nil, req.Converter != nil)
			ok = genErr == nil
		}
		base := func(suffix, dflt string) string {
			if req.Mapping.GetMessageName() == "" {
				return dflt
			}
			return map[string]string{"MyMessage": "my_message", "X": "x", "HTTPServer2": "http_server2"}[req.Mapping.GetMessageName()] + suffix
		}
		skip := false
		add := func(dir, name, text string) {
			rel, inside := vResolveLate(dir, name)
			ok = ok && inside
			full := strings.TrimRight(root, "/") + "/" + rel
			if root == "/ws/../other" {
				full = "/other/" + rel
			}
			want = append(want, file{full, []byte(text)})
			rels = append(rels, rel)
		}
		if p := req.ProtoDefinition; p != nil {
			name := p.ProtoFileName
			if name == "" {
				name = base(".proto", "untitled_record.proto")
				skip = skip || req.Mapping.GetMessageName() == "HTTPServer2"
			}
			add(p.Directory, name, protoCode)
		}
		if c := req.Converter; c != nil {
			name := c.GoFileName
			if name == "" {
				name = base(".go", "untitled_record_converter.go")
				skip = skip || req.Mapping.GetMessageName() == "HTTPServer2"
			}
			add(c.Directory, name, goCode)
		}
		if !ok {
			if err == nil || status.Code(err) != codes.InvalidArgument || len(wrote) != 0 {
				vFail(t, "V01", "refused", in, fmt.Sprintf("status %v (%v) after writing %d files", status.Code(err), err, len(wrote)))
			}
			continue
		}
		if skip {
			continue
		}
		failed := fail >= 0 && fail < len(want)
		n := len(want)
		if failed {
			n = fail + 1
		}
		if len(wrote) != n {
			vFail(t, "V01", "count", in, fmt.Sprintf("%d files are written, expected %d: %v", len(wrote), n, err))
			continue
		}
		for k := 0; k < n; k++ {
			if wrote[k].path != want[k].path {
				vFail(t, "V01", "where", in, fmt.Sprintf("file %d is written to %q, expected %q", k, wrote[k].path, want[k].path))
			}
			if !bytes.Equal(wrote[k].data, want[k].data) {
				vFail(t, "V01", "content", in, fmt.Sprintf("file %d is not the generated code: %q", k, wrote[k].data))
			}
		}
		if failed {
			if !vStatusOK(err, failCode) {
				vFail(t, "V01", "status", in, fmt.Sprintf("status %v (%v), expected %v", status.Code(err), err, failCode))
			}
			continue
		}
		if err != nil {
			vFail(t, "V01", "error", in, err.Error())
			continue
		}
		k := 0
		told := func(what string, f *spb.GenerateCodeResponse_File, asked bool) {
			if (f != nil) != asked {
				vFail(t, "V01", "told", in, fmt.Sprint(what, " in the response is ", f))
				return
			}
			if !asked {
				return
			}
			if f.WorkspaceRelativePath != rels[k] || !bytes.Equal(f.NewContents, want[k].data) {
				vFail(t, "V01", "told", in, fmt.Sprint(what, " in the response is ", f))
			}
			k++
		}
		told("the definition", resp.GetProtoFile(), req.ProtoDefinition != nil)
		told("the converter", resp.GetConverterGoFile(), req.Converter != nil)
	}
	vDone("V01")
}

func TestVerif_V02_inputs(t *testing.T) {
	r := vRand(802)
	texts := []string{"a,b\n1,2\n", "t\n2019-01-02 03:04:05\n", "", "a\n", "x,y\n1\n", "n\nabc\n", "\"", "h,i,j\n1,2.5,z\n3,4,5\n"}
	zones := []string{"", "UTC", "America/New_York", "Asia/Tokyo", "Nowhere/Land", "../etc/passwd", "Local", "est"}
	for i := 0; i < vScale(5000); i++ {
		req := &spb.InferRequest{MessageName: []string{"", "M", "Other"}[r.Intn(3)], PackageName: []string{"", "p", "q.r"}[r.Intn(3)], GoPackageName: []string{"", "g"}[r.Intn(2)], GoProtoImport: []string{"", "path/to/p"}[r.Intn(2)], TimestampLocation: zones[r.Intn(len(zones))], InputFormat: spb.Format_CSV}
		n := 1
		if r.Intn(6) == 0 {
			n = r.Intn(4)
		}
		files := map[string]string{"f0": texts[r.Intn(len(texts))], "f1": texts[r.Intn(len(texts))]}
		for k := 0; k < n; k++ {
			f := &spb.InputFile{}
			switch r.Intn(5) {
			case 0, 1:
				f.Spec = &spb.InputFile_InputContent{InputContent: []byte(texts[r.Intn(len(texts))])}
			case 2, 3:
				f.Spec = &spb.InputFile_InputPath{InputPath: []string{"f0", "f1", "missing", ""}[r.Intn(4)]}
			}
			req.ExampleInputs = append(req.ExampleInputs, f)
		}
		readErr, readCode := error(nil), codes.OK
		if r.Intn(5) == 0 {
			readErr, readCode = vFileErr(r)
		}
		in := fmt.Sprintf("request %v, files %q, read error %v", req, files, readErr)
		vCase("V02", in)
		var reads []string
		writes := 0
		before := proto.Clone(req)
		s := New("/default", func(_ context.Context, p string) ([]byte, error) {
			reads = append(reads, p)
			if readErr != nil {
				return []byte("a\n1\n"), readErr
			}
			if c, ok := files[p]; ok {
				return []byte(c), nil
			}
			return nil, os.ErrNotExist
		}, func(context.Context, string, []byte) error { writes++; return nil })
		var resp *spb.InferResponse
		var err error
		if msg := vTry(func() { resp, err = s.Infer(context.Background(), req) }); msg != "" {
			vFail(t, "V02", "panic", in, msg)
			continue
		}
		if !proto.Equal(before, req) || writes != 0 {
			vFail(t, "V02", "request", in, "the request is changed or a file is written")
		}
		loc, zoneErr := time.UTC, error(nil)
		if req.TimestampLocation != "" {
			loc, zoneErr = time.LoadLocation(req.TimestampLocation)
		}
		if zoneErr != nil || len(req.ExampleInputs) != 1 {
			if err == nil || status.Code(err) != codes.InvalidArgument || len(reads) != 0 {
				vFail(t, "V02", "refused", in, fmt.Sprintf("status %v (%v) after reading %q", status.Code(err), err, reads))
			}
			continue
		}
		f := req.ExampleInputs[0]
		text := string(f.GetInputContent())
		if text == "" {
			if f.GetInputPath() == "" {
				if err == nil || status.Code(err) != codes.InvalidArgument || len(reads) != 0 {
					vFail(t, "V02", "no-input", in, fmt.Sprintf("status %v (%v) after reading %q", status.Code(err), err, reads))
				}
				continue
			}
			if len(reads) != 1 || reads[0] != f.GetInputPath() {
				vFail(t, "V02", "read", in, fmt.Sprintf("reads %q", reads))
				continue
			}
			if c, ok := files[f.GetInputPath()]; readErr == nil && ok {
				text = c
			} else {
				if readErr == nil {
					readCode = codes.NotFound
				}
				if !vStatusOK(err, readCode) {
					vFail(t, "V02", "status", in, fmt.Sprintf("status %v (%v), expected %v", status.Code(err), err, readCode))
				}
				continue
			}
		} else if len(reads) != 0 {
			vFail(t, "V02", "read", in, fmt.Sprintf("reads %q although the content is given", reads))
		}
		want, wantErr := csvinfer.InferProto(text, &recordinfer.Options{MessageName: req.MessageName, PackageName: req.PackageName, GoPackageName: req.GoPackageName, GoProtoImport: req.GoProtoImport, TimestampLocation: loc})
		if (err == nil) != (wantErr == nil) {
			vFail(t, "V02", "error", in, fmt.Sprintf("the error is %v, expected %v", err, wantErr))
			continue
		}
		if err != nil {
			if status.Code(err) == codes.OK {
				vFail(t, "V02", "error", in, err.Error())
			}
			continue
		}
		got := resp.GetBestMappingCandidate().GetTopLevelMapping()
		if !proto.Equal(got, want.Mapping()) {
			vFail(t, "V02", "answer", in, fmt.Sprintf("answered %v, expected %v", got, want.Mapping()))
		}
		if got.GetMessageName() != req.MessageName || got.GetPackageName() != req.PackageName || got.GetGoOptions().GetGoPackageName() != req.GoPackageName || got.GetGoOptions().GetProtoImport() != req.GoProtoImport {
			vFail(t, "V02", "names", in, got.String())
		}
		for _, c := range got.GetColumnToFieldMappings() {
			if z := c.GetTimeFormat(); z != nil && z.GetTimeZoneName() != loc.String() {
				vFail(t, "V02", "zone", in, got.String())
			}
		}
		if len(resp.GetBestMappingCandidate().GetAdditionalMappings()) != 0 {
			vFail(t, "V02", "answer", in, resp.String())
		}
	}
	vDone("V02")
}
