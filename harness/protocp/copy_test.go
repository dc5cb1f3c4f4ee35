package protocp

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"strings"
	"testing"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/wrapperspb"
)

// vLog is the history of one copy.
type vLog struct{ ev []string }

func (l *vLog) add(f string, a ...interface{}) { l.ev = append(l.ev, fmt.Sprintf(f, a...)) }

type vReader struct {
	n, total, failAt int
	err              error
}

func (r *vReader) ReadMessage() (proto.Message, error) {
	if r.n == r.failAt {
		return nil, r.err
	}
	if r.n >= r.total {
		return nil, io.EOF
	}
	r.n++
	return wrapperspb.Int64(int64(r.n - 1)), nil
}

type vWriter struct {
	id, failAt int
	finErr     bool
	got        []int64
	fin        int
	finAfter   int
	late       bool
	log        *vLog
}

var vErr = errors.New("planned failure")

func (w *vWriter) addRow(ctx context.Context, m proto.Message) error {
	w.got = append(w.got, m.(*wrapperspb.Int64Value).Value)
	w.late = w.late || w.fin > 0
	if len(w.got)-1 == w.failAt {
		return vErr
	}
	return nil
}
func (w *vWriter) finalize(ctx context.Context) error {
	w.fin++
	if w.finErr {
		return vErr
	}
	return nil
}

type vFile struct {
	io.Reader
	closed   int
	closeErr error
}

func (f *vFile) Close() error { f.closed++; return f.closeErr }

type vFS struct {
	f   *vFile
	err error
}

func (fs *vFS) OpenRead(context.Context, string) (io.ReadCloser, error) {
	if fs.err != nil {
		return nil, fs.err
	}
	return fs.f, nil
}

func TestVerif_K01(t *testing.T) {
	const P = "K01"
	defer vDone(P)
	r := vRand(41)
	for n := 0; n < vScale(6000); n++ {
		total := r.Intn(5)
		if r.Intn(20) == 0 {
			total = 200 + r.Intn(100)
		}
		rd := &vReader{total: total, failAt: -1, err: vErr}
		if r.Intn(4) == 0 {
			rd.failAt = r.Intn(total + 1)
			if r.Intn(4) == 0 {
				rd.err = io.ErrUnexpectedEOF
			}
		}
		openErr := r.Intn(12) == 0
		nw := r.Intn(4)
		var ws []*vWriter
		var mw []MessageWriter
		for i := 0; i < nw; i++ {
			w := &vWriter{id: i, failAt: -1, finErr: r.Intn(6) == 0}
			if r.Intn(7) == 0 {
				w.failAt = r.Intn(total + 1)
			}
			ws = append(ws, w)
			mw = append(mw, w)
		}
		var dst MessageWriter
		shape := "flat"
		switch {
		case nw == 1 && r.Intn(2) == 0:
			dst = mw[0]
			shape = "single"
		case nw == 3 && r.Intn(2) == 0:
			shape = "nested"
			dst = NewCompositeRecordWriter(mw[0], NewCompositeRecordWriter(mw[1:]...))
		default:
			dst = NewCompositeRecordWriter(mw...)
		}
		var d []string
		for _, w := range ws {
			d = append(d, fmt.Sprintf("writer(fails at %d, finalise error %v)", w.failAt, w.finErr))
		}
		useFile := r.Intn(2) == 0
		fl := &vFile{Reader: bytes.NewReader(nil)}
		fs := &vFS{f: fl}
		if useFile && r.Intn(4) == 0 {
			fl.closeErr = vErr
		}
		if useFile && r.Intn(10) == 0 {
			fs.err = vErr
		}
		in := fmt.Sprintf("%d records, reader fails at %d (%v), reader constructor fails %v, %s %s, file %v close error %v open error %v", total, rd.failAt, rd.err, openErr, shape, strings.Join(d, ", "), useFile, fl.closeErr, fs.err)
		vCase(P, in)
		cp := NewCopier(func(io.Reader) (MessageReader, error) {
			if openErr {
				return nil, vErr
			}
			return rd, nil
		})
		var err error
		if m := vTry(func() {
			if useFile {
				err = cp.CopyFile(context.Background(), fs, "f", dst)
			} else {
				err = cp.Copy(context.Background(), nil, dst)
			}
		}); m != "" {
			vFail(t, P, "panic", in, m)
			continue
		}
		// the number of records each writer is to receive: the first failing
		// record ends the copy
		deliver := total
		failed := openErr || fs.err != nil
		if failed {
			deliver = 0
		}
		if !failed && rd.failAt >= 0 {
			failed = true
			deliver = rd.failAt
		}
		stopAt := -1 // record at which a writer failed
		for _, w := range ws {
			if w.failAt >= 0 && w.failAt < deliver && (stopAt < 0 || w.failAt < stopAt) {
				stopAt = w.failAt
			}
		}
		if stopAt >= 0 {
			failed = true
			deliver = stopAt + 1
		}
		finFail := false
		stopped := false
		for i, w := range ws {
			want := deliver
			if stopped {
				want--
			}
			if stopAt >= 0 && w.failAt == stopAt {
				stopped = true
			}
			// at the failing record the later writers may or may not be served
			if len(w.got) != want && !(stopped && stopAt >= 0 && len(w.got) == deliver-1 && w.failAt != stopAt) {
				vFail(t, P, "records", in, fmt.Sprintf("writer %d received %d records, want %d", i, len(w.got), want))
				break
			}
			for k, v := range w.got {
				if v != int64(k) {
					vFail(t, P, "order", in, fmt.Sprintf("writer %d received record %d in place %d", i, v, k))
					break
				}
			}
			if w.fin > 1 || (!failed && w.fin != 1) || w.late {
				vFail(t, P, "finalise", in, fmt.Sprintf("writer %d was finalised %d times (record after it: %v)", i, w.fin, w.late))
				break
			}
			finFail = finFail || (w.fin == 1 && w.finErr)
		}
		if useFile && fs.err == nil && fl.closed != 1 {
			vFail(t, P, "close", in, fmt.Sprintf("file closed %d times", fl.closed))
		}
		wantErr := failed || finFail || (useFile && fl.closeErr != nil)
		if (err != nil) != wantErr {
			vFail(t, P, "error", in, fmt.Sprintf("returned %v, want an error: %v", err, wantErr))
		}
	}
}
