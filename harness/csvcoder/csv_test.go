package csvcoder_test

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"github.com/google/xtoproto/csvcoder"
)

type vRec struct {
	A string `csv:"a"`
	B string `csv:"bb"`
	N int64  `csv:"n"`
	C string
	U string `csv-skip:"true"`
	D bool   `csv:"d d"`
}

var vCols = []string{"a", "bb", "n", "C", "d d"}

func vCell(r *rand.Rand) string {
	return []string{"", "x", "y z", "α", "0", "true", "\"q\"", ",", "\n", "12"}[r.Intn(10)] + strconv.Itoa(r.Intn(100))
}

// vHeader gives a header with the wanted columns somewhere and others between.
func vHeader(r *rand.Rand, must []string) []string {
	h := append([]string{}, must...)
	for i := r.Intn(4); i > 0; i-- {
		h = append(h, fmt.Sprintf("other%d", i))
	}
	r.Shuffle(len(h), func(i, j int) { h[i], h[j] = h[j], h[i] })
	return h
}

func TestVerif_C01(t *testing.T) {
	const P = "C01"
	defer vDone(P)
	r := vRand(31)
	// numbers
	for _, n := range []int{-5, -1, 0, 1, 2, 7, 1 << 40} {
		vCase(P, fmt.Sprint("number ", n))
		c, w := csvcoder.ColumnNumber(n), csvcoder.RowNumber(n)
		if c.Offset() != n || c.IsValid() != (n >= 0) || w.Offset() != n || w.IsValid() != (n >= 0) || w.Ordinal() != n+1 {
			vFail(t, P, "numbers", fmt.Sprint(n), fmt.Sprintf("column %v %v, row %v %v ordinal %v", c.Offset(), c.IsValid(), w.Offset(), w.IsValid(), w.Ordinal()))
		}
	}
	names := []string{"a", "b", "c", "", "A", "a ", "α", "d", "e"}
	for n := 0; n < vScale(3000); n++ {
		k := r.Intn(7)
		h := make([]string, k)
		for i := range h {
			h[i] = names[r.Intn(len(names))]
		}
		in := fmt.Sprintf("header %q", h)
		vCase(P, in)
		if m := vTry(func() {
			hd := csvcoder.NewHeader(h)
			got := hd.ColumnNames()
			if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", h) {
				vFail(t, P, "names", in, fmt.Sprintf("ColumnNames %q", got))
			}
			for _, nm := range names {
				ix := hd.ColumnIndex(nm)
				present := false
				for _, x := range h {
					present = present || x == nm
				}
				if ix.IsValid() != present {
					vFail(t, P, "lookup", in, fmt.Sprintf("ColumnIndex(%q) = %d", nm, ix))
				} else if present && (ix.Offset() >= len(h) || h[ix.Offset()] != nm) {
					vFail(t, P, "lookup", in, fmt.Sprintf("ColumnIndex(%q) = %d", nm, ix))
				}
			}
		}); m != "" {
			vFail(t, P, "panic", in, m)
		}
	}
	// rows into structs
	csvcoder.RegisterRowStruct(reflect.TypeOf(&vRec{}))
	for n := 0; n < vScale(3000); n++ {
		must := append([]string{}, vCols...)
		dropped := ""
		if r.Intn(4) == 0 {
			i := r.Intn(len(must))
			dropped = must[i]
			must = append(must[:i], must[i+1:]...)
		}
		h := vHeader(r, must)
		row := make([]string, len(h))
		pos := map[string]int{}
		for i, c := range h {
			pos[c] = i
			switch c {
			case "n":
				row[i] = strconv.Itoa(r.Intn(100000) - 50000)
			case "d d":
				row[i] = []string{"true", "false"}[r.Intn(2)]
			default:
				row[i] = vCell(r)
			}
		}
		switch r.Intn(5) {
		case 0:
			row = row[:r.Intn(len(row)+1)]
		case 1:
			row = append(row, vCell(r), vCell(r))
		}
		in := fmt.Sprintf("header %q row %q", h, row)
		vCase(P, in)
		short := false
		for _, c := range vCols {
			short = short || (c != dropped && pos[c] >= len(row))
		}
		rec := &vRec{U: "untouched"}
		var err error
		rw := csvcoder.NewRow(row, csvcoder.NewHeader(h), 4, "f.csv")
		if m := vTry(func() { err = csvcoder.ParseRow(rw, rec) }); m != "" {
			vFail(t, P, "panic", in, m)
			continue
		}
		if dropped != "" || short {
			if err == nil {
				vFail(t, P, "missing", in, fmt.Sprintf("no error although %q is missing or the row is short: %+v", dropped, *rec))
			}
			continue
		}
		if err != nil {
			vFail(t, P, "refused", in, err.Error())
			continue
		}
		want := vRec{A: row[pos["a"]], B: row[pos["bb"]], C: row[pos["C"]], U: "untouched"}
		want.N, _ = strconv.ParseInt(row[pos["n"]], 10, 64)
		want.D = row[pos["d d"]] == "true"
		if *rec != want {
			vFail(t, P, "cell", in, fmt.Sprintf("got %+v, want %+v", *rec, want))
		}
	}
}

type vRow struct {
	vals []string
	err  error
}
type vSource struct {
	rows []vRow
	n    int
}

func (s *vSource) Read() ([]string, error) {
	if s.n >= len(s.rows) {
		return nil, io.EOF
	}
	s.n++
	return append([]string(nil), s.rows[s.n-1].vals...), s.rows[s.n-1].err
}

// vCtxRec records the row it was parsed from.
type vNum struct {
	V string `csv:"v"`
	N int64  `csv:"n"`
}

func TestVerif_C02(t *testing.T) {
	const P = "C02"
	defer vDone(P)
	r := vRand(32)
	for n := 0; n < vScale(4000); n++ {
		h := vHeader(r, []string{"v", "n"})
		if r.Intn(12) == 0 {
			h = vHeader(r, []string{"v"})
		}
		src := &vSource{rows: []vRow{{h, nil}}}
		k := r.Intn(8)
		var desc []string
		for i := 0; i < k; i++ {
			row := make([]string, len(h))
			kind := r.Intn(12)
			for j, c := range h {
				row[j] = "o"
				if c == "v" {
					row[j] = fmt.Sprintf("row%d", i)
				}
				if c == "n" {
					row[j] = strconv.Itoa(i)
					if kind == 0 {
						row[j] = "bad"
					}
				}
			}
			var err error
			if kind == 1 {
				err = errors.New("wrong number of fields")
			}
			if kind == 2 {
				row = row[:0]
			}
			desc = append(desc, fmt.Sprint(kind))
			src.rows = append(src.rows, vRow{row, err})
		}
		in := fmt.Sprintf("header %q, rows %q (0: bad number, 1: reader error, 2: empty row)", h, desc)
		vCase(P, in)
		hasN := strings.Contains(fmt.Sprintf("%q", h), `"n"`)
		ok := func(kind string) bool { return kind != "0" && kind != "1" && kind != "2" }
		names := func(err error, i int) bool { // the header is row 1
			return strings.Contains(err.Error(), fmt.Sprintf("f.csv:%d:", i+2))
		}
		if m := vTry(func() {
			fp, err := csvcoder.NewFileParser(src, "f.csv", &vNum{})
			if !hasN {
				if err == nil {
					vFail(t, P, "header", in, "a header without a required column was accepted")
				}
				return
			}
			if err != nil {
				vFail(t, P, "header", in, err.Error())
				return
			}
			if n%2 == 0 {
				// row by row, going on after errors
				for i := 0; i < k; i++ {
					v, err := fp.Read()
					if ok(desc[i]) {
						rec, is := v.(*vNum)
						if err != nil || !is || rec.V != fmt.Sprintf("row%d", i) || rec.N != int64(i) {
							vFail(t, P, "row", in, fmt.Sprintf("Read %d = %+v, %v", i, v, err))
							return
						}
					} else if err == nil || err == io.EOF || !names(err, i) {
						vFail(t, P, "row-error", in, fmt.Sprintf("Read of the failing row %d of the file = %v, %v", i+2, v, err))
						return
					}
				}
				for j := 0; j < 2; j++ {
					if v, err := fp.Read(); err != io.EOF {
						vFail(t, P, "end", in, fmt.Sprintf("Read at the end = %v, %v", v, err))
						return
					}
				}
				return
			}
			stop := -1
			if r.Intn(3) == 0 && k > 0 {
				stop = r.Intn(k)
			}
			stopErr := errors.New("enough")
			var got []string
			err = fp.ReadAll(func(v interface{}) error {
				rec := v.(*vNum)
				got = append(got, rec.V)
				if len(got)-1 == stop {
					return stopErr
				}
				return nil
			})
			var want []string
			fail := -1
			stopped := false
			for i := 0; i < k; i++ {
				if !ok(desc[i]) {
					fail = i
					break
				}
				want = append(want, fmt.Sprintf("row%d", i))
				if i == stop {
					stopped = true
					break
				}
			}
			switch {
			case fmt.Sprint(got) != fmt.Sprint(want):
				vFail(t, P, "rows", in, fmt.Sprintf("callbacks %q, want %q", got, want))
			case stopped && !errors.Is(err, stopErr):
				vFail(t, P, "callback-error", in, fmt.Sprint("ReadAll = ", err))
			case !stopped && fail < 0 && err != nil:
				vFail(t, P, "end", in, fmt.Sprint("ReadAll = ", err))
			case fail >= 0 && !stopped && (err == nil || !names(err, fail)):
				vFail(t, P, "row-error", in, fmt.Sprintf("ReadAll = %v for the failing row %d of the file", err, fail+2))
			}
		}); m != "" {
			vFail(t, P, "panic", in, m)
		}
	}
}
