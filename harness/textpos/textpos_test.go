package textpos_test

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"testing"

	tp "github.com/google/xtoproto/textpos"
)

type added struct {
	f          *tp.File
	base, size int
}

// TestVerif_T01: random histories of additions and lookups against a list model.
func TestVerif_T01(t *testing.T) {
	const P = "T01"
	defer vDone(P)
	r := vRand(1)
	for n := 0; n < vScale(3000); n++ {
		fs := tp.NewFileSet()
		var model []added
		next := 1
		hist := ""
		bad := func(key, format string, a ...interface{}) { vFail(t, P, key, hist, fmt.Sprintf(format, a...)) }
		lookup := func(p int) {
			hist += fmt.Sprintf(" File(%d)", p)
			var want *tp.File
			for _, m := range model {
				if m.base <= p && p <= m.base+m.size {
					want = m.f
				}
			}
			if p == 0 {
				want = nil
			}
			var got *tp.File
			if m := vTry(func() { got = fs.File(tp.Pos(p)) }); m != "" {
				bad("panic", "File(%d): %s", p, m)
			} else if got != want {
				bad("lookup", "File(%d) = %p, want %p", p, got, want)
			}
		}
		for s := 0; s < 3+r.Intn(12); s++ {
			base := -1
			size := r.Intn(5)
			switch r.Intn(8) {
			case 0:
				base = next + r.Intn(4)
			case 1:
				base = next - 1 - r.Intn(3)
			case 2:
				size = -1 - r.Intn(2)
			case 3:
				if r.Intn(6) == 0 {
					size = math.MaxInt - next - r.Intn(3) + 1
				}
			case 4:
				if r.Intn(6) == 0 {
					base = math.MaxInt - r.Intn(4)
				}
			}
			b := base
			if base < 0 {
				b = next
			}
			okWant := b >= next && size >= 0 && b+size >= b && b+size < math.MaxInt
			hist += fmt.Sprintf(" AddFile(%d,%d)", base, size)
			vCase(P, hist)
			var f *tp.File
			msg := vTry(func() { f = fs.AddFile("f", base, size) })
			if (msg == "") != okWant {
				bad("accept", "accepted=%v (%s), want accepted=%v", msg == "", msg, okWant)
				break
			}
			if msg == "" {
				if f.Base() != b || f.Size() != size || f.Name() != "f" {
					bad("range", "file [%d,+%d], want [%d,+%d]", f.Base(), f.Size(), b, size)
				}
				model = append(model, added{f, b, size})
				next = b + size + 1
			}
			if fs.Base() != next {
				bad("base", "Base() = %d, want %d", fs.Base(), next)
				break
			}
			for k := 0; k < 3; k++ {
				p := r.Intn(40) - 2
				if len(model) > 0 && r.Intn(3) > 0 {
					m := model[r.Intn(len(model))]
					p = m.base + []int{-1, 0, m.size / 2, m.size, m.size + 1}[r.Intn(5)]
				}
				lookup(p)
			}
			if len(model) > 0 {
				m := model[r.Intn(len(model))]
				if m.size >= 0 {
					o := 0
					if m.size < 1000 {
						o = r.Intn(m.size + 1)
					}
					for _, o := range []int{o, m.size} {
						p := m.f.Pos(o)
						if int(p) != m.base+o || m.f.Offset(p) != o || p == tp.NoPos {
							bad("offset", "Pos(%d) = %d, Offset = %d", o, p, m.f.Offset(p))
						}
					}
					for _, o := range []int{m.base - 1, m.base + m.size + 1} {
						if m := vTry(func() { m.f.Offset(tp.Pos(o)) }); m == "" {
							bad("offset", "Offset of position %d outside the file accepted", o)
						}
					}
				}
			}
		}
		// order and iteration
		i := 0
		fs.Iterate(func(f *tp.File) bool {
			if i >= len(model) || model[i].f != f {
				bad("order", "file %d of the set is not the file that was added as number %d", i, i)
				return false
			}
			i++
			return true
		})
		if i != len(model) {
			bad("order", "set has %d files, want %d", i, len(model))
		}
	}
}

// starts lists the line starts of non-empty lines.
func starts(content string) []int {
	var out []int
	for i := range []byte(content) {
		if i == 0 || content[i-1] == '\n' {
			out = append(out, i)
		}
	}
	return out
}

func lineTable(f *tp.File) []int {
	var out []int
	for i := 1; i <= f.LineCount(); i++ {
		out = append(out, int(f.LineStart(tp.LineFromOrdinal(i)))-f.Base())
	}
	return out
}

func checkTable(t *testing.T, fs *tp.FileSet, f *tp.File, table []int, hist string) {
	const P = "T02"
	if got := lineTable(f); fmt.Sprint(got) != fmt.Sprint(table) {
		vFail(t, P, "table", hist, fmt.Sprintf("line table %v, want %v", got, table))
		return
	}
	for o := 0; o <= f.Size(); o++ {
		l := sort.Search(len(table), func(i int) bool { return table[i] > o })
		c := 0
		if l > 0 {
			c = o - table[l-1] + 1
		}
		p := f.Pos(o)
		for k, pos := range []tp.Position{f.Position(p), fs.Position(p)} {
			if pos.Line().Ordinal() != l || pos.Column().Ordinal() != c || pos.Offset() != o || pos.FileName() != f.Name() {
				vFail(t, P, "position", hist, fmt.Sprintf("offset %d: %v (offset %d) via %d, want %d:%d", o, pos, pos.Offset(), k, l, c))
			}
			if pos.Line().Offset() != l-1 || pos.Column().Offset() != c-1 {
				vFail(t, P, "zero-based", hist, fmt.Sprintf("offset %d", o))
			}
		}
		if f.Line(p).Ordinal() != l {
			vFail(t, P, "line", hist, fmt.Sprintf("Line at offset %d = %v, want %d", o, f.Line(p), l))
		}
	}
	for l := -1; l <= len(table)+2; l++ {
		for c := -1; c <= f.Size()+3; c++ {
			end := f.Size() + 1
			want := 0
			if l >= 1 && l <= len(table) && c >= 1 {
				if l < len(table) {
					end = table[l]
				}
				if o := table[l-1] + c - 1; o < end {
					want = f.Base() + o
				}
			}
			got := f.PosForLineColumn(tp.MakeLineColumn(tp.LineFromOrdinal(l), tp.ColumnFromOrdinal(c)))
			if int(got) != want {
				vFail(t, P, "pair", hist, fmt.Sprintf("PosForLineColumn(%d:%d) = %d, want %d", l, c, got, want))
			}
		}
	}
	for _, l := range []int{0, -1, len(table) + 1} {
		if m := vTry(func() { f.LineStart(tp.LineFromOrdinal(l)) }); m == "" {
			vFail(t, P, "linestart", hist, fmt.Sprintf("LineStart(%d) accepted", l))
		}
	}
	for _, p := range []int{f.Base() - 1, f.Base() + f.Size() + 1} {
		if p != 0 {
			if m := vTry(func() { f.Position(tp.Pos(p)) }); m == "" {
				vFail(t, P, "outside", hist, fmt.Sprintf("Position(%d) accepted", p))
			}
		}
	}
	if pos := f.Position(tp.NoPos); pos.IsValid() || pos.Offset() != 0 {
		vFail(t, P, "nopos", hist, "Position(NoPos) is not the zero position")
	}
}

// TestVerif_T02: line tables built from content and by edits, against a model.
func TestVerif_T02(t *testing.T) {
	const P = "T02"
	defer vDone(P)
	r := vRand(2)
	for n := 0; n < vScale(600); n++ {
		fs := tp.NewFileSet()
		if r.Intn(2) == 0 {
			fs.AddFile("before", -1, r.Intn(20))
		}
		var b strings.Builder
		for k := r.Intn(14); k > 0; k-- {
			b.WriteByte("\nab\n\r\xff"[r.Intn(6)])
		}
		content := b.String()
		f := fs.AddFile("f", -1, len(content))
		hist := fmt.Sprintf("content %q", content)
		vCase(P, hist)
		var table []int
		if r.Intn(3) > 0 {
			f.SetLinesForContent([]byte(content))
			table = starts(content)
			checkTable(t, fs, f, table, hist)
		} else {
			table = []int{0}
		}
		for k := r.Intn(8); k > 0; k-- {
			switch r.Intn(3) {
			case 0:
				o := r.Intn(len(content) + 2)
				hist += fmt.Sprintf(" AddLine(%d)", o)
				f.AddLine(o)
				if (len(table) == 0 || table[len(table)-1] < o) && o < len(content) {
					table = append(append([]int{}, table...), o)
				}
			case 1:
				l := r.Intn(len(table)+3) - 1
				hist += fmt.Sprintf(" MergeLine(%d)", l)
				m := vTry(func() { f.MergeLine(l) })
				if want := l >= 1 && l < len(table); (m == "") != want {
					vFail(t, P, "merge", hist, fmt.Sprintf("accepted=%v want %v", m == "", want))
				} else if want {
					table = append(append([]int{}, table[:l]...), table[l+1:]...)
				}
			case 2:
				var nl []int
				for i := r.Intn(4); i > 0; i-- {
					nl = append(nl, r.Intn(len(content)+2))
				}
				if r.Intn(2) == 0 {
					sort.Ints(nl)
				}
				ok := true
				for i, o := range nl {
					if i > 0 && o <= nl[i-1] || o >= len(content) {
						ok = false
					}
				}
				hist += fmt.Sprintf(" SetLines(%v)", nl)
				if got := f.SetLines(append([]int{}, nl...)); got != ok {
					vFail(t, P, "setlines", hist, fmt.Sprintf("returned %v, want %v", got, ok))
				}
				if ok {
					table = nl
				}
			}
			checkTable(t, fs, f, table, hist)
		}
	}
	for _, o := range []int{-3, -1, 0, 1, 2, 77, math.MaxInt - 1} {
		vCase(P, fmt.Sprint("offset ", o))
		if l := tp.LineFromOffset(o); l.Offset() != o || l.Ordinal() != o+1 || tp.LineFromOrdinal(o+1) != l || l.IsValid() != (o >= 0) {
			vFail(t, P, "convert", fmt.Sprint("line offset ", o), l.String())
		}
		if l := tp.ColumnFromOffset(o); l.Offset() != o || l.Ordinal() != o+1 || tp.ColumnFromOrdinal(o+1) != l || l.IsValid() != (o >= 0) {
			vFail(t, P, "convert", fmt.Sprint("column offset ", o), l.String())
		}
		for _, k := range []int{-1, 0, 1, 5} {
			p := tp.MakeLineColumn(tp.LineFromOffset(o), tp.ColumnFromOffset(k))
			if p.Line() != tp.LineFromOffset(o) || p.Column() != tp.ColumnFromOffset(k) {
				vFail(t, P, "pairparts", fmt.Sprint(o, k), p.String())
			}
			part := func(x int) string {
				if x < 1 {
					return "-"
				}
				return fmt.Sprint(x)
			}
			if w := part(o+1) + ":" + part(k+1); p.String() != w {
				vFail(t, P, "pairtext", fmt.Sprint(o, k), fmt.Sprintf("%q, want %q", p, w))
			}
		}
	}
}
