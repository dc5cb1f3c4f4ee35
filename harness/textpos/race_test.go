package textpos_test

// Runs with -race. The directive for check.py is the word race on this line.

import (
	"fmt"
	"sync"
	"testing"
	"time"

	tp "github.com/google/xtoproto/textpos"
)

// TestVerif_T03_textpos runs every exported operation concurrently under the
// race detector.
func TestVerif_T03_textpos(t *testing.T) {
	const P = "T03"
	defer vDone(P)
	for n := 0; n < vScale(12); n++ {
		vCase(P, fmt.Sprintf("round %d: all operations of a file set and a file from 8 goroutines", n))
		fs := tp.NewFileSet()
		f := fs.AddFile("f", -1, 200)
		fs.AddFile("g", -1, 10)
		f.SetLinesForContent(make([]byte, 200))
		ops := []func(i int){
			func(i int) { fs.AddFile("x", -1, i%5) },
			func(i int) { fs.Base() },
			func(i int) { fs.File(tp.Pos(1 + i)) },
			func(i int) { fs.Position(tp.Pos(1 + i)) },
			func(i int) { fs.Iterate(func(f *tp.File) bool { f.Name(); fs.Base(); return true }) },
			func(i int) { f.AddLine(i) },
			func(i int) { vTry(func() { f.MergeLine(1) }) },
			func(i int) { vTry(func() { f.MergeLine(1000) }) },
			func(i int) { f.SetLines([]int{0, 3, 5 + i}) },
			func(i int) { f.SetLinesForContent([]byte("a\nb\nc")) },
			func(i int) { vTry(func() { f.LineStart(tp.LineFromOrdinal(1 + i%3)) }) },
			func(i int) { vTry(func() { f.LineStart(tp.LineFromOrdinal(0)) }) },
			func(i int) { f.LineCount() },
			func(i int) { f.Position(f.Pos(i)) },
			func(i int) { f.Line(f.Pos(i)) },
			func(i int) { f.PosForLineColumn(tp.MakeLineColumn(tp.LineFromOrdinal(i%4), tp.ColumnFromOrdinal(i%3))) },
			func(i int) { f.SetLines([]int{0, 3, 3}) },
			func(i int) { f.SetLines([]int{0, 300}) },
			func(i int) { f.SetLines(nil); f.SetLines([]int{0, 3, 5 + i%100}) },
			func(i int) { f.SetLinesForContent(nil); f.SetLines([]int{0, 3, 5 + i%100}) },
			func(i int) { f.AddLine(0); f.AddLine(500) },
			func(i int) { vTry(func() { f.LineStart(tp.LineFromOrdinal(100000)) }) },
			func(i int) { vTry(func() { f.Position(tp.Pos(100000000)) }) },
			func(i int) { vTry(func() { f.Line(tp.Pos(100000000)) }) },
			func(i int) { vTry(func() { f.Offset(tp.Pos(100000000)) }) },
			func(i int) { vTry(func() { f.Pos(100000000) }) },
			func(i int) { fs.File(tp.NoPos); fs.File(tp.Pos(1 << 40)); fs.Position(tp.Pos(1 << 40)); fs.File(tp.Pos(-5)) },
			func(i int) { vTry(func() { fs.Iterate(func(f *tp.File) bool { panic("callback") }) }) },
			func(i int) { fs.Iterate(func(f *tp.File) bool { return false }) },
			func(i int) { f.PosForLineColumn(tp.MakeLineColumn(tp.LineFromOrdinal(100000), tp.ColumnFromOrdinal(1))) },
			func(i int) { f.PosForLineColumn(tp.MakeLineColumn(tp.LineFromOrdinal(1), tp.ColumnFromOrdinal(10000))) },
			func(i int) { vTry(func() { fs.AddFile("bad", -1, int(^uint(0)>>1)) }) },
			func(i int) { vTry(func() { f.MergeLine(0) }) },
			func(i int) { vTry(func() { fs.AddFile("bad", 0, 1) }) },
			func(i int) { vTry(func() { fs.AddFile("bad", -1, -1) }) },
		}
		done := make(chan bool)
		go func() {
			var wg sync.WaitGroup
			for g := 0; g < 8; g++ {
				g := g
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := 0; i < 150; i++ {
						ops[(g*7+i*5+n)%len(ops)](i)
					}
				}()
			}
			wg.Wait()
			// every lock must be free again
			for _, op := range ops {
				op(3)
			}
			close(done)
		}()
		select {
		case <-done:
		case <-time.After(20 * time.Second):
			vFail(t, P, "deadlock", fmt.Sprintf("round %d", n), "concurrent operations do not finish: a lock is kept or taken twice")
			return
		}
	}
}
