package codegen_test

// Runs with -race. The directive for check.py is the word race on this line.

import (
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/google/xtoproto/codegen"
)

// TestVerif_T03_codegen runs every operation of an import table concurrently.
func TestVerif_T03_codegen(t *testing.T) {
	const P = "T03"
	defer vDone(P)
	for n := 0; n < vScale(10); n++ {
		vCase(P, fmt.Sprintf("import table round %d", n))
		im := codegen.NewImports()
		ops := []func(i int){
			func(i int) { im.Register(fmt.Sprintf("a/p%d", i%7)) },
			func(i int) { im.Register(fmt.Sprintf("b%d/p%d", i%5, i%3)) },
			func(i int) { im.RegisterAliased(fmt.Sprintf("c/p%d", i%7), fmt.Sprintf("al%d", i%9)) },
			func(i int) { im.RegisterAliased("", "") },
			func(i int) { im.RegisterAliased("x", "_") },
			func(i int) { im.RegisterAliased(fmt.Sprintf("d%d", i), "taken") },
			func(i int) {
				if x := im.FindByImportPath("a/p1"); x != nil {
					_ = x.Path() + x.PackageName() + x.GoFragment()
				}
			},
			func(i int) { im.FindByImportPath("nowhere") },
			func(i int) { im.FindByPackageName("p1") },
			func(i int) { im.FindByPackageName("nowhere") },
			func(i int) { im.AssumedPackageName("x/y") },
			func(i int) { im.Register(fmt.Sprintf("z%d/s_go_proto", i%4)) },
		}
		done := make(chan bool)
		go func() {
			var wg sync.WaitGroup
			for g := 0; g < 8; g++ {
				g := g
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := 0; i < 100; i++ {
						ops[(g*7+i*5+n)%len(ops)](i)
					}
				}()
			}
			wg.Wait()
			for _, op := range ops {
				op(3)
			}
			close(done)
		}()
		select {
		case <-done:
		case <-time.After(20 * time.Second):
			vFail(t, P, "deadlock", fmt.Sprintf("import table round %d", n), "concurrent operations do not finish: a lock is kept or taken twice")
			return
		}
	}
}
