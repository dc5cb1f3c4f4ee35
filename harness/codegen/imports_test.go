package codegen_test

import (
	"fmt"
	"strings"
	"testing"

	"github.com/google/xtoproto/codegen"
)

type rec struct {
	path, name string
	alias      bool
}

// TestVerif_G01 runs random histories against a list of records.
func TestVerif_G01(t *testing.T) {
	const P = "G01"
	defer vDone(P)
	r := vRand(21)
	paths := []string{"fmt", "a/fmt", "b/fmt", "c/v2", "d/c", "x/go-y", "z/y", "p/s_go_proto", "q/s_go_proto", "spb", "p/spb", "u/a.b", "u/a", "v3", "fmt2", "k/fmt2", "k/fmt3"}
	names := []string{"fmt", "fmt2", "_", "c", "y", "spb", "s2pb", "a", "q", "", "fmt3"}
	for n := 0; n < vScale(1500); n++ {
		var opts []codegen.ImportsOption
		if n%5 == 4 {
			opts = append(opts, codegen.UseAssumedPackageNameFunc(func(p string) string { return "n" + fmt.Sprint(len(p)%3) }))
		}
		im := codegen.NewImports(opts...)
		var recs []rec
		var hist []string
		check := func() bool {
			h := strings.Join(hist, "; ")
			for _, p := range paths {
				var want *rec
				for i := range recs {
					if recs[i].path == p {
						want = &recs[i]
						break
					}
				}
				got := im.FindByImportPath(p)
				if (got == nil) != (want == nil) {
					vFail(t, P, "find-path", h, fmt.Sprintf("FindByImportPath(%q) = %v, recorded %v", p, got, want))
					return false
				}
				if got != nil && (got.Path() != p || got.PackageName() != want.name || (got.Alias() != "") != want.alias) {
					vFail(t, P, "kept", h, fmt.Sprintf("FindByImportPath(%q) = %q named %q, recorded %v", p, got.Path(), got.PackageName(), *want))
					return false
				}
			}
			owner := map[string]string{}
			for _, x := range recs {
				if x.name == "_" {
					continue
				}
				if o, ok := owner[x.name]; ok {
					vFail(t, P, "unique", h, fmt.Sprintf("%q is the name of %q and %q", x.name, o, x.path))
					return false
				}
				owner[x.name] = x.path
			}
			for _, nm := range append(names, "s2pb", "n0", "n1", "n2", "n02") {
				got := im.FindByPackageName(nm)
				if nm == "_" {
					continue
				}
				p, ok := owner[nm]
				if (got != nil) != ok || got != nil && (got.Path() != p || got.PackageName() != nm) {
					vFail(t, P, "find-name", h, fmt.Sprintf("FindByPackageName(%q) = %v, recorded %q", nm, got, p))
					return false
				}
			}
			return true
		}
		ok := true
		for k := 0; k < 12 && ok; k++ {
			p := paths[r.Intn(len(paths))]
			if r.Intn(2) == 0 {
				hist = append(hist, fmt.Sprintf("Register(%q)", p))
				vCase(P, strings.Join(hist, "; "))
				var got *codegen.Import
				if m := vTry(func() { got = im.Register(p) }); m != "" {
					vFail(t, P, "panic", strings.Join(hist, "; "), m)
					break
				}
				if got == nil || got.Path() != p {
					vFail(t, P, "register", strings.Join(hist, "; "), fmt.Sprintf("returned %v", got))
					break
				}
				found := false
				for _, x := range recs {
					if x.path == p {
						found = true
						if x.name != got.PackageName() {
							vFail(t, P, "again", strings.Join(hist, "; "), fmt.Sprintf("%q was named %q and is now %q", p, x.name, got.PackageName()))
							ok = false
						}
						break
					}
				}
				if !found {
					recs = append(recs, rec{p, got.PackageName(), got.Alias() != ""})
					for _, x := range recs[:len(recs)-1] {
						if x.name == got.PackageName() && x.name != "_" {
							vFail(t, P, "unique", strings.Join(hist, "; "), fmt.Sprintf("%q is the name of %q and %q", x.name, x.path, p))
							ok = false
						}
					}
				}
			} else {
				a := names[r.Intn(len(names))]
				hist = append(hist, fmt.Sprintf("RegisterAliased(%q, %q)", p, a))
				vCase(P, strings.Join(hist, "; "))
				got, err := im.RegisterAliased(p, a)
				taken, same := a == "", false
				for _, x := range recs {
					if x.name == a && x.path != p {
						taken = true
					}
					if x.name == a && x.path == p {
						same = true
					}
				}
				if a != "_" && (err != nil) != taken {
					vFail(t, P, "aliased", strings.Join(hist, "; "), fmt.Sprintf("error %v, alias taken: %v", err, taken))
					break
				}
				if err == nil {
					if got == nil || got.Path() != p || got.PackageName() != a {
						vFail(t, P, "aliased", strings.Join(hist, "; "), fmt.Sprintf("returned %v", got))
						break
					}
					want := fmt.Sprintf("%s %q", a, p)
					if got.Alias() == "" {
						want = fmt.Sprintf("%q", p)
					}
					if got.GoFragment() != want {
						vFail(t, P, "fragment", strings.Join(hist, "; "), got.GoFragment()+" instead of "+want)
						break
					}
					if !same {
						recs = append(recs, rec{p, a, true})
					}
				}
			}
			ok = ok && check()
		}
	}
}
