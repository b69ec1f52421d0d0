package pkgutil_test

import (
	"errors"
	"fmt"
	"testing"

	"github.com/buypal/oapi-go/internal/pkgutil"
	kit "github.com/buypal/oapi-go/internal/verifkit"
	"golang.org/x/tools/go/packages"
)

type vVisit struct {
	order string
	fails map[string]bool
}

func (s *vVisit) Scan(p *packages.Package) error {
	s.order += p.ID + " "
	if s.fails[p.ID] {
		return errors.New("failed at " + p.ID)
	}
	return nil
}

func TestVerifC20Visits(t *testing.T) {
	k := kit.New(t, "random import graphs, visited many times: always in the same order")
	for n := k.N(1500, 20000); n > 0 && !k.Stop(); n-- {
		c := 2 + k.R.Intn(8)
		pkgs := make([]*packages.Package, c)
		desc := ""
		for i := range pkgs {
			pkgs[i] = &packages.Package{ID: fmt.Sprint("p", i), Name: "x", PkgPath: fmt.Sprintf("example.com/p%d", k.R.Intn(1000)*10+i)}
		}
		for i, p := range pkgs {
			p.Imports = map[string]*packages.Package{}
			desc += p.ID + "->"
			for j, q := range pkgs {
				if k.R.Intn(3) == 0 && (j > i || k.R.Intn(6) == 0) {
					p.Imports[q.PkgPath] = q
					desc += q.ID + ","
				}
			}
			desc += " "
		}
		fails := map[string]bool{}
		for k.R.Intn(3) == 0 {
			fails[pkgs[k.R.Intn(c)].ID] = true
		}
		roots := 1 + k.R.Intn(2)
		k.Case("C20:visits", desc, func() {
			first := ""
			for r := 0; r < 8; r++ {
				s := &vVisit{fails: fails}
				err := pkgutil.Scan(pkgs[:roots], s)
				out := fmt.Sprint(s.order, err != nil)
				if r > 0 && out != first {
					k.Fail("C20:visits", "%s visited in the order %s and %s", desc, first, out)
					return
				}
				first = out
			}
		})
	}
}
