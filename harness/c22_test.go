package pkgutil_test

import (
	"errors"
	"fmt"
	"strings"
	"testing"

	"github.com/buypal/oapi-go/internal/pkgutil"
	kit "github.com/buypal/oapi-go/internal/verifkit"
	"golang.org/x/tools/go/packages"
)

type vScan struct {
	order []*packages.Package
	fails map[*packages.Package]error
}

func (s *vScan) Scan(p *packages.Package) error {
	s.order = append(s.order, p)
	return s.fails[p]
}

var vStd = []string{"fmt", "net/http", "os", "unsafe", "encoding/json", "go/types", "internal/abi"}
var vNotStd = []string{"fmt2", "example.com/fmt", "net/httpx", "go", "x/os", "C", "", "main", "golang.org/x/tools/go/packages", "command-line-arguments", "vendor/a", "Fmt"}

func TestVerifC22Scan(t *testing.T) {
	k := kit.New(t, "random import graphs of up to 9 packages with cycles, missing entries, standard packages importing others, package errors and failing scanners: every package reachable outside the standard library once, after what it imports, and all errors in one")
	for n := k.N(6000, 60000); n > 0 && !k.Stop(); n-- {
		c := k.R.Intn(9) + 1
		pkgs := make([]*packages.Package, c)
		std := map[*packages.Package]bool{}
		name := map[*packages.Package]string{}
		s := &vScan{fails: map[*packages.Package]error{}}
		var texts []string
		desc := ""
		for i := range pkgs {
			p := &packages.Package{ID: fmt.Sprint("id", i)}
			switch k.R.Intn(6) {
			case 0:
				p.PkgPath = vStd[k.R.Intn(len(vStd))]
				std[p] = true
			case 1:
				p.PkgPath = vNotStd[k.R.Intn(len(vNotStd))]
			case 2:
				p.PkgPath = "example.com/same"
			default:
				p.PkgPath = fmt.Sprintf("example.com/p%d", i)
			}
			p.Name = "x"
			name[p] = fmt.Sprintf("%d:%s", i, p.PkgPath)
			pkgs[i] = p
		}
		dense := k.R.Intn(4) + 1
		many := k.R.Intn(10) == 0
		dag := k.R.Intn(2) == 0
		for i, p := range pkgs {
			desc += name[p] + "->"
			if k.R.Intn(8) > 0 {
				p.Imports = map[string]*packages.Package{}
				for e := k.R.Intn(dense + 1); e > 0; e-- {
					j := k.R.Intn(c)
					if dag {
						if i+1 >= c {
							continue
						}
						j = i + 1 + k.R.Intn(c-i-1)
					}
					key := fmt.Sprintf("%c%d", 'a'+k.R.Intn(3), j)
					p.Imports[key] = pkgs[j]
					desc += fmt.Sprintf("%d ", j)
				}
				if k.R.Intn(12) == 0 {
					p.Imports["missing"] = nil
					desc += "nil "
				}
			}
			e := k.R.Intn(12) - 9
			if many {
				e = k.R.Intn(8)
			}
			for ; e > 0; e-- {
				x := fmt.Sprintf("pkgerr-%d-%d.", i, e)
				p.Errors = append(p.Errors, packages.Error{Pos: "-", Msg: x, Kind: packages.ParseError})
				desc += x + " "
			}
			if k.R.Intn(6) == 0 {
				x := fmt.Sprintf("scanerr-%d.", i)
				s.fails[p] = errors.New(x)
				desc += x + " "
			}
			desc += "; "
		}
		var roots []*packages.Package
		desc += "roots "
		for e := k.R.Intn(3) + 1; e > 0; e-- {
			j := k.R.Intn(c)
			if dag && k.R.Intn(2) == 0 {
				j = 0
			}
			roots = append(roots, pkgs[j])
			desc += fmt.Sprintf("%d ", j)
		}
		if k.R.Intn(20) == 0 {
			roots = append(roots, nil)
		}
		// reachable[p][q]: q from p without passing the standard library
		var reach func(p *packages.Package, m map[*packages.Package]bool)
		reach = func(p *packages.Package, m map[*packages.Package]bool) {
			if p == nil || std[p] || m[p] {
				return
			}
			m[p] = true
			for _, q := range p.Imports {
				reach(q, m)
			}
		}
		want := map[*packages.Package]bool{}
		for _, r := range roots {
			reach(r, want)
		}
		for p := range want {
			for _, e := range p.Errors {
				texts = append(texts, e.Msg)
			}
			if e := s.fails[p]; e != nil {
				texts = append(texts, e.Error())
			}
		}
		k.Case("scan", desc, func() {
			err := pkgutil.Scan(roots, s)
			at := map[*packages.Package]int{}
			for i, p := range s.order {
				if _, ok := at[p]; ok {
					k.Fail("scan", "%s: %s is scanned twice", desc, name[p])
					return
				}
				at[p] = i
				if !want[p] {
					k.Fail("scan", "%s: %s is scanned", desc, name[p])
					return
				}
			}
			for p := range want {
				if _, ok := at[p]; !ok {
					k.Fail("scan", "%s: %s is not scanned", desc, name[p])
					return
				}
				for _, q := range p.Imports {
					if !want[q] {
						continue
					}
					back := map[*packages.Package]bool{}
					reach(q, back)
					if !back[p] && at[q] > at[p] {
						k.Fail("scan", "%s: %s is scanned before %s, which it imports", desc, name[p], name[q])
						return
					}
				}
			}
			if (err != nil) != (len(texts) > 0) {
				k.Fail("scan", "%s: error %v, want %q", desc, err, texts)
				return
			}
			if err != nil {
				for _, x := range texts {
					if strings.Count(err.Error(), x) != 1 {
						k.Fail("scan", "%s: %q in %q", desc, x, err)
						return
					}
				}
			}
		})
	}
}

func TestVerifC22Std(t *testing.T) {
	k := kit.New(t, "packages of the standard library and others with similar paths")
	list, err := packages.Load(nil, "std")
	if err != nil || len(list) < 100 {
		t.Fatal(err, len(list))
	}
	std := map[string]bool{}
	for _, p := range list {
		std[p.PkgPath] = true
	}
	check := func(path string) {
		k.Case("std", path, func() {
			p := &packages.Package{PkgPath: path, Name: "x"}
			if got := pkgutil.IsStdLibPkg(p); got != std[path] {
				k.Fail("std", "%q: %v", path, got)
			}
		})
	}
	for p := range std {
		check(p)
		check(p + "x")
		check("example.com/" + p)
		check(p + "/v2")
		check(strings.ToUpper(p))
		if i := strings.LastIndex(p, "/"); i > 0 {
			check(p[:i])
			check(p[i+1:])
		}
	}
	for _, p := range vNotStd {
		check(p)
	}
}
