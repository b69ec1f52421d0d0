F = "internal/pkgutil/util.go"
T = '''package pkgutil_test

import (
	"errors"
	"fmt"
	"strings"
	"testing"

	"github.com/buypal/oapi-go/internal/pkgutil"
	"golang.org/x/tools/go/packages"
)

type scanner struct {
	order []string
	fail  map[string]bool
}

func (s *scanner) Scan(p *packages.Package) error {
	s.order = append(s.order, p.ID)
	if s.fail[p.ID] {
		return errors.New("fail-" + p.ID)
	}
	return nil
}

func pkg(id, path string, imports ...*packages.Package) *packages.Package {
	p := &packages.Package{ID: id, PkgPath: path, Name: "x", Imports: map[string]*packages.Package{}}
	for _, i := range imports {
		p.Imports[i.ID] = i
	}
	return p
}

var _ = fmt.Sprint
var _ = strings.Join

func TestDemo(t *testing.T) {
	s := &scanner{fail: map[string]bool{}}
%s}
'''
seed("c22-root-import", "C22", [(F, '''		for _, path := range paths {
			visit(pkg.Imports[path])
		}
''', '''		for _, path := range paths {
			if roots[pkg.Imports[path]] { // it has its own turn
				continue
			}
			visit(pkg.Imports[path])
		}
'''), (F, '''	seen := make(map[*packages.Package]bool)
	var visit func(*packages.Package)
''', '''	seen, roots := make(map[*packages.Package]bool), make(map[*packages.Package]bool)
	for _, pkg := range pkgs {
		roots[pkg] = true
	}
	var visit func(*packages.Package)
''')], "internal/pkgutil", T % '''	b := pkg("b", "example.com/b")
	a := pkg("a", "example.com/a", b)
	if err := pkgutil.Scan([]*packages.Package{a, b}, s); err != nil || strings.Join(s.order, " ") != "b a" {
		t.Fatal(s.order, err)
	}
''', "a package given for scanning which imports another one given after it", "the package is scanned before what it imports")
seed("c22-same-path", "C22", [(F, '''	seen := make(map[*packages.Package]bool)
''', '''	seen := make(map[string]bool)
'''), (F, '''		if pkg == nil || seen[pkg] || IsStdLibPkg(pkg) {
			return
		}
		seen[pkg] = true
''', '''		if pkg == nil || seen[pkg.PkgPath] || IsStdLibPkg(pkg) {
			return
		}
		seen[pkg.PkgPath] = true
''')], "internal/pkgutil", T % '''	a := pkg("a", "example.com/a")
	b := pkg("a [a.test]", "example.com/a", pkg("c", "example.com/c"))
	if err := pkgutil.Scan([]*packages.Package{a, b}, s); err != nil || len(s.order) != 3 {
		t.Fatal(s.order, err)
	}
''', "two packages with one path, such as a package and the variant of it made for its tests", "the second one and what only it imports are never scanned")
seed("c22-dotless", "C22", [(F, '''	_, ok := stdpkgs[pkg.PkgPath]
	return ok
''', '''	if _, ok := stdpkgs[pkg.PkgPath]; ok {
		return true
	}
	first := pkg.PkgPath
	if i := strings.IndexByte(first, '/'); i >= 0 {
		first = first[:i]
	}
	_, ok := stdpkgs[first]
	return ok
''')], "internal/pkgutil", T % '''	a := pkg("a", "log/collector/api")
	if err := pkgutil.Scan([]*packages.Package{a}, s); err != nil || len(s.order) != 1 {
		t.Fatal(s.order, err)
	}
''', "a module whose path starts with the name of a standard package", "its packages are taken for standard ones and not scanned")
seed("c22-failed-import", "C22", [(F, '''			errs = append(errs, errors.Wrapf(err, "failed to parse pkg"))
		}
''', '''			errs = append(errs, errors.Wrapf(err, "failed to parse pkg"))
			if err.Kind == packages.ParseError { // its imports are not reliable
				return
			}
		}
''')], "internal/pkgutil", T % '''	b := pkg("b", "example.com/b")
	a := pkg("a", "example.com/a", b)
	a.Errors = []packages.Error{{Pos: "-", Msg: "one", Kind: packages.ParseError}, {Pos: "-", Msg: "two", Kind: packages.ParseError}}
	err := pkgutil.Scan([]*packages.Package{a}, s)
	if err == nil || len(s.order) != 2 || !strings.Contains(err.Error(), "two") {
		t.Fatal(s.order, err)
	}
''', "a package that does not parse", "the packages it imports are not visited and its further errors not reported")
seed("c22-many-errors", "C22", [(F, '''	for _, m := range errs {
		msgs = append(msgs, "\\t- "+m.Error())
	}
''', '''	for i, m := range errs {
		if i == 10 {
			msgs = append(msgs, "\\t- too many errors")
			break
		}
		msgs = append(msgs, "\\t- "+m.Error())
	}
''')], "internal/pkgutil", T % '''	var all []*packages.Package
	for i := 0; i < 12; i++ {
		id := fmt.Sprintf("p%%d", i)
		all = append(all, pkg(id, "example.com/"+id))
		s.fail[id] = true
	}
	err := pkgutil.Scan(all, s)
	for i := 0; i < 12; i++ {
		if err == nil || !strings.Contains(err.Error(), fmt.Sprintf("fail-p%%d", i)) {
			t.Fatal(err)
		}
	}
''', "more than ten errors", "the errors after the tenth are not reported")
