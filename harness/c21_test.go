package cmds

import (
	"fmt"
	"go/parser"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"testing"

	"golang.org/x/tools/go/packages"

	kit "github.com/buypal/oapi-go/internal/verifkit"
)

// c21 is what a comment means: nothing, an error, or an export.
type c21 struct {
	text string
	mean string
	name string
	ptr  string
}

func c21Comment(k *kit.K, pkg string, pool []string, clean bool) c21 {
	var c c21
	block := k.R.Intn(4) == 0
	prefix, cmd := "openapi", ":schema"
	if r := k.R.Intn(12); r == 0 {
		prefix = kit.Pick(k, " openapi", "Openapi", "OPENAPI", "open-api", "openap", "oapi", "xopenapi", "", "\topenapi", "go:openapi")
	} else if r == 1 {
		cmd = kit.Pick(k, "", ":root")
	} else if r == 2 && !clean {
		cmd = kit.Pick(k, ":Schema", ":schemas", ":schem", "schema", ":", ":other", "::schema", ":root:", ":schema:", "-schema")
	}
	arg := func(ptr bool) (text, last, p string, ok bool) {
		n := pool[k.R.Intn(len(pool))]
		switch r := k.R.Intn(12); {
		case r == 0 && ptr && !clean:
			return kit.Pick(k, "Foo%zz", "#Foo", "go://p#Foo", "://x#/y", "go://%zz#/T"), "", "", false
		case r == 1 && ptr:
			o := kit.Pick(k, "a", "other.org/x/y", "b/c")
			return "go://" + o + "#/" + n, n, "go://" + o + "#/" + n, true
		case r == 2 && ptr:
			return n + "/F/[]", "[]", "go://" + pkg + "#/" + n + "/F/[]", true
		case r == 3 && ptr:
			return n + "/x~1y~0", "x/y~", "go://" + pkg + "#/" + n + "/x~1y~0", true
		default:
			return n, n, "go://" + pkg + "#/" + n, true
		}
	}
	var args []string
	n := []int{1, 1, 1, 2, 2, 2}[k.R.Intn(6)]
	if r := k.R.Intn(12); r == 0 && !clean {
		n = []int{0, 3, 4}[k.R.Intn(3)]
	}
	ok := n == 1 || n == 2
	for i := 0; i < n; i++ {
		isptr := i == 1 || n == 1
		t, last, p, good := arg(isptr)
		args = append(args, t)
		if isptr && i < 2 {
			c.ptr = p
			ok = ok && good
		}
		if i == 0 {
			c.name = t
			if n == 1 {
				c.name = last
			}
		}
	}
	body := strings.Join(append([]string{prefix + cmd}, args...), " ")
	body += kit.Pick(k, "", "", " ", "   ")
	c.text = "//" + body
	if block {
		c.text = "/*" + body + kit.Pick(k, "", "\n") + "*/"
	}
	switch {
	case prefix != "openapi":
		c.mean = "ignored"
	case cmd == "" || cmd == ":root":
		c.mean = "ignored"
	case cmd != ":schema" || !ok:
		c.mean = "error"
	default:
		c.mean = "export"
	}
	return c
}

// c21Source places comments at all sorts of positions of a file.
func c21Source(k *kit.K, cc []c21) string {
	s := "package p\n"
	i := 0
	for n, c := range cc {
		switch k.R.Intn(6) {
		case 0:
			s += c.text + "\n"
		case 1:
			s += fmt.Sprintf("// doc\n%s\n// more\ntype T%d struct{}\n\n", c.text, n)
		case 2:
			s += fmt.Sprintf("func f%d() {\n\t%s\n\t_ = \"//openapi:schema Str\"\n}\n", n, c.text)
		case 3:
			s += fmt.Sprintf("type U%d struct {\n\tA int %s\n}\n", n, c.text)
		case 4:
			s += fmt.Sprintf("var v%d = 1 %s\n\n", n, c.text)
		default:
			s += "\n" + c.text + "\n\n"
		}
		i++
	}
	return s
}

func TestVerifC21Comments(t *testing.T) {
	k := kit.New(t, "random comments in files of one to three packages, scanned in any order: the exports are those the comments ask for, or an error where a comment or a pair of exports is not allowed")
	for n := k.N(4000, 100000); n > 0 && !k.Stop(); n-- {
		clean := k.R.Intn(4) > 0
		pool := []string{"Foo", "Bar", "T", "x", "Foo2", "foo", "schema", "openapi"}
		if k.R.Intn(3) > 0 {
			pool = nil
			for i := 0; i < 60; i++ {
				pool = append(pool, fmt.Sprintf("Type%d", i))
			}
		}
		names := []string{"a", "b/c", "example.com/m/v2", "x.y", "a_test", "p.test", "x/internal/y", "vendor/z", "main", "Up/Per", "go", "q/openapi", "x/v0", "a-b/c~d", "command-line-arguments"}
		k.R.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
		names = names[:1+k.R.Intn(3)]
		var want, desc []string
		bydup := map[string]int{}
		dup := false
		s := NewScanner()
		type ask struct {
			pkg  *packages.Package
			fail bool
			src  string
		}
		var asks []ask
		failed := false
		for _, p := range names {
			pkg := &packages.Package{ID: p, PkgPath: p, Name: "p", Types: types.NewPackage(p, "p")}
			a := ask{pkg: pkg}
			for f := 1 + k.R.Intn(2); f > 0; f-- {
				var cc []c21
				for i := k.R.Intn(4); i > 0; i-- {
					c := c21Comment(k, p, pool, clean)
					cc = append(cc, c)
					switch c.mean {
					case "error":
						a.fail = true
					case "export":
						want = append(want, c.name+" = "+c.ptr+" as schema")
						bydup["n "+c.name]++
						bydup["p "+c.ptr]++
						dup = dup || bydup["n "+c.name] > 1 || bydup["p "+c.ptr] > 1
					}
				}
				src := c21Source(k, cc)
				file, err := parser.ParseFile(token.NewFileSet(), fmt.Sprintf("f%d.go", f), src, parser.ParseComments)
				if err != nil {
					t.Fatal(err, src)
				}
				pkg.Syntax = append(pkg.Syntax, file)
				a.src += src
			}
			failed = failed || a.fail
			asks = append(asks, a)
			desc = append(desc, p+": "+a.src)
		}
		d := strings.Join(desc, "\n---\n")
		k.Case("comments", d, func() {
			for _, a := range asks {
				err := s.Scan(a.pkg)
				if (err != nil) != a.fail {
					k.Fail("comments", "scanning package %s gives error %v, a bad comment present: %v; %s", a.pkg.PkgPath, err, a.fail, a.src)
					return
				}
			}
			if failed {
				return
			}
			ee, err := s.ExportedComponents()
			if (err != nil) != dup {
				k.Fail("comments", "exports give error %v, expected one: %v; %s", err, dup, d)
				return
			}
			if dup {
				return
			}
			pp := s.Commands.Pointers()
			for _, e := range ee {
				if p, ok := pp[e.Pointer.String()]; !ok || p.String() != e.Pointer.String() {
					k.Fail("comments", "%s is exported but not among the pointers to scan; %s", e.Pointer.String(), d)
				}
			}
			var got []string
			for _, e := range ee {
				kind := "schema"
				if !e.IsScheme() {
					kind = "something else"
				}
				got = append(got, e.Name+" = "+e.Pointer.String()+" as "+kind)
			}
			sort.Strings(got)
			sort.Strings(want)
			if strings.Join(got, "; ") != strings.Join(want, "; ") {
				k.Fail("comments", "exports %q, wanted %q; %s", got, want, d)
			}
			for _, e := range ee {
				if x, ok := ee.Get(e.Pointer.Clone()); !ok || x.Name != e.Name {
					k.Fail("comments", "looking up %s gives %q %v", e.Pointer.String(), x.Name, ok)
				}
			}
		})
	}
}

