package types

import (
	"go/ast"
	"strings"
	"testing"

	kit "github.com/buypal/oapi-go/internal/verifkit"

	"github.com/buypal/oapi-go/internal/pointer"
)

type vchain struct {
	ptr string
	t   *vt
}

// chains are the pointers of all chains from a type and the names of the
// types met.
func (p *vprog) chains(ptr string, t *vt, path []*vt, out map[string]*vt) {
	u := t.under()
	out[ptr] = u
	for _, x := range path {
		if vsame(x, u) {
			return
		}
	}
	path = append(append([]*vt{}, path...), u)
	next := func(s string, t *vt) {
		p.chains(ptr+"/"+s, t, path, out)
		if t.k == "named" {
			out["go://"+t.pkg+"#/"+t.name] = t.under()
		}
	}
	switch u.k {
	case "struct":
		for _, f := range u.ff {
			if ast.IsExported(f.name) {
				next(f.name, f.t)
			}
		}
	case "ptr":
		next("*", u.e)
	case "slice", "array", "map":
		next("[]", u.e)
	}
}

func TestVerifC11Chains(t *testing.T) {
	k := kit.New(t, "random programs of one or two packages, also recursive: every chain of exported fields, elements and pointers from a scanned type and every named type met resolves to the schema of the model's type, altered pointers do not resolve")
	fields := func() vopts { return vTag(k, "name?", "ignore?", "required?") }
	for n := k.N(250, 6000); n > 0 && !k.Stop(); n-- {
		p := vProgram(k, fields, false)
		var asks []string
		all := map[string]*vt{}
		for i := []int{1, 1, 2, 3}[k.R.Intn(4)]; i > 0; i-- {
			q := p.pkgs[k.R.Intn(len(p.pkgs))]
			t := p.types[q][k.R.Intn(len(p.types[q]))]
			ask := "go://" + q + "#/" + t.name
			p.chains(ask, t, nil, all)
			if k.R.Intn(3) == 0 { // asked for by a longer pointer
				ask += kit.Pick(k, "/F1", "/[]", "/*", "/Mark1")
			}
			asks = append(asks, ask)
		}
		if len(all) > 3000 {
			continue
		}
		ask := strings.Join(asks, " and ")
		var sc *Scanner
		var err error
		k.Case("C11:scan", ask+" "+p.text(), func() {
			if sc, err = p.scan(asks...); err != nil {
				k.Fail("C11:scan", "%s in\n%s: %v", ask, p.text(), err)
				sc = nil
			}
		})
		if sc == nil {
			continue
		}
		for ptr, u := range all {
			ptr, u := ptr, u
			k.Case("C11:chain", "", func() {
				if u == vTime.e || u.name == "time.Time" {
					if x, err := pointer.Parse(ptr); err != nil {
						panic(err)
					} else if s, err := sc.Resolve(x); err != nil || s == nil {
						k.Fail("C11:chain", "%s in\n%s: %v", ptr, p.text(), err)
					}
					return
				}
				p.check(k, "C11:chain", sc, ptr, u)
			})
			bads := []string{ptr + "/" + kit.Pick(k, "Nope", "[]", "*", "f1", "Mark1", "time", "[ ]"), ptr + "x", "http" + ptr[2:], ptr[:len(ptr)-1]}
			if i := strings.Index(ptr, "#"); i > 0 {
				bads = append(bads, "go://"+kit.Pick(k, "tes", "test/", "test/test", "example.com/a", "example.com/a/other/test", "testt")+ptr[i:])
			}
			for _, bad := range bads {
				bad := bad
				if u.name == "time.Time" || p.lookup(bad) != nil || bad == "go://time#/Time" {
					continue
				}
				x, err := pointer.Parse(bad)
				if err != nil {
					continue
				}
				k.Case("C11:none", "", func() {
					if s, err := sc.Resolve(x); err == nil {
						k.Fail("C11:none", "%s in\n%s names no type but resolves to %v", bad, p.text(), vshow(s))
					}
				})
			}
		}
	}
}

// only asked for packages and types are scanned; nothing is found before
func TestVerifC11Asked(t *testing.T) {
	k := kit.New(t, "pointers of other schemes, packages, types and without a type scan nothing, and resolve to nothing")
	p := vProgram(k, func() vopts { return vopts{} }, false)
	q := p.pkgs[0]
	name := "go://" + q + "#/" + p.types[q][0].name
	for _, ask := range []string{"", "go://nowhere#/T", "http://" + q + "#/" + p.types[q][0].name, "go://" + q, "go://" + q + "#/Nope", "go://" + q + "#/"} {
		ask := ask
		k.Case("C11:asked", ask, func() {
			var pp []string
			if ask != "" {
				pp = []string{ask}
			}
			sc, err := p.scan(pp...)
			if err != nil {
				k.Fail("C11:asked", "%s: %v", ask, err)
				return
			}
			if _, err := sc.Resolve(pointer.MustParse(name)); err == nil {
				k.Fail("C11:asked", "%s resolves though only %q was asked for", name, ask)
			}
		})
	}
}
