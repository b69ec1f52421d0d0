package types

import (
	"fmt"
	"go/types"
	"testing"

	kit "github.com/buypal/oapi-go/internal/verifkit"
)

var vShape = []string{"minitems", "maxitems", "minprops", "maxprops", "unique", "nullable", "min?", "maxlen?", "pattern?", "emax?"}

// one declared type or field of every composition
func TestVerifC09Shapes(t *testing.T) {
	k := kit.New(t, "random compositions of slices, arrays, maps and pointers over basic, struct, named and recursive types, with random counts, uniqueness and nullability in the field's tag, against a model of the types")
	for n := k.N(900, 20000); n > 0 && !k.Stop(); n-- {
		p := vProgram(k, func() vopts { return vTag(k, vShape...) }, true)
		for _, q := range p.pkgs {
			for _, t := range p.types[q] {
				t := t
				ptr := "go://" + q + "#/" + t.name
				k.Case("C09:shape", ptr+" "+p.text(), func() {
					sc, err := p.scan(ptr)
					if err != nil {
						k.Fail("C09:scan", "%s: %v", p.text(), err)
						return
					}
					p.check(k, "C09:shape", sc, ptr, t)
				})
			}
		}
	}
}

// every single shape with every option
func TestVerifC09Options(t *testing.T) {
	k := kit.New(t, "every shape of one or two levels over three element types with many combinations of the tag's options")
	st := &vt{k: "named", name: "S", pkg: "test", e: &vt{k: "struct", ff: []*vf{{name: "M", t: &vt{k: "basic", b: "bool"}}}}}
	mk := func(s int, e *vt) *vt {
		return []*vt{{k: "slice", e: e}, {k: "array", n: 3, e: e}, {k: "array", n: 0, e: e}, {k: "map", e: e}, {k: "ptr", e: e}}[s]
	}
	for s1 := 0; s1 < 5; s1++ {
		for s2 := 0; s2 < 6; s2++ {
			for _, e := range []*vt{{k: "basic", b: "string"}, st, vTime} {
				x := e
				if s2 < 5 {
					x = mk(s2, x)
				}
				x = mk(s1, x)
				for i := k.N(5, 100); i >= 0; i-- {
					o := vopts{}
					if i > 0 {
						o = vTag(k, vShape...)
					}
					p := &vprog{pkgs: []string{"test"}, loads: map[string]*types.Package{}, types: map[string][]*vt{"test": {st, {k: "named", name: "T", pkg: "test", e: &vt{k: "struct", ff: []*vf{{name: "F", t: x, opts: o}}}}}}}
					k.Case("C09:option", fmt.Sprintf("%s `%s`", x.str("test"), o.raw), func() {
						sc, err := p.scan("go://test#/T")
						if err != nil {
							k.Fail("C09:scan", "%s: %v", p.text(), err)
							return
						}
						p.check(k, "C09:option", sc, "go://test#/T", p.types["test"][1])
					})
				}
			}
		}
	}
}

// types that are their own element, alone, as a field and inside of others
func TestVerifC09Own(t *testing.T) {
	k := kit.New(t, "types that are their own element, as slice, map and pointer, alone, as a field and inside of other shapes; types that come back to themselves through another type")
	for _, sh := range []string{"slice", "map", "ptr"} {
		own := &vt{k: "named", name: "R", pkg: "test"}
		own.e = &vt{k: sh, e: own}
		a := &vt{k: "named", name: "A", pkg: "test"}
		b := &vt{k: "named", name: "B", pkg: "test", e: &vt{k: sh, e: a}}
		a.e = &vt{k: "slice", e: b}
		st := &vt{k: "named", name: "S", pkg: "test", e: &vt{k: "struct", ff: []*vf{{name: "F", t: own}}}}
		s2 := &vt{k: "named", name: "S2", pkg: "test", e: &vt{k: "struct", ff: []*vf{{name: "F", t: &vt{k: "slice", e: own}}}}}
		s3 := &vt{k: "named", name: "S3", pkg: "test", e: &vt{k: "struct", ff: []*vf{{name: "F", t: a}}}}
		in := &vt{k: "named", name: "In", pkg: "test", e: &vt{k: "map", e: own}}
		p := &vprog{pkgs: []string{"test"}, loads: map[string]*types.Package{}, types: map[string][]*vt{"test": {own, a, b, st, s2, s3, in}}}
		for _, t := range p.types["test"] {
			t := t
			ptr := "go://test#/" + t.name
			k.Case("C09:own", sh+" "+ptr, func() {
				sc, err := p.scan(ptr)
				if err != nil {
					k.Fail("C09:scan", "%s: %v", p.text(), err)
					return
				}
				p.check(k, "C09:own", sc, ptr, t)
			})
		}
	}
}
