package types

import (
	"fmt"
	"go/types"
	"testing"

	kit "github.com/buypal/oapi-go/internal/verifkit"
)

var vNumeric = []string{"min", "max", "emin", "emax", "mulof", "minlen", "maxlen", "pattern", "minitems?", "maxitems?", "minprops?", "maxprops?", "unique?"}

func vOneField(t *vt, o vopts) *vprog {
	st := &vt{k: "struct", ff: []*vf{{name: "F", t: t, opts: o}}}
	return &vprog{pkgs: []string{"test"}, loads: map[string]*types.Package{}, types: map[string][]*vt{"test": {{k: "named", name: "T", pkg: "test", e: st}}}}
}

// a field of a basic type, with constraints
func TestVerifC08Fields(t *testing.T) {
	k := kit.New(t, "struct fields of every basic, unsupported and tag-named type with random combinations of constraints, against a table of types, formats and keywords")
	one := func(x *vt, o vopts) {
		p := vOneField(x, o)
		k.Case("C08:field", fmt.Sprintf("%s `%s`", x.str(""), o.raw), func() {
			sc, err := p.scan("go://test#/T")
			if err != nil {
				k.Fail("C08:scan", "%s: %v", p.text(), err)
				return
			}
			p.check(k, "C08:field", sc, "go://test#/T", p.types["test"][0])
		})
	}
	for _, b := range vBasics {
		one(&vt{k: "basic", b: b}, vopts{})
		for i := k.N(12, 200); i > 0; i-- {
			one(&vt{k: "basic", b: b}, vTag(k, vNumeric...))
		}
	}
	for _, b := range vBad {
		one(&vt{k: "bad", b: b}, vopts{})
		one(&vt{k: "bad", b: b}, vTag(k, vNumeric...))
	}
	names := append([]string{"Int", "int128", "complex64", "str", "array", "file", "uintptr", "datetime", "byte", "rune", "boolean", "any"}, vBasics...)
	for n := range vNamed {
		names = append(names, n)
	}
	for _, n := range names {
		for i := k.N(8, 100); i > 0; i-- {
			o := vTag(k, vNumeric...)
			o.typ = n
			if o.raw == "" {
				o.raw = `oapi:",type:` + n + `"`
			} else {
				o.raw = o.raw[:len(o.raw)-1] + ",type:" + n + `"`
			}
			one(&vt{k: "basic", b: kit.Pick(k, vBasics...)}, o)
		}
	}
}

// a declared basic type by itself
func TestVerifC08Types(t *testing.T) {
	k := kit.New(t, "declared types of every basic and unsupported kind")
	for _, b := range append(append([]string{}, vBasics...), vBad...) {
		kd := "basic"
		if _, ok := vBasic[b]; !ok {
			kd = "bad"
		}
		p := &vprog{pkgs: []string{"test"}, loads: map[string]*types.Package{}, types: map[string][]*vt{"test": {{k: "named", name: "T", pkg: "test", e: &vt{k: kd, b: b}}}}}
		k.Case("C08:type", b, func() {
			sc, err := p.scan("go://test#/T")
			if err != nil {
				k.Fail("C08:scan", "%s: %v", p.text(), err)
				return
			}
			p.check(k, "C08:type", sc, "go://test#/T", p.types["test"][0])
		})
	}
}
