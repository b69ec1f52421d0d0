package types

import (
	"testing"

	kit "github.com/buypal/oapi-go/internal/verifkit"
)

// structs with embedding, inlining and tags
func TestVerifC10Structs(t *testing.T) {
	k := kit.New(t, "random programs of one or two packages whose structs have exported, unexported, ignored, embedded (also through pointers, also recursively) and inlined fields with random names and options, against a model of the types")
	fields := func() vopts {
		return vTag(k, "name", "ignore?", "required", "deprecated", "readonly", "writeonly", "nullable", "format", "type?", "inline?", "min?", "maxlen?", "minitems?", "unique?", "omitempty?")
	}
	for n := k.N(900, 20000); n > 0 && !k.Stop(); n-- {
		p := vProgram(k, fields, n%4 == 0)
		for _, q := range p.pkgs {
			for _, t := range p.types[q] {
				t := t
				if t.under().k != "struct" || p.clash(t.under()) {
					continue
				}
				ptr := "go://" + q + "#/" + t.name
				k.Case("C10:struct", ptr+" "+p.text(), func() {
					sc, err := p.scan(ptr)
					if err != nil {
						k.Fail("C10:scan", "%s: %v", p.text(), err)
						return
					}
					p.check(k, "C10:struct", sc, ptr, t)
				})
			}
		}
	}
}
