package resolver

import (
	"fmt"
	"reflect"
	"testing"

	"github.com/buypal/oapi-go/internal/container"
	"github.com/buypal/oapi-go/internal/oapi/spec"
	"github.com/buypal/oapi-go/internal/pointer"
	kit "github.com/buypal/oapi-go/internal/verifkit"
)

func TestVerifC07Exports(t *testing.T) {
	k := kit.New(t, "random documents and (cyclic) definitions with random exports of nine component kinds under plain and awkward names; the result and its components against an independent resolution")
	vRun(k, "exports", true, k.N(20000, 150000))
}

func TestVerifC07Addresses(t *testing.T) {
	k := kit.New(t, "every component kind with every awkward name: its path and its fragment lead to the same node of the section of the kind")
	kinds := []spec.Entity{spec.SchemaKind, spec.ResponseKind, spec.ParameterKind, spec.ExampleKind, spec.RequestBodyKind, spec.SecuritySchemeKind, spec.LinkKind, spec.CallbackKind, spec.PathItemKind, spec.HeaderKind}
	for _, kind := range kinds {
		for i := 0; i < k.N(60, 600); i++ {
			name := k.Str()
			id := "address"
			if kind == spec.HeaderKind {
				id = "header-section"
			}
			k.Case(id, fmt.Sprintf("%v %q", kind, name), func() {
				e := Entity{Entity: kind, Name: name}
				c := container.New()
				if err := SetEntity(c, "", EntityValue{Entity: e, Value: "here"}); err != nil {
					k.Fail(id, "kind %v, name %q: %v", kind, name, err)
					return
				}
				want := map[string]interface{}{"components": map[string]interface{}{vSection(kind): map[string]interface{}{name: "here"}}}
				if !reflect.DeepEqual(c.Data(), interface{}(want)) {
					k.Fail(id, "kind %v, name %q is stored as %s, want section %s", kind, name, vJ(c.Data()), vSection(kind))
					return
				}
				p := pointer.NewPointer()
				p.Fragment = e.Fragment()
				q, err := pointer.Parse(p.String())
				if err != nil || q.IsExternal() || !reflect.DeepEqual([]string(q.Fragment), []string{"components", vSection(kind), name}) {
					k.Fail(id, "kind %v, name %q is referred to by %q: %q, %v", kind, name, p.String(), q.Fragment, err)
				}
			})
		}
	}
}

func TestVerifC07Get(t *testing.T) {
	k := kit.New(t, "every export of a random list is found by its pointer, and nothing else is")
	for n := 0; n < k.N(300, 3000); n++ {
		var exp Exports
		texts := []string{"go://p#/T", "go://p#/T/a", "go://p#/t", "go://p/q#/T", "go://p#/T~1a", "http://p#/T", "go://p#/U", "go://P#/T"}
		in := map[string]int{}
		for i, s := range texts {
			if k.R.Intn(2) == 0 {
				p, _ := pointer.Parse(s)
				exp = append(exp, Pointer{Entity: Entity{Name: fmt.Sprint(i)}, Pointer: p})
				in[s] = i
			}
		}
		k.Case("get", fmt.Sprint(in), func() {
			for i, s := range texts {
				p, _ := pointer.Parse(s)
				x, ok := exp.Get(p)
				if _, want := in[s]; ok != want || ok && x.Name != fmt.Sprint(i) {
					k.Fail("get", "of exports %v, %s gives %q %v", in, s, x.Name, ok)
				}
			}
		})
	}
}
