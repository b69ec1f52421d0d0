T = '''package resolver

import (
	"encoding/json"
	"errors"
	"testing"

	"github.com/buypal/oapi-go/internal/container"
	"github.com/buypal/oapi-go/internal/oapi/spec"
	"github.com/buypal/oapi-go/internal/pointer"
)

type demoDef struct{ v interface{} }

func (demoDef) Entity() spec.Entity            { return spec.SchemaKind }
func (d demoDef) MarshalJSON() ([]byte, error) { return json.Marshal(d.v) }

func ptr(t *testing.T, s string) pointer.Pointer {
	p, err := pointer.Parse(s)
	if err != nil {
		t.Fatal(err)
	}
	return p
}

func run(t *testing.T, doc string, exp Exports, defs map[string]string) (string, error) {
	c, err := container.ReadJSON([]byte(doc))
	if err != nil {
		t.Fatal(err)
	}
	r, err := Resolve(c, exp, func(p pointer.Pointer) (spec.Entiter, error) {
		s, ok := defs[p.String()]
		if !ok {
			return nil, errors.New("unknown")
		}
		var v interface{}
		if err := json.Unmarshal([]byte(s), &v); err != nil {
			t.Fatal(err)
		}
		return demoDef{v}, nil
	})
	if err != nil {
		return "", err
	}
	b, _ := json.Marshal(r.Data())
	return string(b), nil
}

func TestDemo(t *testing.T) {
%s}
'''
R = "internal/oapi/resolver/resolver.go"
U = "internal/oapi/resolver/utils.go"
P = "internal/oapi/resolver"
seed("c06-same-name", "C06", [(R, "		if el.String() == px.String() {", "		if el.Fragment.String() == px.Fragment.String() {")], P, T % '''	got, err := run(t, `{"a":{"$ref":"go://a#/T"}}`, nil, map[string]string{"go://a#/T": `{"x":{"$ref":"go://b#/T"}}`, "go://b#/T": `{"type":"string"}`})
	if err != nil || got != `{"a":{"x":{"type":"string"}}}` {
		t.Fatal(got, err)
	}
''', "a type that refers to a type of the same name in another package", "the reference is taken for a recursion and cut off")
seed("c06-malformed", "C06", [(R, '''		p, err := pointer.Parse(s)
		if err != nil {
			return cx, err
		}
''', '''		p, err := pointer.Parse(s)
		if err != nil && dept == 0 {
			return cx, err
		}
''')], P, T % '''	got, err := run(t, `{"a":{"$ref":"go://a#/T"}}`, nil, map[string]string{"go://a#/T": `{"x":{"$ref":"go://b/%%zz#/T"}}`})
	if err == nil {
		t.Fatal(got)
	}
''', "a malformed reference inside a resolved definition", "the resolution succeeds")
seed("c06-path-shared", "C06", [(R, "		if pp.has(p) {\n", "		if pp.has(p) || dept > 3 && r.exp == nil {\n")], P, T % '''	got, err := run(t, `{"a":{"$ref":"go://a#/A"}}`, nil, map[string]string{
		"go://a#/A": `{"b":{"$ref":"go://a#/B"}}`, "go://a#/B": `{"c":{"$ref":"go://a#/C"}}`, "go://a#/C": `{"d":{"$ref":"go://a#/D"}}`,
		"go://a#/D": `{"e":{"$ref":"go://a#/E"}}`, "go://a#/E": `{"type":"string"}`})
	if err != nil || got != `{"a":{"b":{"c":{"d":{"e":{"type":"string"}}}}}}` {
		t.Fatal(got, err)
	}
''', "a chain of more than four definitions without exports", "the definition at the end of the chain is cut off")
seed("c06-sibling-recursion", "C06", [(R, "		nc, err = r.iterator(nc, append(pp, p), dept+1)\n", "		pp = append(pp, p)\n		nc, err = r.iterator(nc, pp, dept+1)\n")], P, T % '''	got, err := run(t, `{"a":{"$ref":"go://a#/A"},"b":{"$ref":"go://a#/A"}}`, nil, map[string]string{"go://a#/A": `{"type":"string"}`})
	if err != nil || got != `{"a":{"type":"string"},"b":{"type":"string"}}` {
		t.Fatal(got, err)
	}
''', "one type referenced twice in a document", "the second reference becomes an empty object")
E7 = '''	exp := Exports{{Entity: Entity{Entity: spec.SchemaKind, Name: "T"}, Pointer: ptr(t, "go://a#/T")}}
'''
seed("c07-by-name", "C07", [(R, "		if x.String() == p.String() {", "		if x.Pointer.Fragment.String() == p.Fragment.String() {")], P, T % (E7 + '''	got, err := run(t, `{"a":{"$ref":"go://b.org/a#/T"}}`, append(exp[:0:0], Pointer{Entity: exp[0].Entity, Pointer: ptr(t, "go://a.org/a#/T")}), map[string]string{"go://b.org/a#/T": `{"type":"string"}`})
	if err != nil || got != `{"a":{"type":"string"}}` {
		t.Fatal(got, err)
	}
'''), "two packages of the same name with a type of the same name, one exported", "the other package's type is stored as the component")
seed("c07-nested-store", "C07", [(R, "	err = SetEntity(r.con, key, e)\n", "	err = SetEntity(cx, key, e)\n")], P, T % (E7 + '''	got, err := run(t, `{"x":{"$ref":"go://a#/X"}}`, exp, map[string]string{"go://a#/X": `{"t":{"$ref":"go://a#/T"}}`, "go://a#/T": `{"type":"string"}`})
	if err != nil || got != `{"components":{"schemas":{"T":{"type":"string"}}},"x":{"t":{"$ref":"#/components/schemas/T"}}}` {
		t.Fatal(got, err)
	}
'''), "an exported type referenced from another definition only", "the component is stored inside that definition")
seed("c07-recursive-cut", "C07", [(R, "	if ok && ep.IsScheme() {", "	if ok && ep.IsScheme() && len(r.exp) == 1 {")], P, T % (E7 + '''	exp = append(exp, Pointer{Entity: Entity{Entity: spec.SchemaKind, Name: "U"}, Pointer: ptr(t, "go://a#/U")})
	got, err := run(t, `{"x":{"$ref":"go://a#/T"}}`, exp, map[string]string{"go://a#/T": `{"t":{"$ref":"go://a#/T"}}`})
	if err != nil || got != `{"components":{"schemas":{"T":{"t":{"$ref":"#/components/schemas/T"}}}},"x":{"$ref":"#/components/schemas/T"}}` {
		t.Fatal(got, err)
	}
'''), "a recursive exported schema next to another export", "the recursion becomes an empty object")
