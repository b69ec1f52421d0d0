package resolver

import (
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/buypal/oapi-go/internal/container"
	"github.com/buypal/oapi-go/internal/oapi/spec"
	"github.com/buypal/oapi-go/internal/pointer"
	kit "github.com/buypal/oapi-go/internal/verifkit"
)

// vDef is what a reference stands for.
type vDef struct {
	v    interface{}
	kind spec.Entity
}

func (d vDef) Entity() spec.Entity          { return d.kind }
func (d vDef) MarshalJSON() ([]byte, error) { return json.Marshal(d.v) }

func vJ(v interface{}) string {
	b, _ := json.Marshal(v)
	return string(b)
}

// vWorld is a set of definitions by reference text; a nil one fails.
type vWorld struct {
	defs map[string]interface{}
	exps map[string]Entity
	comp map[string]map[string][]interface{} // section, name: what may be stored
}

func vExternal(s string) (ext, bad bool) {
	switch {
	case strings.HasPrefix(s, "go://"), strings.HasPrefix(s, "http:"), strings.HasPrefix(s, "x+y://"):
		ext = true
	}
	return ext, strings.Contains(s, "%zz") || strings.Contains(s, "#nofrag")
}

func vTok(s string) string {
	return strings.Replace(strings.Replace(strings.Replace(s, "%", "%25", -1), "~", "~0", -1), "/", "~1", -1)
}

func vSection(k spec.Entity) string {
	return map[spec.Entity]string{
		spec.SchemaKind: "schemas", spec.ResponseKind: "responses", spec.ParameterKind: "parameters",
		spec.ExampleKind: "examples", spec.RequestBodyKind: "requestBodies", spec.SecuritySchemeKind: "securitySchemes",
		spec.LinkKind: "links", spec.CallbackKind: "callbacks", spec.PathItemKind: "paths", spec.HeaderKind: "headers",
	}[k]
}

// resolve is the meaning of resolution, written independently.
func (w *vWorld) resolve(v interface{}, on []string) (interface{}, bool) {
	switch x := v.(type) {
	case []interface{}:
		a := []interface{}{}
		for _, e := range x {
			r, ok := w.resolve(e, on)
			if !ok {
				return nil, false
			}
			a = append(a, r)
		}
		return a, true
	case map[string]interface{}:
		m := map[string]interface{}{}
		for k, e := range x {
			r, ok := w.resolve(e, on)
			if !ok {
				return nil, false
			}
			m[k] = r
		}
		s, is := x["$ref"].(string)
		if !is {
			return m, true
		}
		ext, bad := vExternal(s)
		if bad {
			return nil, false
		}
		if !ext {
			return m, true
		}
		e, exported := w.exps[s]
		local := "#/components/" + vSection(e.Entity) + "/" + vTok(e.Name)
		for _, o := range on {
			if o == s {
				if exported && e.Entity == spec.SchemaKind {
					m["$ref"] = local
					return m, true
				}
				return map[string]interface{}{}, true
			}
		}
		d, ok := w.defs[s]
		if !ok {
			return nil, false
		}
		switch d.(type) {
		case map[string]interface{}, []interface{}:
		default:
			return nil, false
		}
		r, ok := w.resolve(d, append(append([]string{}, on...), s))
		if !ok {
			return nil, false
		}
		if exported {
			sec := vSection(e.Entity)
			if w.comp[sec] == nil {
				w.comp[sec] = map[string][]interface{}{}
			}
			w.comp[sec][e.Name] = append(w.comp[sec][e.Name], r)
			m["$ref"] = local
			return m, true
		}
		return r, true
	}
	return v, true
}

// vDoc is a random document with references.
func vDoc(k *kit.K, depth int, refs []string) map[string]interface{} {
	m := map[string]interface{}{}
	key := func() string {
		return kit.Pick(k, "a", "b", "x.y", "~1", "properties", "0", "", "$refs", "a/b", "z~0.")
	}
	var val func(d int) interface{}
	val = func(d int) interface{} {
		n := k.R.Intn(10)
		if d <= 0 && n > 5 {
			n = k.R.Intn(5)
		}
		switch n {
		case 0, 1:
			o := map[string]interface{}{"$ref": refs[k.R.Intn(len(refs))]}
			if k.R.Intn(4) == 0 {
				o[key()] = val(d - 1)
			}
			return o
		case 2:
			return kit.Pick(k, "text", "go://p#/T", "", "#/components/schemas/q")
		case 3:
			return float64(k.R.Intn(100))
		case 4:
			return nil
		case 5:
			return map[string]interface{}{"$ref": kit.Pick(k, "#/a", "#/components/schemas/q", "", "other.yaml#/x", "a/b")}
		case 6:
			a := []interface{}{}
			for i := k.R.Intn(4); i > 0; i-- {
				a = append(a, val(d-1))
			}
			return a
		case 7:
			if k.R.Intn(3) == 0 { // a property that is called $ref
				return map[string]interface{}{"$ref": val(d - 1)}
			}
			return true
		default:
			o := map[string]interface{}{}
			for i := k.R.Intn(4); i > 0; i-- {
				o[key()] = val(d - 1)
			}
			return o
		}
	}
	for i := 1 + k.R.Intn(3); i > 0; i-- {
		m[key()] = val(depth)
	}
	return m
}

func vMake(k *kit.K, exports bool) (*vWorld, map[string]interface{}, Exports, error) {
	w := &vWorld{defs: map[string]interface{}{}, exps: map[string]Entity{}, comp: map[string]map[string][]interface{}{}}
	all := []string{"go://p#/T", "go://p#/U", "go://q/r#/T", "go://q/r#/T/Sub~1x", "http://h/x.json#/d", "x+y://z#/1", "go://p#/V"}
	n := 1 + k.R.Intn(len(all))
	refs := all[:n]
	bad := func() []string {
		if k.R.Intn(12) != 0 {
			return refs
		}
		return append(append([]string{}, refs...), kit.Pick(k, "go://p#/%zz", "#nofrag", "go://p#nofrag", "go://%zz#/T", "http://h/%zz#/d"))
	}
	in, indef := bad(), bad()
	for _, r := range refs {
		if k.R.Intn(40) == 0 {
			continue // resolving it fails
		}
		d := vDoc(k, 3, indef)
		if k.R.Intn(12) == 0 {
			d = map[string]interface{}{"$ref": refs[k.R.Intn(n)]}
		}
		w.defs[r] = d
		if k.R.Intn(15) == 0 {
			w.defs[r] = []interface{}{d, "x"}
		}
	}
	doc := vDoc(k, 4, in)
	var exp Exports
	if exports {
		names := map[string]bool{}
		for _, r := range refs {
			if k.R.Intn(2) == 0 {
				continue
			}
			e := Entity{Name: kit.Pick(k, "A", "B", "C.d", "e/f", "~g", "h~1.i", "long name", "", "*", "0", "%")}
			e.Entity = []spec.Entity{spec.SchemaKind, spec.SchemaKind, spec.SchemaKind, spec.ResponseKind, spec.ParameterKind, spec.ExampleKind, spec.RequestBodyKind, spec.SecuritySchemeKind, spec.LinkKind, spec.CallbackKind, spec.PathItemKind}[k.R.Intn(11)]
			id := fmt.Sprint(e.Entity, e.Name)
			if names[id] {
				continue
			}
			names[id] = true
			w.exps[r] = e
			p, err := pointer.Parse(r)
			if err != nil {
				return nil, nil, nil, err
			}
			exp = append(exp, Pointer{Entity: e, Pointer: p})
		}
	}
	return w, doc, exp, nil
}

func vRun(k *kit.K, id string, exports bool, count int) {
	for n := 0; n < count; n++ {
		w, doc, exp, err := vMake(k, exports)
		if !exports && k.R.Intn(10) == 0 { // the document is itself a reference
			doc = map[string]interface{}{"$ref": kit.Pick(k, "go://p#/T", "#/x")}
		}
		desc := fmt.Sprintf("%s with %s exports %v", vJ(doc), vJ(w.defs), w.exps)
		k.Case(id, desc, func() {
			if err != nil {
				k.Fail(id, "%v", err)
				return
			}
			want, ok := w.resolve(doc, nil)
			c, err := container.Make(doc)
			if err != nil {
				k.Fail(id, "%s: %v", desc, err)
				return
			}
			calls := 0
			got, err := Resolve(c, exp, func(p pointer.Pointer) (spec.Entiter, error) {
				if calls++; calls > 200000 {
					return nil, errors.New("resolution does not end")
				}
				d, ok := w.defs[p.String()]
				if !ok {
					return nil, errors.New("cannot be resolved")
				}
				return vDef{d, spec.SchemaKind}, nil
			})
			if !reflect.DeepEqual(c.Data(), interface{}(doc)) {
				k.Fail(id, "%s: resolving changed the document it was given to %s", desc, vJ(c.Data()))
				return
			}
			if (err == nil) != ok {
				k.Fail(id, "%s: error %v, want failure %v", desc, err, !ok)
				return
			}
			if !ok {
				return
			}
			if len(w.comp) == 0 {
				if !reflect.DeepEqual(got.Data(), want) {
					k.Fail(id, "%s: gives %s, want %s", desc, vJ(got.Data()), vJ(want))
				}
				return
			}
			m := kit.Copy(got.Data()).(map[string]interface{})
			comps, _ := m["components"].(map[string]interface{})
			delete(m, "components")
			if !reflect.DeepEqual(interface{}(m), want) {
				k.Fail(id, "%s: gives %s outside of its components, want %s", desc, vJ(m), vJ(want))
				return
			}
			vComps(k, id, desc, comps, w.comp)
		})
	}
}

// vComps compares the components; one resolved more than once, in different
// contexts, may be any of its resolutions.
func vComps(k *kit.K, id, desc string, got map[string]interface{}, want map[string]map[string][]interface{}) {
	var secs []string
	for s := range want {
		secs = append(secs, s)
	}
	sort.Strings(secs)
	if len(got) != len(secs) {
		k.Fail(id, "%s: components %s, want sections %v", desc, vJ(got), secs)
		return
	}
	for _, s := range secs {
		sec, _ := got[s].(map[string]interface{})
		if len(sec) != len(want[s]) {
			k.Fail(id, "%s: section %s is %s, want names of %s", desc, s, vJ(got[s]), vJ(want[s]))
			return
		}
		for name, vs := range want[s] {
			have, in := sec[name]
			found := false
			for _, v := range vs {
				found = found || in && reflect.DeepEqual(have, v)
			}
			if !found {
				k.Fail(id, "%s: component %s %q is %s, want one of %s", desc, s, name, vJ(have), vJ(vs))
				return
			}
		}
	}
}

func TestVerifC06Resolve(t *testing.T) {
	k := kit.New(t, "random documents with local, external, malformed and unresolvable references under any key, random (also cyclic) definitions, no exports; the result against an independent resolution")
	vRun(k, "resolve", false, k.N(20000, 150000))
}
