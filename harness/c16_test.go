package oapi

import (
	"reflect"
	"testing"

	"github.com/buypal/oapi-go/internal/container"
	"github.com/buypal/oapi-go/internal/oapi/spec"
	kit "github.com/buypal/oapi-go/internal/verifkit"
)

// vRoot is a random root document.
func vRoot(k *kit.K) (r spec.OpenAPI) {
	s := func() string { return kit.Pick(k, "a", "b", "c.d", "e~f", "") }
	vEvery(k,
		func() { r.OpenAPI = "3.0.1" },
		func() {
			r.Info = &spec.Info{Title: s(), Version: s(), Description: s()}
			vEvery(k, func() { r.Info.Contact = &spec.Contact{Name: s()} }, func() { r.Info.License = &spec.License{Name: s()} })
		},
		func() {
			r.Servers = []*spec.Server{}
			for i := k.R.Intn(3); i > 0; i-- {
				r.Servers = append(r.Servers, &spec.Server{URL: s()})
			}
		},
		func() {
			r.Paths = spec.Paths{}
			for i := k.R.Intn(3); i > 0; i-- {
				it := &spec.PathItem{}
				vEvery(k, func() { it.Summary = s() }, func() { o := vOp(k); it.Get = &o }, func() { o := vOp(k); it.Post = &o })
				r.Paths[kit.Pick(k, vPathPool...)] = it
			}
		},
		func() {
			r.Components = &spec.Components{}
			vEvery(k,
				func() {
					r.Components.Schemas = map[string]*spec.Schema{kit.Pick(k, "a", "b", "x.y", "~"): {Description: s()}}
				},
				func() {
					r.Components.Responses = map[string]*spec.Response{kit.Pick(k, "a", "b", "x.y"): {Description: s()}}
				},
				func() {
					r.Components.Headers = map[string]*spec.Header{kit.Pick(k, "a", "b"): {Description: s()}}
				})
		},
		func() { r.Security = []map[string]spec.SecurityRequirement{{s(): {}}} },
		func() { r.Tags = []*spec.Tag{{Name: s()}, {Name: s()}} },
		func() { r.ExternalDocs = &spec.ExternalDocumentation{Description: s(), URL: s()} },
	)
	return
}

// vScanned is a random scanned document, rich in what the root says too.
func vScanned(k *kit.K, root vM) vM {
	doc := vPathsDoc(k)
	key := func() string { return kit.Pick(k, "a", "b", "title", "x.y", "schemas", "url") }
	for x, v := range vDoc(vRoot(k)).(vM) {
		if k.R.Intn(2) == 0 {
			doc[x] = v
		}
	}
	for x, v := range root {
		if k.R.Intn(6) == 0 {
			doc[x] = kit.Copy(v)
		}
	}
	for i := k.R.Intn(3); i > 0; i-- {
		doc[kit.Pick(k, "info", "components", "paths", "externalDocs", "security", "servers", "tags", "x-other", "a.b")] = k.JSON(3, key)
	}
	return doc
}

// vJoin merges objects; where both have a value and one is no object, pick
// decides.
func vJoin(a, b interface{}, pick func(a, b interface{}) (interface{}, bool)) (interface{}, bool) {
	x, ok1 := a.(vM)
	y, ok2 := b.(vM)
	if !ok1 || !ok2 {
		return pick(a, b)
	}
	m, all := vM{}, true
	for k, v := range x {
		m[k] = v
	}
	for k, v := range y {
		if w, ok := m[k]; ok {
			r, ok := vJoin(w, v, pick)
			m[k], all = r, all && ok
		} else {
			m[k] = v
		}
	}
	return m, all
}

func TestVerifC16Root(t *testing.T) {
	k := kit.New(t, "random root and scanned documents, against an independent merge of each section")
	first := func(a, b interface{}) (interface{}, bool) { return a, true }
	second := func(a, b interface{}) (interface{}, bool) { return b, true }
	none := func(a, b interface{}) (interface{}, bool) { return nil, false }
	for n := 0; n < k.N(12000, 120000) && !k.Stop(); n++ {
		root := vRoot(k)
		r := vDoc(root).(vM)
		doc := vScanned(k, r)
		desc := vJ(doc) + " with root " + vJ(root)
		k.Case("root", desc, func() {
			want, ok := vM{}, true
			for x, v := range doc {
				want[x] = v
			}
			for x, pick := range map[string]func(a, b interface{}) (interface{}, bool){
				"info": second, "components": none, "paths": first, "externalDocs": first, "security": first, "servers": first, "tags": first,
			} {
				b, inRoot := r[x]
				a := doc[x]
				if !inRoot {
					continue
				}
				if a == nil {
					want[x] = b
					continue
				}
				v, fine := vJoin(a, b, pick)
				want[x] = v
				ok = ok && fine
			}
			c, err := container.Make(doc)
			if err != nil {
				panic(err)
			}
			err = MergeWithRoot(root, c)
			if (err == nil) != ok {
				k.Fail("root", "%s: error %v, want failure %v", desc, err, !ok)
				return
			}
			if got := vDoc(c.Data()); ok && !reflect.DeepEqual(got, interface{}(want)) {
				k.Fail("root", "%s gives %s, want %s", desc, vJ(got), vJ(want))
			}
			if !reflect.DeepEqual(vDoc(root), interface{}(r)) {
				k.Fail("root", "%s: the root becomes %s", desc, vJ(root))
			}
		})
	}
}
