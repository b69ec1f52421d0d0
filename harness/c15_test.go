package oapi

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/buypal/oapi-go/internal/container"
	"github.com/buypal/oapi-go/internal/oapi/spec"
	"github.com/buypal/oapi-go/internal/route"
	kit "github.com/buypal/oapi-go/internal/verifkit"
)

type vM = map[string]interface{}

func vJ(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%#v", v)
	}
	return string(b)
}

// vDoc is the document of a value.
func vDoc(v interface{}) (x interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	if err = json.Unmarshal(b, &x); err != nil {
		panic(err)
	}
	return
}

// vFill takes over what is missing, through objects.
func vFill(a, b interface{}) interface{} {
	x, ok1 := a.(vM)
	y, ok2 := b.(vM)
	if !ok1 || !ok2 {
		return a
	}
	m := vM{}
	for k, v := range x {
		m[k] = v
	}
	for k, v := range y {
		if w, ok := m[k]; ok {
			m[k] = vFill(w, v)
		} else {
			m[k] = v
		}
	}
	return m
}

func vEvery(k *kit.K, f ...func()) {
	for _, x := range f {
		if k.R.Intn(3) == 0 {
			x()
		}
	}
}

// vOp is a random operation.
func vOp(k *kit.K) (o spec.Operation) {
	s := func() string { return kit.Pick(k, "a", "b", "c.d", "e~f", "<é>") }
	resp := func() *spec.Response {
		r := &spec.Response{}
		vEvery(k, func() { r.Description = s() },
			func() { r.Headers = map[string]*spec.Header{s(): {Description: s()}} },
			func() {
				r.Content = map[string]*spec.MediaType{kit.Pick(k, "application/json", "text/plain", "a.b"): {}}
			})
		return r
	}
	vEvery(k,
		func() { o.Tags = []string{s(), s()} },
		func() { o.Summary = s() },
		func() { o.Description = s() },
		func() { o.ExternalDocs = &spec.ExternalDocumentation{Description: s(), URL: kit.Pick(k, "", "u")} },
		func() { o.OperationID = s() },
		func() { o.Parameters = []*spec.Parameter{{Name: s(), In: "query"}} },
		func() {
			o.RequestBody = &spec.RequestBody{Description: s(), Content: map[string]*spec.MediaType{"application/json": {}}}
		},
		func() {
			o.Responses = map[string]*spec.Response{}
			for i := k.R.Intn(3); i >= 0; i-- {
				o.Responses[kit.Pick(k, "200", "404", "default", "5xx")] = resp()
			}
		},
		func() { o.Deprecated = true },
		func() { o.Security = []map[string]spec.SecurityRequirement{{s(): {s()}}} },
		func() { o.Servers = []*spec.Server{{URL: s()}} },
	)
	return
}

// vOpDoc is what a document says about an operation.
func vOpDoc(k *kit.K) vM {
	m := vDoc(vOp(k)).(vM)
	key := func() string { return kit.Pick(k, "x-a", "x-b", "a.b", "summary", "description", "~") }
	for i := k.R.Intn(3); i > 0; i-- {
		x := kit.Pick(k, "x-ext", "summary", "deprecated", "tags", "responses", "externalDocs", "description", "requestBody")
		m[x] = k.JSON(2, key)
	}
	if r, ok := m["responses"].(vM); ok && k.R.Intn(2) == 0 {
		r[kit.Pick(k, "200", "404", "default")] = k.JSON(2, key)
	}
	return m
}

var vPathPool = []string{"/", "/a", "/a/b", "/a.b", "/x/{id}", "/~1", "/a/b/c", "a", "", "/é", "/a(b)", "/a b"}

func vMethodKey(k *kit.K) string {
	return kit.Pick(k, "get", "put", "post", "delete", "options", "head", "patch", "trace", "GET", "Post")
}

// vPathsDoc is a random document with paths.
func vPathsDoc(k *kit.K) vM {
	key := func() string { return kit.Pick(k, "a", "b", "get", "paths", "x.y") }
	doc := vM{}
	for i := k.R.Intn(3); i > 0; i-- {
		doc[kit.Pick(k, "info", "openapi", "components", "x-a.b", "tags")] = k.JSON(3, key)
	}
	paths := vM{}
	for i := k.R.Intn(5); i > 0; i-- {
		item := vM{}
		for j := k.R.Intn(4); j > 0; j-- {
			item[vMethodKey(k)] = vOpDoc(k)
		}
		for j := k.R.Intn(2); j > 0; j-- {
			item[kit.Pick(k, "summary", "parameters", "servers", "description", "x-get", "$ref", "connect", "x.y")] = k.JSON(2, key)
		}
		paths[kit.Pick(k, vPathPool...)] = item
	}
	if k.R.Intn(3) == 0 {
		vDecoys(k, paths)
	}
	switch k.R.Intn(20) {
	case 0:
	case 1:
		doc["paths"] = nil
	default:
		doc["paths"] = paths
	}
	return doc
}

// vDecoys puts something where a path would lead if it was misread.
func vDecoys(k *kit.K, paths vM) {
	put := func(at vM, keys []string, v interface{}) {
		for _, x := range keys[:len(keys)-1] {
			next, ok := at[x].(vM)
			if !ok {
				if at[x] != nil {
					return
				}
				next = vM{}
				at[x] = next
			}
			at = next
		}
		if x := keys[len(keys)-1]; at[x] == nil {
			at[x] = v
		}
	}
	for i := k.R.Intn(3); i >= 0; i-- {
		path := kit.Pick(k, "/a.b", "/a~1b", "/a~0b", "/x.y/{id}", "/a~b", "a.b", ".", "/a~01b")
		put(paths, []string{path, "get"}, vOpDoc(k))
		for _, r := range [][]string{{"~1", ".", "~0", "~"}, {"~0", "~", "~1", "."}, {"~0", "~", "~1", "/"}, {".", "~1"}, {"~", "~0"}, {"~1", "."}} {
			if k.R.Intn(3) == 0 {
				x := path
				for j := 0; j < len(r); j += 2 {
					x = strings.Replace(x, r[j], r[j+1], -1)
				}
				put(paths, []string{x, "get"}, vOpDoc(k))
			}
		}
		if k.R.Intn(2) == 0 {
			put(paths, append(strings.Split(path, "."), "get"), vOpDoc(k))
		}
	}
}

func vDefaults(k *kit.K) map[string]spec.Operation {
	d := map[string]spec.Operation{}
	for i := k.R.Intn(4); i > 0; i-- {
		p := kit.Pick(k, vPathPool...)
		switch k.R.Intn(6) {
		case 0:
			p = "*"
		case 1:
			p = "/{seg}"
		case 2:
			p = "/a*"
		case 3:
			p += "*"
		case 4:
			p = kit.Pick(k, "/a.b", "/a~1b", "/a~0b", "/x.y/{id}", "/a~b", "a.b", ".")
		}
		if k.R.Intn(3) == 0 {
			p = vMethodKey(k) + ":" + p
		}
		d[p] = vOp(k)
	}
	return d
}

func vIsOp(key string) bool {
	switch strings.ToLower(key) {
	case "get", "put", "post", "delete", "options", "head", "patch", "trace":
		return true
	}
	return false
}

// vApply is the document with the defaults applied.
func vApply(doc vM, defs map[string]spec.Operation) vM {
	res := kit.Copy(doc).(vM)
	paths, _ := res["paths"].(vM)
	var pats []string
	for p := range defs {
		pats = append(pats, p)
	}
	sort.Strings(pats)
	for path, it := range paths {
		item, _ := it.(vM)
		for m, op := range item {
			if !vIsOp(m) {
				continue
			}
			for _, p := range pats {
				ok, err := route.Match(p, m, path)
				if err != nil {
					panic(err)
				}
				if ok {
					op = vFill(op, vDoc(defs[p]))
				}
			}
			item[m] = op
		}
	}
	return res
}

func TestVerifC15Defaults(t *testing.T) {
	k := kit.New(t, "random documents with operations and random default operations, against an independent fill of the gaps")
	for n := 0; n < k.N(12000, 120000) && !k.Stop(); n++ {
		doc, defs := vPathsDoc(k), vDefaults(k)
		desc := vJ(doc) + " with defaults " + vJ(defs)
		k.Case("defaults", desc, func() {
			before := vJ(defs)
			want := vApply(doc, defs)
			c, err := container.Make(doc)
			if err != nil {
				panic(err)
			}
			err = SetPathsDefaults(c, defs)
			if err != nil {
				k.Fail("defaults", "%s: error %v", desc, err)
				return
			}
			if got := vDoc(c.Data()); !reflect.DeepEqual(got, interface{}(want)) {
				k.Fail("defaults", "%s gives %s, want %s", desc, vJ(got), vJ(want))
			}
			if vJ(defs) != before {
				k.Fail("defaults", "%s: the defaults become %s", desc, vJ(defs))
			}
		})
	}
}

func TestVerifC15Malformed(t *testing.T) {
	k := kit.New(t, "documents whose paths or path items are no objects")
	for n := 0; n < k.N(1500, 10000) && !k.Stop(); n++ {
		doc, defs := vPathsDoc(k), vDefaults(k)
		paths, _ := doc["paths"].(vM)
		bad := kit.Pick(k, "text", "list", "number")
		var x interface{} = map[string]interface{}{"text": "get", "list": []interface{}{vM{"get": vM{}}}, "number": 3.5}[bad]
		if paths == nil || k.R.Intn(2) == 0 {
			doc["paths"] = x
		} else {
			paths[kit.Pick(k, vPathPool...)] = x
		}
		desc := vJ(doc) + " with defaults " + vJ(defs)
		k.Case("malformed", desc, func() {
			c, _ := container.Make(doc)
			if err := SetPathsDefaults(c, defs); err == nil {
				k.Fail("malformed", "%s: no error", desc)
			}
			if got := vDoc(c.Data()); !reflect.DeepEqual(got, interface{}(doc)) {
				k.Fail("malformed", "%s: the document becomes %s", desc, vJ(got))
			}
		})
	}
}

func TestVerifC15Paths(t *testing.T) {
	k := kit.New(t, "the operations found in a random document")
	for n := 0; n < k.N(3000, 20000) && !k.Stop(); n++ {
		doc := vPathsDoc(k)
		desc := vJ(doc)
		k.Case("paths", desc, func() {
			c, _ := container.Make(doc)
			ff, err := Paths(c)
			if err != nil {
				k.Fail("paths", "%s: error %v", desc, err)
				return
			}
			want := map[string]string{}
			paths, _ := doc["paths"].(vM)
			for p, it := range paths {
				for m, op := range it.(vM) {
					if vIsOp(m) {
						want[m+" "+p] = vJ(op)
					}
				}
			}
			for _, f := range ff {
				id := f.Method + " " + f.Path
				if want[id] == "" || want[id] != vJ(f.Operation.Data()) || vJ(c.Path(f.Key).Data()) != want[id] {
					k.Fail("paths", "%s: operation %q at %q is %s", desc, id, f.Key, vJ(f.Operation.Data()))
				}
				delete(want, id)
			}
			if len(want) > 0 {
				k.Fail("paths", "%s: not found: %v", desc, want)
			}
		})
	}
}
