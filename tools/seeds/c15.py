F = "internal/oapi/oapi.go"
T = '''package oapi

import (
	"encoding/json"
	"reflect"
	"testing"

	"github.com/buypal/oapi-go/internal/container"
	"github.com/buypal/oapi-go/internal/oapi/spec"
)

func demoDoc(t *testing.T, s string) container.Container {
	c, err := container.ReadJSON([]byte(s))
	if err != nil {
		t.Fatal(err)
	}
	return c
}

func demoSame(t *testing.T, c container.Container, s string) {
	var x, y interface{}
	b, err := json.Marshal(c.Data())
	if err != nil || json.Unmarshal(b, &x) != nil || json.Unmarshal([]byte(s), &y) != nil {
		t.Fatal(err)
	}
	if !reflect.DeepEqual(x, y) {
		t.Fatalf("%%s\\n%%s", b, s)
	}
}

var _ spec.Operation

func TestDemo(t *testing.T) {
%s}
'''
seed("c15-dotted-path", "C15", [(F, '''				Key: container.SliceToDotPath([]string{
					"paths", path, m,
				}),
''', '''				Key:       "paths." + strings.ReplaceAll(strings.ReplaceAll(path, "~", "~0"), ".", "~1") + "." + m,
'''), (F, '''			err = cnt.SetP(f.Key, nc)
			if err != nil {
				return
			}
''', '''			if key := "paths." + f.Path + "." + f.Method; cnt.ExistsP(key) {
				f.Key = key
			}
			err = cnt.SetP(f.Key, nc)
			if err != nil {
				return
			}
''')], "internal/oapi", T % '''	c := demoDoc(t, `{"paths": {"/a~1b": {"get": {}}, "/a.b": {"get": {"summary": "x"}}, "/a": {"b": {"get": {}}}}}`)
	err := SetPathsDefaults(c, map[string]spec.Operation{"/a~1b": {Summary: "y"}})
	if err != nil {
		t.Fatal(err)
	}
	demoSame(t, c, `{"paths": {"/a~1b": {"get": {"summary": "y"}}, "/a.b": {"get": {"summary": "x"}}, "/a": {"b": {"get": {}}}}}`)
''', "a matching path which, read as a dot path, is the address of another path of the document", "the default is set on the other path")
seed("c15-once", "C15", [(F, '''		for _, f := range ff {
			var nc, ov container.Container
			nc = f.Operation
''', '''		for _, f := range ff {
			if done[f.Key] {
				continue
			}

			var nc, ov container.Container
			nc, done[f.Key] = f.Operation, true
'''), (F, '''	for _, pattern := range patterns {
		override := defops[pattern]
		var ff FlattenPaths
''', '''	done := make(map[string]bool)
	for _, pattern := range patterns {
		override := defops[pattern]
		var ff FlattenPaths
''')], "internal/oapi", T % '''	c := demoDoc(t, `{"paths": {"/a": {"get": {}}}}`)
	err := SetPathsDefaults(c, map[string]spec.Operation{"*": {Summary: "y"}, "/a": {Summary: "z", OperationID: "w"}})
	if err != nil {
		t.Fatal(err)
	}
	demoSame(t, c, `{"paths": {"/a": {"get": {"summary": "y", "operationId": "w"}}}}`)
''', "two defaults matching one operation, the second defining something the first does not", "only the first default fills gaps")
seed("c15-shared-default", "C15", [(F, '''		for _, f := range ff {
			var nc, ov container.Container
			nc = f.Operation

			ov, err = container.Make(override)
			if err != nil {
				return
			}

			err = nc.Merge(ov, container.MergeDefault)
			if err != nil {
				return
			}
''', '''		var ov container.Container
		ov, err = container.Make(override)
		if err != nil {
			return
		}
		for _, f := range ff {
			nc := ov

			err = nc.Merge(f.Operation, container.MergeOverride)
			if err != nil {
				return
			}
''')], "internal/oapi", T % '''	c := demoDoc(t, `{"paths": {"/a": {"get": {"description": "d"}, "put": {"summary": "s"}}}}`)
	err := SetPathsDefaults(c, map[string]spec.Operation{"/a": {OperationID: "w"}})
	if err != nil {
		t.Fatal(err)
	}
	v, _ := json.Marshal(c.Data())
	if x := string(v); x != `{"paths":{"/a":{"get":{"description":"d","operationId":"w"},"put":{"operationId":"w","summary":"s"}}}}` {
		t.Fatal(x)
	}
''', "one default matching several operations which define different things", "an operation takes over what another operation defines")
seed("c16-strict-lists", "C16", [(F, '''		if z.IsNil() && y.IsNil() {
			continue
		}
''', '''		if z.IsNil() && y.IsNil() || !z.IsNil() && !isMap(z) && isMap(y) {
			continue
		}
''')], "internal/oapi", T % '''	c := demoDoc(t, `{"components": "x"}`)
	err := MergeWithRoot(spec.OpenAPI{Components: &spec.Components{Schemas: map[string]*spec.Schema{"a": &spec.Schema{Type: "string"}}}}, c)
	if err == nil {
		t.Fatal("no error")
	}
''', "a section which is an object on one side only", "components which collide are accepted")
seed("c16-empty-map", "C16", [(F, '''		p, _ := container.Make(map[string]interface{}{
			x.key: s.Data(),
''', '''		p, _ := container.Make(map[string]interface{}{
			strings.ToLower(x.key[:1]) + x.key[1:]: s.Data(),
'''), (F, '''	for _, x := range []mx{
		{merge: container.MergeOverride, key: "info"},
		{merge: container.MergeStrict, key: "components"},
		{merge: container.MergeDefault, key: "paths"},
''', '''	for _, x := range []mx{
		{merge: container.MergeOverride, key: "info"},
		{merge: container.MergeStrict, key: "components"},
		{merge: container.MergeOverride, key: "paths"},
''')], "internal/oapi", T % '''	c := demoDoc(t, `{"paths": {"/a": {"get": {"summary": "scanned"}}}}`)
	root := spec.OpenAPI{}
	if err := json.Unmarshal([]byte(`{"paths": {"/a": {"get": {"summary": "root", "operationId": "x"}}}}`), &root); err != nil {
		t.Fatal(err)
	}
	if err := MergeWithRoot(root, c); err != nil {
		t.Fatal(err)
	}
	v, _ := json.Marshal(c.Data())
	if x := string(v); x != `{"paths":{"/a":{"get":{"operationId":"x","summary":"scanned"}}}}` {
		t.Fatal(x)
	}
''', "root and scanned document describing the same operation", "the root's value wins in paths")
seed("c16-second-section", "C16", [(F, '''		err = s.Merge(y, x.merge)
		if err != nil {
			return err
		}
''', '''		err = s.Merge(y, x.merge)
		if err != nil {
			if _, same := z.Data().(map[string]interface{})["schemas"]; same || x.key != "components" {
				return err
			}
		}
''')], "internal/oapi", T % '''	c := demoDoc(t, `{"components": {"headers": {"h": {"description": "a"}}}}`)
	err := MergeWithRoot(spec.OpenAPI{Components: &spec.Components{Headers: map[string]*spec.Header{"h": {Description: "b"}}}}, c)
	if err == nil {
		t.Fatal("no error")
	}
''', "components colliding outside schemas, in a document without schemas", "the collision is not reported")
