T = '''package container

import (
	"reflect"
	"testing"
)

var _ = reflect.DeepEqual

func doc(t *testing.T, s string) Container {
	c, err := ReadJSON([]byte(s))
	if err != nil {
		t.Fatal(err)
	}
	return c
}

func TestDemo(t *testing.T) {
%s}
'''
C = "internal/container/container.go"
U = "internal/container/utils.go"
M = "internal/container/merge.go"
P = "internal/container"
seed("c03-escape-once", "C03", [(U, '''	v = strings.Replace(v, "~", "~0", -1)''', '''	v = strings.Replace(v, "~", "~0", 1)''')], P, T % '''	c := New()
	if err := c.SetP(SliceToDotPath([]string{"a~b~1c"}), "x"); err != nil {
		t.Fatal(err)
	}
	if m := c.Data().(map[string]interface{}); m["a~b~1c"] != "x" {
		t.Fatal(m)
	}
''', "a key with two tildes, the second followed by 0 or 1", "the value is set under another key")
seed("c03-read-trimmed", "C03", [(C, "	return Container{c: c.c.Path(x), path: c.path}\n", "	if n := len(x) - 1; n > 0 && x[n] == '.' {\n		x = x[:n]\n	}\n	return Container{c: c.c.Path(x), path: c.path}\n"),
 (C, "	return c.c.ExistsP(path)\n", "	return c.Path(path).c != nil\n")], P, T % '''	c := doc(t, `{"a":{"b":1,"":2}}`)
	if x := c.Path(SliceToDotPath([]string{"a", ""})).Data(); x != 2.0 {
		t.Fatal(x)
	}
''', "a list of keys that ends with the empty key", "reading yields the parent of the node")
seed("c03-item-value", "C03", [(U, "			Val:   v,\n", "			Val:   c.Path(strings.Join(path, \".\")).Data(),\n")], P, T % '''	pp, err := ExtractKey(doc(t, `{"x.y":{"k":1},"x":{"y":{"k":2}}}`), "k")
	if err != nil || len(pp) != 2 {
		t.Fatal(pp, err)
	}
	for _, p := range pp {
		if want := doc(t, `{"x.y":{"k":1},"x":{"y":{"k":2}}}`).Path(p.Key).Data(); p.Val != want {
			t.Fatal(p.Key, p.Val, want)
		}
	}
''', "a leaf below a key that holds a dot or a tilde", "the leaf is reported with the value of another node, or none")
seed("c04-null-is-absent", "C04", [(M, "			if !c.c.Exists(newPath...) {\n", "			if c.c.Search(newPath...).Data() == nil {\n")], P, T % '''	d := doc(t, `{"a":{"b":null}}`)
	if err := d.Merge(doc(t, `{"a":{"b":1}}`), MergeDefault); err != nil {
		t.Fatal(err)
	}
	if d.Path("a.b").Data() != nil || !d.ExistsP("a.b") {
		t.Fatal(d.Data())
	}
	if d.Merge(doc(t, `{"a":{"b":1}}`), MergeStrict) == nil {
		t.Fatal("no collision")
	}
''', "a destination key holding null that the source gives a value", "the value of the destination is replaced and the strict policy does not fail")
seed("c04-override-null", "C04", [(M, "	return source, nil\n", "	if source != nil {\n		dest = source\n	}\n	return dest, nil\n")], P, T % '''	d := doc(t, `{"a":{"b":1}}`)
	if err := d.Merge(doc(t, `{"a":{"b":null}}`), MergeOverride); err != nil {
		t.Fatal(err)
	}
	if d.Path("a.b").Data() != nil {
		t.Fatal(d.Data())
	}
''', "a source key holding null over another value of the destination", "the overriding policy keeps the value of the destination")
seed("c04-empty-object", "C04", [(M, "					err := recursiveFnc(t, newPath)\n					if err != nil {\n", "					if len(t) == 0 {\n						return nil\n					}\n					if err := recursiveFnc(t, newPath); err != nil {\n")], P, T % '''	for i := 0; i < 200; i++ {
		d := doc(t, `{"a":{"x":1}}`)
		if err := d.Merge(doc(t, `{"a":{},"b":1,"c":2,"d":3}`), MergeStrict); err != nil {
			t.Fatal(err)
		}
		if len(d.Data().(map[string]interface{})) != 4 {
			t.Fatal(d.Data())
		}
	}
''', "an empty object in the source that meets an object, visited before other keys", "the keys after it are not merged")
seed("c05-merge-into-empty", "C05", [(M, "	source = source.Clone() // make sure we are not moving pointers\n", "	if m, ok := c.Data().(map[string]interface{}); !ok || len(m) > 0 {\n		source = source.Clone() // make sure we are not moving pointers\n	}\n")], P, T % '''	s, d := doc(t, `{"a":{"b":1}}`), New()
	if err := d.Merge(s, MergeStrict); err != nil {
		t.Fatal(err)
	}
	d.SetP("a.c", 2)
	if s.ExistsP("a.c") {
		t.Fatal("the source is now", s.Data())
	}
''', "merging into a document that is still empty", "the two documents share the objects of the source")
seed("c05-list-elements", "C05", [(U, "		c = x.Data()\n	}\n	bb, err := json.Marshal(mmap(c))\n", "		c = x.Data()\n	}\n	if x, ok := c.([]interface{}); ok {\n		a := make([]interface{}, len(x))\n		copy(a, x)\n		return a, nil\n	}\n	c = mmap(c)\n	bb, err := json.Marshal(c)\n")], P, T % '''	v := []interface{}{map[string]interface{}{"a": 1.0}}
	c := New()
	if err := c.SetP("l", v); err != nil {
		t.Fatal(err)
	}
	v[0].(map[string]interface{})["a"] = 2.0
	if x := c.Path("l.0.a").Data(); x != 1.0 {
		t.Fatal("the document reads", x)
	}
''', "a list of objects as the value itself, and an element changed afterwards", "the document and the caller share the elements")
