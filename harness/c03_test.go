package container

import (
	"fmt"
	"strconv"
	"testing"

	kit "github.com/buypal/oapi-go/internal/verifkit"
)

func TestVerifC03Paths(t *testing.T) {
	k := kit.New(t, "random documents and random lists of keys; SetP and Path over the dot path of the keys against an independent get and set")
	for n := 0; n < k.N(30000, 150000); n++ {
		key := vKeys(k)
		var doc interface{} = k.Obj(4, key)
		p := vWalk(k, doc, key)
		if len(p) == 0 {
			continue
		}
		x := k.JSON(2, key)
		k.Case("path", fmt.Sprintf("%s at %q set %s", vJ(doc), p, vJ(x)), func() {
			text := SliceToDotPath(p)
			c, err := Make(doc)
			if err != nil {
				k.Fail("make", "%s: %v", vJ(doc), err)
				return
			}
			had, ok := vGet(doc, p)
			if c.ExistsP(text) != ok || !vEq(c.Path(text).Data(), had) {
				k.Fail("read", "%s: path %q of %q reads %s (exists %v), want %s (%v)", vJ(doc), text, p, vJ(c.Path(text).Data()), c.ExistsP(text), vJ(had), ok)
				return
			}
			want, can := vSet(doc, p, x)
			err = c.SetP(text, x)
			if (err == nil) != can {
				k.Fail("set", "%s: setting %q of %q: %v, want possible %v", vJ(doc), text, p, err, can)
				return
			}
			if !can {
				want = doc
			}
			if !vEq(c.Data(), want) {
				k.Fail("set", "%s: setting %q of %q to %s gives %s, want %s", vJ(doc), text, p, vJ(x), vJ(c.Data()), vJ(want))
				return
			}
			if can && !vEq(c.Path(text).Data(), x) {
				k.Fail("setread", "%s: %q of %q set to %s reads %s", vJ(doc), text, p, vJ(x), vJ(c.Path(text).Data()))
			}
		})
	}
}

func TestVerifC03Distinct(t *testing.T) {
	k := kit.New(t, "pairs of lists of keys; different non-empty lists have different dot paths, and long lists read back")
	type vList struct {
		keys []string
		text string
	}
	seen := map[string]string{}
	for n := 0; n < k.N(20000, 100000); n++ {
		p := make([]string, 1+k.R.Intn(4))
		if n%50 == 0 {
			p = make([]string, 10+k.R.Intn(60))
		}
		for i := range p {
			p[i] = kit.Pick(k, "", ".", "~", "~0", "~1", "a", "*", "a.b", "~~", "..", "/", "~01", "%", "é")
		}
		k.Case("distinct", fmt.Sprintf("%q", p), func() {
			text, id := SliceToDotPath(p), fmt.Sprintf("%q", p)
			if o, ok := seen[text]; ok && o != id {
				k.Fail("distinct", "%s and %s have the same path %q", o, id, text)
			}
			seen[text] = id
			c := New()
			if err := c.SetP(text, "here"); err != nil {
				k.Fail("distinct", "%q: %v", p, err)
				return
			}
			want, _ := vSet(nil, p, "here")
			if !vEq(c.Data(), want) {
				k.Fail("distinct", "%q is set as %s", p, vJ(c.Data()))
			}
		})
	}
}

func vLeaves(v interface{}, path []string, key string, out map[string]interface{}) {
	visit := func(k string, x interface{}) {
		p := append(append([]string{}, path...), k)
		switch x.(type) {
		case map[string]interface{}, []interface{}:
			vLeaves(x, p, key, out)
		default:
			if k == key {
				out[fmt.Sprintf("%q", p)] = x
			}
		}
	}
	switch x := v.(type) {
	case map[string]interface{}:
		for k, e := range x {
			visit(k, e)
		}
	case []interface{}:
		for i, e := range x {
			visit(strconv.Itoa(i), e)
		}
	}
}

func vPaths(v interface{}, path []string, at func([]string)) {
	switch x := v.(type) {
	case map[string]interface{}:
		for k, e := range x {
			p := append(append([]string{}, path...), k)
			at(p)
			vPaths(e, p, at)
		}
	case []interface{}:
		for i, e := range x {
			p := append(append([]string{}, path...), strconv.Itoa(i))
			at(p)
			vPaths(e, p, at)
		}
	}
}

func TestVerifC03Search(t *testing.T) {
	k := kit.New(t, "random documents searched for a key; the reported leaves against an independent walk, and every reported path read back")
	for n := 0; n < k.N(20000, 100000); n++ {
		keys := vKeys(k)
		var doc interface{} = k.Obj(5, keys)
		if k.R.Intn(5) == 0 {
			doc = []interface{}{k.Obj(3, keys), k.JSON(2, keys), k.Obj(3, keys)}
		}
		key := keys()
		if _, err := strconv.Atoi(key); err == nil {
			continue
		}
		k.Case("search", key+" in "+vJ(doc), func() {
			c, err := Make(doc)
			if err != nil {
				k.Fail("make", "%s: %v", vJ(doc), err)
				return
			}
			items, err := ExtractKey(c, key)
			if err != nil {
				k.Fail("search", "%q in %s: %v", key, vJ(doc), err)
				return
			}
			want := map[string]interface{}{}
			vLeaves(doc, nil, key, want)
			text := map[string]string{} // dot path to keys
			vPaths(doc, nil, func(p []string) { text[SliceToDotPath(p)] = fmt.Sprintf("%q", p) })
			got := map[string]bool{}
			for _, it := range items {
				id := text[it.Key]
				x, ok := want[id]
				if id == "" || !ok || got[id] {
					k.Fail("search", "%q in %s: %q reported wrongly or twice", key, vJ(doc), it.Key)
					return
				}
				got[id] = true
				if !vEq(it.Val, x) || !vEq(c.Path(it.Key).Data(), x) {
					k.Fail("search", "%q in %s: %q is reported as %s and reads %s, want %s", key, vJ(doc), it.Key, vJ(it.Val), vJ(c.Path(it.Key).Data()), vJ(x))
					return
				}
			}
			if len(got) != len(want) {
				k.Fail("search", "%q in %s: %d leaves reported, want %v", key, vJ(doc), len(got), want)
			}
			if !vEq(c.Data(), doc) {
				k.Fail("search", "searching %s changed it to %s", vJ(doc), vJ(c.Data()))
			}
		})
	}
}
