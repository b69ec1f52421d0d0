package container

import (
	"fmt"
	"testing"

	kit "github.com/buypal/oapi-go/internal/verifkit"
)

// vMerge is the union of two objects.
func vMerge(d, s map[string]interface{}, pol func(d, s interface{}) (interface{}, bool)) (map[string]interface{}, bool) {
	m := map[string]interface{}{}
	for k, v := range d {
		m[k] = v
	}
	all := true
	for k, v := range s {
		have, in := d[k]
		if !in {
			m[k] = v
			continue
		}
		a, okA := have.(map[string]interface{})
		b, okB := v.(map[string]interface{})
		ok := true
		if okA && okB {
			m[k], ok = vMerge(a, b, pol)
		} else {
			m[k], ok = pol(have, v)
		}
		all = all && ok
	}
	return m, all
}

func TestVerifC04Merge(t *testing.T) {
	k := kit.New(t, "pairs of random objects with colliding keys, merged under five collision policies, against an independent union")
	for n := 0; n < k.N(30000, 200000); n++ {
		keys := vKeys(k)
		d, s := k.Obj(4, keys), k.Obj(4, keys)
		if k.R.Intn(4) == 0 { // make them overlap deeply
			s = kit.Copy(d).(map[string]interface{})
			for i := 0; i < 3; i++ {
				if p := vWalk(k, s, keys); len(p) > 0 {
					if x, ok := vSet(s, p, k.JSON(2, keys)); ok {
						s = x.(map[string]interface{})
					}
				}
			}
		}
		pol := vPolicies[k.R.Intn(len(vPolicies))]
		k.Case("merge", fmt.Sprintf("%s: %s with %s", pol.name, vJ(d), vJ(s)), func() {
			want, ok := vMerge(d, s, pol.get)
			a, _ := Make(d)
			b, _ := Make(s)
			err := a.Merge(b, pol.fn)
			if (err == nil) != ok {
				k.Fail("merge", "%s: %s with %s: error %v, want failure %v", pol.name, vJ(d), vJ(s), err, !ok)
				return
			}
			if ok && !vEq(a.Data(), interface{}(want)) {
				k.Fail("merge", "%s: %s with %s is %s, want %s", pol.name, vJ(d), vJ(s), vJ(a.Data()), vJ(want))
			}
			if !vEq(b.Data(), interface{}(s)) {
				k.Fail("merge", "%s: %s with %s leaves the source as %s", pol.name, vJ(d), vJ(s), vJ(b.Data()))
			}
		})
	}
}

func TestVerifC04Many(t *testing.T) {
	k := kit.New(t, "lists of random objects merged one after another, among them none and one")
	for n := 0; n < k.N(8000, 50000); n++ {
		keys := vKeys(k)
		docs := make([]map[string]interface{}, k.R.Intn(5))
		var cc Containers
		for i := range docs {
			docs[i] = k.Obj(3, keys)
			c, _ := Make(docs[i])
			cc = append(cc, c)
		}
		pol := vPolicies[k.R.Intn(len(vPolicies))]
		k.Case("many", fmt.Sprintf("%s: %s", pol.name, vJ(docs)), func() {
			want, ok := map[string]interface{}{}, true
			for _, d := range docs {
				if want, ok = vMerge(want, d, pol.get); !ok {
					break
				}
			}
			c, err := cc.Merge(pol.fn)
			if (err == nil) != ok {
				k.Fail("many", "%s of %s: error %v, want failure %v", pol.name, vJ(docs), err, !ok)
				return
			}
			if !ok {
				return
			}
			got := c.Data()
			if got == nil {
				got = map[string]interface{}{}
			}
			if !vEq(got, interface{}(want)) {
				k.Fail("many", "%s of %s is %s, want %s", pol.name, vJ(docs), vJ(got), vJ(want))
			}
			for i := range docs {
				if !vEq(cc[i].Data(), interface{}(docs[i])) {
					k.Fail("many", "%s of %s changes document %d to %s", pol.name, vJ(docs), i, vJ(cc[i].Data()))
				}
			}
		})
	}
}

func TestVerifC04NonObjects(t *testing.T) {
	k := kit.New(t, "sources that are no objects, and empty destinations")
	for n := 0; n < k.N(500, 5000); n++ {
		keys := vKeys(k)
		d, s := k.Obj(2, keys), k.JSON(2, keys)
		k.Case("other", vJ(d)+" with "+vJ(s), func() {
			pol := vPolicies[k.R.Intn(3)]
			a, _ := Make(d)
			b, _ := Make(s)
			obj, isObj := s.(map[string]interface{})
			if !isObj {
				if err := a.Merge(b, pol.fn); err != nil || !vEq(a.Data(), interface{}(d)) {
					k.Fail("other", "%s: %s with %s is %s, %v", pol.name, vJ(d), vJ(s), vJ(a.Data()), err)
				}
				return
			}
			c := New()
			if err := c.Merge(b, pol.fn); err != nil || len(obj) > 0 && !vEq(c.Data(), s) {
				k.Fail("other", "%s: nothing with %s is %s, %v", pol.name, vJ(s), vJ(c.Data()), err)
			}
			if err := a.Merge(New(), pol.fn); err != nil || !vEq(a.Data(), interface{}(d)) {
				k.Fail("other", "%s: %s with nothing is %s, %v", pol.name, vJ(d), vJ(a.Data()), err)
			}
		})
	}
}
