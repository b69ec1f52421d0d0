package container

import (
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strconv"

	kit "github.com/buypal/oapi-go/internal/verifkit"
)

// what documents are, written independently of the code under test

func vEq(a, b interface{}) bool { return reflect.DeepEqual(a, b) }

func vJ(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%#v", v)
	}
	return string(b)
}

// vKeys is a source of keys that collide often.
func vKeys(k *kit.K) func() string {
	rich := k.R.Intn(3) == 0
	return func() string {
		if rich && k.R.Intn(3) == 0 {
			return k.Str()
		}
		return kit.Pick(k, "a", "b", "c", "a.b", "~1", "*", "", "x~0.y", "-", "$ref", "0")
	}
}

// vGet follows keys through objects and valid array indices.
func vGet(v interface{}, path []string) (interface{}, bool) {
	for _, k := range path {
		switch x := v.(type) {
		case map[string]interface{}:
			var ok bool
			if v, ok = x[k]; !ok {
				return nil, false
			}
		case []interface{}:
			i, err := strconv.Atoi(k)
			if err != nil || i < 0 || i >= len(x) {
				return nil, false
			}
			v = x[i]
		default:
			return nil, false
		}
	}
	return v, true
}

// vSet is the document with the node at path set; objects that are missing
// are made. It is false if a value in the way is no object.
func vSet(v interface{}, path []string, x interface{}) (interface{}, bool) {
	if len(path) == 0 {
		return x, true
	}
	switch o := v.(type) {
	case nil:
		in, ok := vSet(nil, path[1:], x)
		return map[string]interface{}{path[0]: in}, ok
	case map[string]interface{}:
		in, ok := vSet(o[path[0]], path[1:], x)
		m := map[string]interface{}{}
		for k, e := range o {
			m[k] = e
		}
		m[path[0]] = in
		return m, ok
	case []interface{}:
		i, err := strconv.Atoi(path[0])
		if err != nil || i < 0 || i >= len(o) || o[i] == nil && len(path) > 1 {
			return v, false
		}
		in, ok := vSet(o[i], path[1:], x)
		a := append([]interface{}{}, o...)
		a[i] = in
		return a, ok
	}
	return v, false
}

// vWalk is a random path of the document, possibly leaving it at an object
// or at its end.
func vWalk(k *kit.K, v interface{}, key func() string) []string {
	var p []string
	for n := 0; n < 6; n++ {
		switch x := v.(type) {
		case map[string]interface{}:
			ks := make([]string, 0, len(x))
			for s := range x {
				ks = append(ks, s)
			}
			sort.Strings(ks)
			if len(ks) == 0 || k.R.Intn(4) == 0 {
				p = append(p, key())
				v = x[p[len(p)-1]]
			} else {
				p = append(p, ks[k.R.Intn(len(ks))])
				v = x[p[len(p)-1]]
			}
		case []interface{}:
			if len(x) == 0 || k.R.Intn(8) == 0 {
				return append(p, strconv.Itoa(len(x)))
			}
			i := k.R.Intn(len(x))
			p = append(p, strconv.Itoa(i))
			v = x[i]
		case nil:
			if k.R.Intn(2) == 0 {
				p = append(p, key())
			} else if len(p) > 0 {
				return p
			}
		default:
			if k.R.Intn(4) == 0 {
				return append(p, key())
			}
			if len(p) > 0 {
				return p
			}
		}
		if len(p) > 0 && k.R.Intn(3) == 0 {
			return p
		}
	}
	return p
}

type vPolicy struct {
	name string
	fn   Merger
	get  func(d, s interface{}) (interface{}, bool)
}

var vPolicies = []vPolicy{
	{"strict", MergeStrict, func(d, s interface{}) (interface{}, bool) { return nil, false }},
	{"default", MergeDefault, func(d, s interface{}) (interface{}, bool) { return d, true }},
	{"override", MergeOverride, func(d, s interface{}) (interface{}, bool) { return s, true }},
	{"pair", func(d, s interface{}) (interface{}, error) { return []interface{}{d, s}, nil },
		func(d, s interface{}) (interface{}, bool) { return []interface{}{d, s}, true }},
	{"scalars only", func(d, s interface{}) (interface{}, error) {
		if _, ok := s.(map[string]interface{}); ok {
			return nil, errors.New("object")
		}
		return "new", nil
	}, func(d, s interface{}) (interface{}, bool) {
		_, ok := s.(map[string]interface{})
		return "new", !ok
	}},
}
