package container

import (
	"fmt"
	"io/ioutil"
	"path/filepath"
	"sort"
	"testing"

	kit "github.com/buypal/oapi-go/internal/verifkit"
)

// vScribble changes a random object or array inside v, in place.
func vScribble(k *kit.K, v interface{}) (string, bool) {
	var at []interface{}
	var walk func(v interface{})
	walk = func(v interface{}) {
		switch x := v.(type) {
		case map[string]interface{}:
			if x == nil {
				return
			}
			at = append(at, x)
			var ks []string
			for s := range x {
				ks = append(ks, s)
			}
			sort.Strings(ks)
			for _, s := range ks {
				walk(x[s])
			}
		case map[interface{}]interface{}:
			at = append(at, x)
			var ks []string
			for s := range x {
				ks = append(ks, s.(string))
			}
			sort.Strings(ks)
			for _, s := range ks {
				walk(x[s])
			}
		case []interface{}:
			if len(x) > 0 {
				at = append(at, x)
			}
			for _, e := range x {
				walk(e)
			}
		}
	}
	walk(v)
	if len(at) == 0 {
		return "", false
	}
	s := fmt.Sprintf("scribble%d", k.R.Intn(1000))
	switch x := at[k.R.Intn(len(at))].(type) {
	case map[string]interface{}:
		for _, e := range []string{"a", "b"} {
			delete(x, e)
		}
		x[s] = s
	case map[interface{}]interface{}:
		x[s] = s
	case []interface{}:
		x[k.R.Intn(len(x))] = s
	}
	return s, true
}

// vYaml is v with some of its objects as the maps the YAML decoder makes.
func vYaml(k *kit.K, v interface{}) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		var ks []string
		for s := range x {
			ks = append(ks, s)
		}
		sort.Strings(ks)
		if k.R.Intn(3) == 0 {
			m := map[interface{}]interface{}{}
			for _, s := range ks {
				m[s] = vYaml(k, x[s])
			}
			return m
		}
		m := map[string]interface{}{}
		for _, s := range ks {
			m[s] = vYaml(k, x[s])
		}
		return m
	case []interface{}:
		a := []interface{}{}
		for _, e := range x {
			a = append(a, vYaml(k, e))
		}
		return a
	}
	return v
}

func vCopyAny(v interface{}) interface{} {
	switch x := v.(type) {
	case map[interface{}]interface{}:
		m := map[interface{}]interface{}{}
		for s, e := range x {
			m[s] = vCopyAny(e)
		}
		return m
	case map[string]interface{}:
		m := map[string]interface{}{}
		for s, e := range x {
			m[s] = vCopyAny(e)
		}
		return m
	case []interface{}:
		a := make([]interface{}, len(x))
		for i, e := range x {
			a[i] = vCopyAny(e)
		}
		return a
	}
	if i, ok := v.(int); ok { // numbers of the YAML decoder
		return float64(i)
	}
	return v
}

// one participant of a history: a document, or a value handed to one
type vPart struct {
	name string
	c    Container
	raw  interface{}
	isC  bool
	want interface{}
}

func (p *vPart) data() interface{} {
	if p.isC {
		return p.c.Data()
	}
	return p.raw
}

func TestVerifC05Histories(t *testing.T) {
	k := kit.New(t, "random histories of Make, Clone, reading the same text, SetP, Replace, Merge and Containers.Merge over documents and plain values; one participant is changed in place now and then, every other one is compared with its copy")
	tmp := t.TempDir()
	for n := 0; n < k.N(8000, 60000); n++ {
		keys := func() string { return kit.Pick(k, "a", "b", "c", "d") }
		var parts []*vPart
		hist := ""
		add := func(p *vPart) *vPart {
			p.name = fmt.Sprintf("%c", 'A'+len(parts)%26)
			parts = append(parts, p)
			return p
		}
		newDoc := func() {
			p := &vPart{isC: true}
			v := k.Obj(4, keys)
			p.c, _ = Make(v)
			p.want = vCopyAny(p.c.Data())
			add(p)
			hist += fmt.Sprintf("%s=doc %s;", p.name, vJ(v))
		}
		newDoc()
		newDoc()
		docs := func() *vPart {
			for {
				if p := parts[k.R.Intn(len(parts))]; p.isC {
					return p
				}
			}
		}
		k.Case("history", fmt.Sprintf("%d %s", n, hist), func() {
			check := func(skip *vPart) bool {
				for _, p := range parts {
					if p != skip && !vEq(vCopyAny(p.data()), p.want) {
						k.Fail("history", "%s: %s became %s, was %s", hist, p.name, vJ(p.data()), vJ(p.want))
						return false
					}
				}
				if skip != nil {
					skip.want = vCopyAny(skip.data())
				}
				return true
			}
			for i := 0; i < 4+k.R.Intn(10); i++ {
				var touched *vPart
				switch k.R.Intn(9) {
				case 0: // a document from a value
					raw := vYaml(k, k.Obj(3, keys))
					r := add(&vPart{raw: raw, want: vCopyAny(raw)})
					c, err := Make(raw)
					d := add(&vPart{c: c, isC: true, want: vCopyAny(c.Data())})
					hist += fmt.Sprintf("%s=value %v; %s=Make(%s);", r.name, raw, d.name, r.name)
					if err != nil {
						k.Fail("history", "%s: %v", hist, err)
						return
					}
				case 1: // a document from a document
					s := docs()
					var c Container
					how := "Clone"
					switch k.R.Intn(4) {
					case 0:
						c = s.c.Clone()
					case 1:
						how = "Make"
						c, _ = Make(s.c)
					case 2:
						how = "Make(&)"
						c, _ = Make(&s.c)
					case 3:
						how = "Make(Data)"
						c, _ = Make(s.c.Data())
					}
					d := add(&vPart{c: c, isC: true, want: vCopyAny(s.want)})
					hist += fmt.Sprintf("%s=%s(%s);", d.name, how, s.name)
				case 2, 3: // set a value, or a document, or a part of one
					d := docs()
					var val interface{}
					var what string
					switch k.R.Intn(4) {
					case 0:
						s := docs()
						val, what = s.c, s.name
					case 1:
						s := docs()
						val, what = &s.c, "&"+s.name
					case 2:
						s := docs()
						p := vWalk(k, s.c.Data(), keys)
						val, _ = vGet(s.c.Data(), p)
						what = fmt.Sprintf("%s at %q", s.name, p)
					case 3:
						raw := vYaml(k, k.JSON(3, keys))
						r := add(&vPart{raw: raw, want: vCopyAny(raw)})
						val, what = raw, fmt.Sprintf("%s=value %v", r.name, raw)
					}
					if k.R.Intn(5) == 0 {
						hist += fmt.Sprintf("%s.Replace(%s);", d.name, what)
						d.c.Replace(val)
						if _, ok := d.c.Data().(map[string]interface{}); !ok {
							d.c.Replace(map[string]interface{}{})
						}
					} else {
						p := vWalk(k, d.c.Data(), keys)
						if len(p) == 0 {
							p = []string{"a"}
						}
						hist += fmt.Sprintf("%s.SetP(%q, %s);", d.name, SliceToDotPath(p), what)
						d.c.SetP(SliceToDotPath(p), val)
					}
					touched = d
				case 4: // merge one into another
					d, s := docs(), docs()
					pol := vPolicies[1+k.R.Intn(2)]
					hist += fmt.Sprintf("%s.Merge(%s, %s);", d.name, s.name, pol.name)
					if err := d.c.Merge(s.c, pol.fn); err != nil {
						k.Fail("history", "%s: %v", hist, err)
						return
					}
					touched = d
				case 5: // merge several
					x, y := docs(), docs()
					pol := vPolicies[1+k.R.Intn(2)]
					c, err := Containers{x.c, y.c}.Merge(pol.fn)
					if err != nil {
						k.Fail("history", "%s: %v", hist, err)
						return
					}
					d := add(&vPart{c: c, isC: true, want: vCopyAny(c.Data())})
					hist += fmt.Sprintf("%s=Merge(%s, %s, %s);", d.name, x.name, y.name, pol.name)
				case 6: // the same text read twice
					v := k.Obj(3, keys)
					text := []byte(vJ(v))
					var a, b Container
					var err, err2 error
					how := kit.Pick(k, "ReadJSON", "ReadYAML", "ReadFile .json", "ReadFile .yaml")
					switch how {
					case "ReadJSON":
						a, err = ReadJSON(text)
						b, err2 = ReadJSON(text)
					case "ReadYAML":
						a, err = ReadYAML(text)
						b, err2 = ReadYAML(text)
					default:
						f := filepath.Join(tmp, "f"+how[len("ReadFile "):])
						if e := ioutil.WriteFile(f, text, 0644); e != nil {
							t.Fatal(e)
						}
						a, err = ReadFile(f)
						b, err2 = ReadFile(f)
					}
					if err != nil || err2 != nil {
						k.Fail("history", "%s %s %s: %v %v", hist, how, text, err, err2)
						return
					}
					x := add(&vPart{c: a, isC: true, want: vCopyAny(a.Data())})
					y := add(&vPart{c: b, isC: true, want: vCopyAny(b.Data())})
					hist += fmt.Sprintf("%s, %s=%s(%s);", x.name, y.name, how, text)
				default: // change one in place
					p := parts[k.R.Intn(len(parts))]
					s, ok := vScribble(k, p.data())
					if !ok {
						continue
					}
					hist += fmt.Sprintf("%s in %s;", s, p.name)
					touched = p
				}
				if !check(touched) {
					return
				}
			}
		})
	}
}
