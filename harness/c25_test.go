package specs

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"testing"

	kit "github.com/buypal/oapi-go/internal/verifkit"
	"golang.org/x/tools/go/packages"
)

var vSpecNames = []string{"oapi.yaml", "oapi.yml", "oapi.json"}

func vKey25(k *kit.K) string {
	return kit.Pick(k, "a", "b", "c", "$ref", "x.y", "p/q", "t~u", "paths", "é", "$ref")
}

func vRef25(k *kit.K) interface{} {
	if k.R.Intn(8) == 0 {
		return []interface{}{1.5, true, nil, []interface{}{"go://#/Thing"}, map[string]interface{}{"a": "go://#/Thing"}}[k.R.Intn(5)]
	}
	return kit.Pick(k, "go://#/Thing", "go://#/Other", "go://ex.org/dep#/Type", "go://ex.org/mod#/Thing", "#/components/schemas/S", "https://ex.org/doc#/a/b", "go://ex.org/dep/v2#/A/B")
}

func vDoc25(k *kit.K, d int) map[string]interface{} {
	m := map[string]interface{}{}
	for i := k.R.Intn(5); i >= 0; i-- {
		key := vKey25(k)
		switch {
		case key == "$ref":
			m[key] = vRef25(k)
		case d > 0 && k.R.Intn(2) == 0:
			m[key] = vDoc25(k, d-1)
		case d > 0 && k.R.Intn(2) == 0:
			a := []interface{}{}
			for j := k.R.Intn(3); j >= 0; j-- {
				a = append(a, vDoc25(k, d-1))
			}
			m[key] = a
		default:
			m[key] = kit.Pick(k, "go://#/Thing", "text", "#/x", "")
		}
	}
	return m
}

// vQual is the document with the references to types without package qualified.
func vQual(v interface{}, pkg string, refs map[string]bool) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		m := map[string]interface{}{}
		for k, y := range x {
			if s, ok := y.(string); ok && k == "$ref" {
				if strings.HasPrefix(s, "go://#") {
					s = "go://" + pkg + s[len("go://"):]
				}
				refs[s] = true
				m[k] = s
				continue
			}
			m[k] = vQual(y, pkg, refs)
		}
		return m
	case []interface{}:
		a := make([]interface{}, len(x))
		for i, y := range x {
			a[i] = vQual(y, pkg, refs)
		}
		return a
	}
	return v
}

type vPkg struct {
	p    *packages.Package
	docs []map[string]interface{} // collected, in the order of the patterns
	refs map[string]bool
	desc string
}

func vPut(dir, name string, doc interface{}) {
	b, err := json.MarshalIndent(doc, "", " ") // also YAML
	if err != nil {
		panic(err)
	}
	if err := os.MkdirAll(dir, 0o755); err != nil {
		panic(err)
	}
	if err := ioutil.WriteFile(filepath.Join(dir, name), b, 0o644); err != nil {
		panic(err)
	}
}

// vPackage makes a package of a module at root.
func vPackage(k *kit.K, root, mod, sub string, doc func(file int) map[string]interface{}) vPkg {
	r := vPkg{refs: map[string]bool{}}
	pkg, dir := mod, root
	if sub != "" {
		pkg, dir = mod+"/"+sub, filepath.Join(root, filepath.FromSlash(sub))
	}
	r.p = &packages.Package{PkgPath: pkg, Name: "p", Module: &packages.Module{Path: mod, Dir: root}}
	if err := os.MkdirAll(dir, 0o755); err != nil {
		panic(err)
	}
	for i, n := range vSpecNames {
		if k.R.Intn(2) == 0 {
			continue
		}
		d := doc(i)
		vPut(dir, n, d)
		_, ok := d["openapi"]
		r.desc += fmt.Sprintf(" %s/%s:%v", pkg, n, ok)
		if ok {
			r.docs = append(r.docs, vQual(d, pkg, r.refs).(map[string]interface{}))
		}
	}
	for _, n := range []string{"other.yaml", "spec.json", "oapi.yaml.bak", "my.oapi.yaml", "oapi.yam"} {
		if k.R.Intn(3) == 0 {
			vPut(dir, n, map[string]interface{}{"openapi": "3.0.0", "stray": n})
		}
	}
	if k.R.Intn(3) == 0 {
		vPut(filepath.Join(dir, "notapackage"), "oapi.yaml", map[string]interface{}{"openapi": "3.0.0", "stray": "sub"})
	}
	return r
}

func vScratch(t *testing.T) string {
	d, err := ioutil.TempDir("", "verif-c25-")
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { os.RemoveAll(d) })
	return d
}

// vSame compares documents, empty containers included.
func vSame(a, b interface{}) bool { return reflect.DeepEqual(a, b) }

func TestVerifC25Collect(t *testing.T) {
	k := kit.New(t, "packages of modules in scratch folders, in random order, with any of the three specification files (with and without version, references of all sorts at any depth, also below lists, texts which look like references under other keys), stray files of similar names and in sub folders; random seed")
	top := vScratch(t)
	for i := k.N(150, 2500); i > 0; i-- {
		root := filepath.Join(top, fmt.Sprint("m", i))
		mod := kit.Pick(k, "ex.org/mod", "mod", "ex.org/Mod/v2", "ex.org/a/ex.org/a")
		subs := []string{"", "sub", "sub/deep", mod, "x/" + mod + "/y"}
		var ps []vPkg
		desc := mod
		for _, s := range subs {
			if k.R.Intn(2) == 0 {
				continue
			}
			p := vPackage(k, root, mod, s, func(int) map[string]interface{} {
				d := vDoc25(k, 3)
				delete(d, "$ref")
				if k.R.Intn(3) != 0 {
					d["openapi"] = []interface{}{"3.0.0", "", 3.1, true, map[string]interface{}{"v": "3"}}[k.R.Intn(5)]
				}
				return d
			})
			ps = append(ps, p)
			desc += p.desc
		}
		k.R.Shuffle(len(ps), func(a, b int) { ps[a], ps[b] = ps[b], ps[a] })
		k.Case("collect", desc, func() {
			s := NewScanner()
			refs := map[string]bool{}
			var want []interface{}
			for _, p := range ps {
				if err := s.Scan(p.p); err != nil {
					k.Fail("collect", "%s: Scan %s: %v", desc, p.p.PkgPath, err)
					return
				}
				for _, d := range p.docs {
					want = append(want, d)
				}
				for r := range p.refs {
					refs[r] = true
				}
			}
			if len(s.Containers) != len(want) {
				k.Fail("collect", "%s: %d documents collected, want %d", desc, len(s.Containers), len(want))
				return
			}
			for j, c := range s.Containers {
				if !vSame(c.Data(), want[j]) {
					a, _ := json.Marshal(c.Data())
					b, _ := json.Marshal(want[j])
					k.Fail("collect", "%s: document %d is %s, want %s", desc, j, a, b)
					return
				}
			}
			for r := range refs {
				p, ok := s.Pointers[r]
				if !ok {
					k.Fail("collect", "%s: %s is not recorded", desc, r)
				} else if p.String() != r {
					k.Fail("collect", "%s: %s is recorded as %s", desc, r, p)
				}
			}
			for r := range s.Pointers {
				if !refs[r] {
					k.Fail("collect", "%s: %s is recorded, but nowhere", desc, r)
				}
			}
		})
	}
}

func TestVerifC25Missing(t *testing.T) {
	k := kit.New(t, "folders without files, without module folder, files which cannot be read")
	top := vScratch(t)
	p := func(mod, pkg, dir string) *packages.Package {
		return &packages.Package{PkgPath: pkg, Module: &packages.Module{Path: mod, Dir: dir}}
	}
	k.Case("no-folder", "no folder", func() {
		if err := NewScanner().Scan(p("m", "m", "")); err == nil {
			k.Fail("no-folder", "a package of a module without folder is accepted")
		}
	})
	k.Case("empty", "empty folder", func() {
		s := NewScanner()
		if err := s.Scan(p("m", "m", top)); err != nil || len(s.Containers) != 0 {
			k.Fail("empty", "%v, %d documents", err, len(s.Containers))
		}
	})
	k.Case("gopath", "package outside modules", func() {
		defer os.Setenv("GOPATH", os.Getenv("GOPATH"))
		os.Setenv("GOPATH", filepath.Join(top, "gopath"))
		vPut(filepath.Join(top, "gopath", "src", "ex.org", "p"), "oapi.yml", map[string]interface{}{"openapi": "3.0.0", "x": map[string]interface{}{"$ref": "go://#/T"}})
		s := NewScanner()
		if err := s.Scan(&packages.Package{PkgPath: "ex.org/p"}); err != nil || len(s.Containers) != 1 || !vSame(s.Containers[0].Data(), map[string]interface{}{"openapi": "3.0.0", "x": map[string]interface{}{"$ref": "go://ex.org/p#/T"}}) {
			k.Fail("gopath", "%v, %v", err, s.Containers)
		}
		if err := NewScanner().Scan(&packages.Package{PkgPath: "ex.org/q"}); err == nil {
			k.Fail("gopath", "a package which is nowhere is accepted")
		}
	})
	for i, bad := range []string{"{", "openapi: [", "- a", "\"text\"", "a: b: c", "openapi: 3\nx:\n  $ref: 'go://%zz#/A'\n", "openapi: 3\nx:\n  - $ref: 'go://a b#/A'\n"} {
		for _, n := range vSpecNames {
			d := filepath.Join(top, fmt.Sprint("bad", i, n))
			id := "bad-file"
			k.Case(id, n+" "+bad, func() {
				os.MkdirAll(d, 0o755)
				ioutil.WriteFile(filepath.Join(d, n), []byte(bad), 0o644)
				if n == "oapi.json" || i != 2 && i != 3 {
					if err := NewScanner().Scan(p("m", "m", d)); err == nil {
						k.Fail(id, "%s with %q is accepted", n, bad)
					}
				}
			})
		}
	}
}

// vMerge merges; eq is set when the same value stands twice at one place.
func vMerge25(a, b map[string]interface{}, eq *bool) bool {
	ks := []string{}
	for x := range b {
		ks = append(ks, x)
	}
	sort.Strings(ks)
	for _, x := range ks {
		old, ok := a[x]
		if !ok {
			a[x] = kit.Copy(b[x])
			continue
		}
		m, ok1 := old.(map[string]interface{})
		n, ok2 := b[x].(map[string]interface{})
		if ok1 && ok2 {
			if !vMerge25(m, n, eq) {
				return false
			}
			continue
		}
		if !vSame(old, b[x]) {
			return false
		}
		*eq = true
	}
	return true
}

func TestVerifC25Merge(t *testing.T) {
	k := kit.New(t, "packages whose specification files share objects and rarely collide, scanned in several orders; random seed")
	top := vScratch(t)
	for i := k.N(120, 2000); i > 0; i-- {
		root := filepath.Join(top, fmt.Sprint("g", i))
		var ps []vPkg
		var docs []map[string]interface{}
		desc := ""
		n := 0
		for _, s := range []string{"", "a", "b", "b/c"} {
			p := vPackage(k, root, "ex.org/m", s, func(f int) map[string]interface{} {
				n++
				tag := fmt.Sprint("k", n)
				if k.R.Intn(12) == 0 {
					tag = "k1"
				}
				obj := func() interface{} {
					if k.R.Intn(25) == 0 {
						return "text"
					}
					return map[string]interface{}{tag: k.JSON(1, func() string { return tag })}
				}
				return map[string]interface{}{
					"openapi":    map[string]interface{}{tag: "3.0.0"},
					"paths":      obj(),
					"components": map[string]interface{}{"schemas": obj(), "responses": obj()},
					tag + "x":    k.JSON(2, func() string { return tag }),
				}
			})
			ps = append(ps, p)
			docs = append(docs, p.docs...)
			desc += p.desc
		}
		want, eq, ok := map[string]interface{}{}, false, true
		for _, d := range docs {
			ok = ok && vMerge25(want, d, &eq)
		}
		b, _ := json.Marshal(docs)
		desc += " " + string(b)
		k.Case("merge", desc, func() {
			for o := 0; o < 4; o++ {
				s := NewScanner()
				for _, p := range ps {
					if err := s.Scan(p.p); err != nil {
						k.Fail("merge", "%s: %v", desc, err)
						return
					}
				}
				before := fmt.Sprint(s.Containers)
				c, err := s.Merge()
				if before != fmt.Sprint(s.Containers) {
					k.Fail("merge", "%s: merging changed what was collected", desc)
				}
				switch {
				case err == nil && !ok:
					k.Fail("merge", "%s: merged, but there are two values at one place", desc)
				case err != nil && ok && !eq:
					k.Fail("merge", "%s: %v", desc, err)
				case err == nil && !vSame(c.Data(), interface{}(want)):
					a, _ := json.Marshal(c.Data())
					k.Fail("merge", "%s: merged into %s", desc, a)
				}
				k.R.Shuffle(len(ps), func(a, b int) { ps[a], ps[b] = ps[b], ps[a] })
			}
		})
	}
	k.Case("same-version", "two files declaring the same version", func() {
		s := NewScanner()
		for i, n := range []string{"a", "b"} {
			d := filepath.Join(top, "same", n)
			vPut(d, "oapi.yaml", map[string]interface{}{"openapi": "3.0.0", "paths": map[string]interface{}{fmt.Sprint("/", i): map[string]interface{}{}}})
			if err := s.Scan(&packages.Package{PkgPath: "m/" + n, Module: &packages.Module{Path: "m", Dir: filepath.Join(top, "same")}}); err != nil {
				k.Fail("same-version-scan", "%v", err)
				return
			}
		}
		if _, err := s.Merge(); err != nil {
			k.Fail("same-version", "two specification files which both declare openapi 3.0.0 and agree everywhere: %v", err)
		}
	})
	k.Case("order", "the error does not depend on the order", func() {
		msg := map[string]bool{}
		for _, o := range [][]string{{"a", "b", "c"}, {"c", "a", "b"}, {"b", "c", "a"}} {
			s := NewScanner()
			for _, n := range o {
				d := filepath.Join(top, "order", n)
				vPut(d, "oapi.yaml", map[string]interface{}{"openapi": map[string]interface{}{n: 1.0}, "x": n})
				if err := s.Scan(&packages.Package{PkgPath: "m/" + n, Module: &packages.Module{Path: "m", Dir: filepath.Join(top, "order")}}); err != nil {
					k.Fail("order", "%v", err)
					return
				}
			}
			_, err := s.Merge()
			msg[fmt.Sprint(err)] = true
		}
		if len(msg) != 1 || msg["<nil>"] {
			k.Fail("order", "errors %v", msg)
		}
	})
}
