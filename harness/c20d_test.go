package container_test

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/buypal/oapi-go/internal/container"
	kit "github.com/buypal/oapi-go/internal/verifkit"
)

// vAgain repeats f and returns two outcomes that differ.
func vAgain(n int, f func() string) (a, b string, same bool) {
	a = f()
	for i := 1; i < n; i++ {
		if b = f(); a != b {
			return a, b, false
		}
	}
	return a, a, true
}

// vYaml is a YAML text of an object some of whose keys are scalars of
// different types with the same text.
func vYaml(k *kit.K, depth int, ind string) string {
	s := ""
	used := map[string]bool{}
	for i := 2 + k.R.Intn(5); i > 0; i-- {
		key := kit.Pick(k, "200", "\"200\"", "true", "\"true\"", "1.5", "'1.5'", "a", "b", "c", "d", "~", "\"\"", "x10", "404", "'404'", "default", "1.0", "1", "'1'", "'<nil>'")
		if used[key] || ind == "" && !strings.HasPrefix(key, "x") && len(key) > 1 {
			continue
		}
		used[key] = true
		if depth > 0 && k.R.Intn(2) == 0 {
			s += ind + key + ":\n" + vYaml(k, depth-1, ind+"  ")
		} else {
			s += ind + key + ": v" + fmt.Sprint(k.R.Intn(1000)) + "\n"
		}
	}
	if s == "" {
		return ind + "z: {}\n"
	}
	return s
}

func TestVerifC20Read(t *testing.T) {
	k := kit.New(t, "random YAML texts with keys of different types but the same text, read many times: always the same document")
	for n := k.N(400, 6000); n > 0 && !k.Stop(); n-- {
		text := vYaml(k, 2, "")
		k.Case("C20:read", text, func() {
			a, b, ok := vAgain(12, func() string {
				c, err := container.ReadYAML([]byte(text))
				if err != nil {
					return "error"
				}
				out, err := c.MarshalJSON()
				return fmt.Sprintf("%s %v", out, err)
			})
			if !ok {
				k.Fail("C20:read", "%s is read as %s and as %s", text, a, b)
			}
		})
	}
}

func TestVerifC20Extract(t *testing.T) {
	k := kit.New(t, "the references of random documents, listed many times and for copies of the document: always in the same order")
	key := func() string {
		return kit.Pick(k, "$ref", "a", "b", "c.d", "e~f", "g/h", "é", "10", "9", "k1", "k2", "k3")
	}
	for n := k.N(3000, 40000); n > 0 && !k.Stop(); n-- {
		doc := k.Obj(4, key)
		k.Case("C20:extract", fmt.Sprint(doc), func() {
			a, b, ok := vAgain(6, func() string {
				c, err := container.Make(kit.Copy(doc))
				if err != nil {
					return "error"
				}
				l, err := container.ExtractKey(c, "$ref")
				if err != nil {
					return "error"
				}
				s := ""
				for _, x := range l {
					s += fmt.Sprintf("%q=%v ", x.Key, x.Val)
				}
				return s
			})
			if !ok {
				k.Fail("C20:extract", "the references of %v are listed as %s and as %s", doc, a, b)
			}
		})
	}
}

func TestVerifC20Merge(t *testing.T) {
	k := kit.New(t, "random documents merged many times with copies of others: always the same document, and the same decision")
	key := func() string { return kit.Pick(k, "a", "b", "c.d", "e~f", "g/h", "paths", "10") }
	fns := map[string]container.Merger{"strict": container.MergeStrict, "default": container.MergeDefault, "override": container.MergeOverride}
	for n := k.N(1500, 20000); n > 0 && !k.Stop(); n-- {
		x, y := k.Obj(3, key), k.Obj(3, key)
		fn := kit.Pick(k, "strict", "default", "override")
		k.Case("C20:merge", fmt.Sprint(fn, x, y), func() {
			a, b, ok := vAgain(6, func() string {
				c, err := container.Make(kit.Copy(x))
				if err != nil {
					return "error"
				}
				d, err := container.Make(kit.Copy(y))
				if err != nil {
					return "error"
				}
				if c.Merge(d, fns[fn]) != nil {
					return "error"
				}
				out, err := c.MarshalJSON()
				return fmt.Sprintf("%s %v", out, err)
			})
			if !ok {
				k.Fail("C20:merge", "%v merged with %v (%s) is %s and %s", x, y, fn, a, b)
			}
		})
	}
}

func TestVerifC20Format(t *testing.T) {
	k := kit.New(t, "random documents formatted many times with random output orders: always the same bytes")
	key := func() string {
		return kit.Pick(k, "a", "A", "b1", "b10", "b2", "b02", "é", "z-", "z.", "paths", "openapi", "x y", "1", "01", "ab", "aB")
	}
	for n := k.N(2500, 30000); n > 0 && !k.Stop(); n-- {
		doc := k.Obj(3, key)
		for len(doc) < 3 {
			doc[key()] = k.JSON(2, key)
		}
		var order []string
		for i := k.R.Intn(4); i > 0; i-- {
			order = append(order, key())
		}
		k.Case("C20:format", fmt.Sprint(doc, order), func() {
			a, b, ok := vAgain(6, func() string {
				c, err := container.Make(kit.Copy(doc))
				if err != nil {
					return "error"
				}
				m := container.NewSortMarshaller(c, container.SortMapMarhsaler(order))
				s := ""
				for _, f := range []func() ([]byte, error){m.MarshalJSON, m.MarshalYAML, func() ([]byte, error) { return m.MarshalIndentJSON("", " ") }} {
					out, err := f()
					s += fmt.Sprintf("%s %v\n", out, err != nil)
				}
				return s
			})
			if !ok {
				k.Fail("C20:format", "%v with order %v is written as %s and as %s", doc, order, a, b)
			}
		})
	}
}

func TestVerifC20Dir(t *testing.T) {
	k := kit.New(t, "directories whose files were made in different orders: the files are read in the same order")
	for n := k.N(60, 600); n > 0 && !k.Stop(); n-- {
		var names []string
		used := map[string]bool{}
		for i := 2 + k.R.Intn(5); i > 0; i-- {
			f := kit.Pick(k, "a.yaml", "b.json", "a.json", "c.yml", "B.yaml", "z.yaml", "oapi.json", "10.yaml", "9.yaml", "b.yml")
			if !used[f] {
				used[f] = true
				names = append(names, f)
			}
		}
		k.Case("C20:dir", strings.Join(names, " "), func() {
			a, b, ok := vAgain(3, func() string {
				dir, err := ioutil.TempDir("", "c20")
				if err != nil {
					panic(err)
				}
				defer os.RemoveAll(dir)
				k.R.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
				for _, f := range names {
					ioutil.WriteFile(filepath.Join(dir, f), []byte(`{"n": "`+f+`"}`), 0644)
				}
				cc, err := container.ReadDir(dir, "*.yaml", "*.yml", "*.json")
				if err != nil {
					return "error"
				}
				s := ""
				for _, c := range cc {
					out, _ := c.MarshalJSON()
					s += string(out)
				}
				return s
			})
			sort.Strings(names)
			if !ok {
				k.Fail("C20:dir", "the files %v are read in the order %s and %s", names, a, b)
			}
		})
	}
}
