package oapi_test

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"io/ioutil"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"

	root "github.com/buypal/oapi-go"
	"github.com/buypal/oapi-go/internal/container"
	kit "github.com/buypal/oapi-go/internal/verifkit"
	"gopkg.in/yaml.v2"
)

type vM = map[string]interface{}
type vL = []interface{}

// vObj is an object with its keys in the order of the text.
type vObj struct {
	keys []string
	vals map[string]interface{}
}

// vReadJSON reads a value of the decoder, rejecting keys given twice.
func vReadJSON(d *json.Decoder) (interface{}, error) {
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch x := t.(type) {
	case json.Delim:
		if x == '[' {
			r := []interface{}{}
			for d.More() {
				v, err := vReadJSON(d)
				if err != nil {
					return nil, err
				}
				r = append(r, v)
			}
			_, err = d.Token()
			return r, err
		}
		o := vObj{vals: map[string]interface{}{}}
		for d.More() {
			k, err := d.Token()
			if err != nil {
				return nil, err
			}
			s, ok := k.(string)
			if !ok {
				return nil, fmt.Errorf("key %v", k)
			}
			if _, dup := o.vals[s]; dup {
				return nil, fmt.Errorf("key %q twice", s)
			}
			v, err := vReadJSON(d)
			if err != nil {
				return nil, err
			}
			o.keys = append(o.keys, s)
			o.vals[s] = v
		}
		_, err = d.Token()
		return o, err
	}
	return t, nil
}

func vFromJSON(b []byte) (interface{}, error) {
	if !json.Valid(b) {
		return nil, fmt.Errorf("not JSON")
	}
	return vReadJSON(json.NewDecoder(bytes.NewReader(b)))
}

// vFromYAML reads a YAML document.
func vFromYAML(b []byte, object bool) (interface{}, error) {
	if object {
		var m yaml.MapSlice
		if err := yaml.Unmarshal(b, &m); err != nil {
			return nil, err
		}
		return vYAML(m)
	}
	var v interface{}
	if err := yaml.UnmarshalStrict(b, &v); err != nil {
		return nil, err
	}
	return vYAML(v)
}

func vYAML(v interface{}) (interface{}, error) {
	switch x := v.(type) {
	case yaml.MapSlice:
		o := vObj{vals: map[string]interface{}{}}
		for _, it := range x {
			s, ok := it.Key.(string)
			if !ok {
				return nil, fmt.Errorf("key %#v is not a text", it.Key)
			}
			if _, dup := o.vals[s]; dup {
				return nil, fmt.Errorf("key %q twice", s)
			}
			w, err := vYAML(it.Value)
			if err != nil {
				return nil, err
			}
			o.keys = append(o.keys, s)
			o.vals[s] = w
		}
		return o, nil
	case map[interface{}]interface{}:
		o := vObj{vals: map[string]interface{}{}}
		for k, y := range x {
			s, ok := k.(string)
			if !ok {
				return nil, fmt.Errorf("key %#v is not a text", k)
			}
			w, err := vYAML(y)
			if err != nil {
				return nil, err
			}
			o.keys = append(o.keys, s)
			o.vals[s] = w
		}
		return o, nil
	case []interface{}:
		r := []interface{}{}
		for _, y := range x {
			w, err := vYAML(y)
			if err != nil {
				return nil, err
			}
			r = append(r, w)
		}
		return r, nil
	case int:
		return float64(x), nil
	case int64:
		return float64(x), nil
	case uint64:
		return float64(x), nil
	case nil, bool, string, float64:
		return v, nil
	}
	return nil, fmt.Errorf("%T in the document", v)
}

// vSame tells how the decoded value differs from the document.
func vSame(got, want interface{}, at string) string {
	switch w := want.(type) {
	case map[string]interface{}:
		o, ok := got.(vObj)
		if !ok {
			return fmt.Sprintf("%s is %#v and not an object", at, got)
		}
		for k := range w {
			if _, ok := o.vals[k]; !ok {
				return fmt.Sprintf("%s has lost key %q", at, k)
			}
		}
		for k := range o.vals {
			if _, ok := w[k]; !ok {
				return fmt.Sprintf("%s has a new key %q", at, k)
			}
		}
		for k, v := range w {
			if s := vSame(o.vals[k], v, at+"/"+k); s != "" {
				return s
			}
		}
		return ""
	case []interface{}:
		g, ok := got.([]interface{})
		if !ok || len(g) != len(w) {
			return fmt.Sprintf("%s is %#v and not a list of %d", at, got, len(w))
		}
		for i := range w {
			if s := vSame(g[i], w[i], fmt.Sprintf("%s/%d", at, i)); s != "" {
				return s
			}
		}
		return ""
	case float64:
		if g, ok := got.(float64); ok && (g == w || math.Abs(g-w) <= math.Abs(w)*1e-15) {
			return ""
		}
	}
	if !reflect.DeepEqual(got, want) {
		return fmt.Sprintf("%s is %#v and not %#v", at, got, want)
	}
	return ""
}

// vInOrder checks the order of the keys of a decoded object.
func vInOrder(got interface{}, order []string) (rest []string, bad string) {
	o, ok := got.(vObj)
	if !ok {
		return nil, ""
	}
	pos := map[string]int{}
	for i, k := range order {
		if _, ok := pos[k]; !ok {
			pos[k] = i
		}
	}
	last := -1
	for _, k := range o.keys {
		i, ok := pos[k]
		if !ok {
			rest = append(rest, k)
			continue
		}
		if i < last {
			return rest, fmt.Sprintf("keys come as %q, order is %q", o.keys, order)
		}
		last = i
	}
	return rest, ""
}

var vTexts = []string{"null", "Null", "~", "true", "False", "yes", "on", "Off", "y", "N", "1", "-1", "+1", "1.0", "0x1F", "0o7", "017", "1e3", "1_000", "0b1", ".inf", "-.Inf", ".nan", "2001-01-01", "2001-01-01T00:00:00Z", "12:30:45", "190:20:30", "<<", "=", "- a", "? x", ": ", "a: b", "a #c", "#c", "!tag", "!!str x", "&a", "*a", "|", ">", "@x", "`", "``", "a`b", "%x", " lead", "trail ", "a\n", "\n\na", "a\r\nb", "\r", "\t", "\ttab", "\ufeff", "a\ufeffb", "\u0085", "\u2028", "\u2029x", "\U0001F600", "\x01", "\x1b[0m", "\x7f", "multi\nline\n", "  two\n lines", "'", "''", "\"", "\\", "\\n", "\\u0041", "\\u003c", "\\u003e", "\\u0026", "\\u2028", "\\u0000", "\\\"", "\\\\", "\\t", "\\x41", "200", "404", "99999", "default", "\" + \"", "` + \"", "{{.}}", "{{", "}}", "${x}", "*/", "//", "<script>&amp;", "---", "...", "--- a", "[", "]", "{", "}", "[]", "{}", ",", "a,b", "é", "日本", "\u00a0", "\u200b", "\ufffd", "\ufffe", "\U0010ffff", "\x00", "a\x00b", "", " ", "\n", strings.Repeat("long text ", 20), strings.Repeat("x", 200), "key", "0", "x-y", "openapi", "info", "paths", "components", "Info", "zz"}

func vText(k *kit.K) string {
	if k.R.Intn(3) == 0 {
		return strings.Replace(k.Str(), "$ref", "ref", -1)
	}
	s := vTexts[k.R.Intn(len(vTexts))]
	if k.R.Intn(3) == 0 {
		s += vTexts[k.R.Intn(len(vTexts))]
	}
	return s
}

// vKey is a text which may be a key; the key << is a case of its own.
func vKey(k *kit.K) string {
	for {
		if s := vText(k); s != "<<" {
			return s
		}
	}
}

func vValue(k *kit.K, depth int) interface{} {
	v := k.JSON(depth, func() string { return vKey(k) })
	if k.R.Intn(6) == 0 {
		ns := []float64{1e21, 1e-7, 123456789012345, 1.5e300, -0.1, 1e6, 12345678, 0.1, 1e15, 3.141592653589793, 4e-320, -2147483649, 9007199254740992, 1e19, 100}
		return ns[k.R.Intn(len(ns))]
	}
	return v
}

// vStrings are the texts of the constants of a Go file, which must be a valid
// one.
func vStrings(src []byte) (r []string, err error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", src, parser.AllErrors)
	if err != nil {
		return nil, err
	}
	conf := types.Config{Error: func(error) {}, DisableUnusedImportCheck: false}
	info := &types.Info{Defs: map[*ast.Ident]types.Object{}}
	pkg, err := conf.Check(f.Name.Name, fs, []*ast.File{f}, info)
	if err != nil {
		return nil, err
	}
	for _, n := range pkg.Scope().Names() {
		if c, ok := pkg.Scope().Lookup(n).(*types.Const); ok && c.Val().Kind() == constant.String {
			r = append(r, constant.StringVal(c.Val()))
		}
	}
	if len(r) == 0 {
		return nil, fmt.Errorf("no text constant")
	}
	return r, nil
}

var vOrder = []string{"openapi", "info", "components", "paths"}

type vPair struct {
	seq string
	got interface{}
}

// vCheck checks one output.
func vCheck(format string, data []byte, doc interface{}, order []string) (rest []string, bad string) {
	_, object := doc.(map[string]interface{})
	var got interface{}
	var err error
	switch format {
	case "yaml", "yml":
		got, err = vFromYAML(data, object)
	case "go":
		var ss []string
		if ss, err = vStrings(data); err == nil {
			bad = "no constant with the document"
			for _, s := range ss {
				v, e := vFromJSON([]byte(s))
				if e != nil {
					bad = "constant: " + e.Error()
					continue
				}
				if bad = vSame(v, doc, ""); bad == "" {
					got = v
					break
				}
			}
			if bad != "" {
				return nil, bad
			}
		}
	default:
		got, err = vFromJSON(data)
	}
	if err != nil {
		return nil, err.Error()
	}
	if bad = vSame(got, doc, ""); bad != "" {
		return nil, bad
	}
	return vInOrder(got, order)
}

func TestVerifC19(t *testing.T) {
	k := kit.New(t, "random documents (keys and texts with quotes, backquotes, control, non-ASCII characters and YAML scalars of every kind, numbers of every size) scanned from a module and given in every format; each output is decoded by a reader which rejects keys given twice and compared with the document, the Go file is type checked")
	type job struct {
		desc string
		doc  vM
		bads []string
	}
	n := k.N(500, 4000)
	jobs := make([]*job, n)
	for i := range jobs {
		doc := vM{"openapi": "3.0.0"}
		if k.R.Intn(3) > 0 {
			doc["info"] = vM{"title": vText(k), "version": vText(k), "x-" + vText(k): vValue(k, 2)}
		}
		if k.R.Intn(2) > 0 {
			doc["paths"] = vM{"/" + vText(k): vM{"get": vM{"summary": vText(k), "x-" + vText(k): vValue(k, 2)}}}
		}
		if k.R.Intn(2) > 0 {
			doc["components"] = vM{"x-" + vText(k): vValue(k, 3)}
		}
		for j := k.R.Intn(5); j >= 0; j-- {
			doc["x-"+vText(k)] = vValue(k, 3)
		}
		if k.R.Intn(2) > 0 {
			doc["zzz"+vText(k)] = vValue(k, 1)
		}
		// each text in turn, as a text and as a key
		one := vTexts[i%len(vTexts)]
		doc["x-text"] = vL{one}
		if one != "<<" {
			doc["x-key"] = vM{one: vM{one + one: one}}
		}
		b, _ := json.Marshal(doc)
		jobs[i] = &job{desc: string(b), doc: doc}
	}
	tmp, err := ioutil.TempDir("", "c19")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(tmp)
	var wg sync.WaitGroup
	ch := make(chan int)
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				j := jobs[i]
				func() {
					defer func() {
						if r := recover(); r != nil {
							j.bads = append(j.bads, fmt.Sprint("panic: ", r))
						}
					}()
					dir := filepath.Join(tmp, fmt.Sprint("m", i))
					os.MkdirAll(dir, 0755)
					ioutil.WriteFile(filepath.Join(dir, "go.mod"), []byte("module example.com/m\n\ngo 1.15\n"), 0644)
					ioutil.WriteFile(filepath.Join(dir, "m.go"), []byte("package m\n"), 0644)
					ioutil.WriteFile(filepath.Join(dir, "oapi.json"), []byte(j.desc), 0644)
					o, err := root.Scan(context.Background(), root.WithDir(dir))
					if err != nil {
						j.bads = append(j.bads, "scan: "+err.Error())
						return
					}
					var rests []string
					for _, f := range []string{"json", "json:pretty", "yaml", "yml", "go", "json"} {
						data, err := root.Format(f, o)
						if err != nil {
							j.bads = append(j.bads, f+": "+err.Error())
							continue
						}
						rest, bad := vCheck(f, data, j.doc, vOrder)
						if bad != "" {
							if len(data) > 400 {
								data = append(data[:400:400], "..."...)
							}
							j.bads = append(j.bads, fmt.Sprintf("%s: %s; output %q", f, bad, data))
							continue
						}
						rests = append(rests, fmt.Sprint(f, rest))
						if f == "json" && fmt.Sprint(f, rest) != rests[0] && strings.HasPrefix(rests[0], f+"[") {
							j.bads = append(j.bads, fmt.Sprintf("%s: the remaining keys come as %s and as %s%v", f, rests[0], f, rest))
						}
					}
				}()
			}
		}()
	}
	for i := range jobs {
		ch <- i
	}
	close(ch)
	wg.Wait()
	for i, j := range jobs {
		j := j
		k.Case(fmt.Sprintf("doc-%d", i), "document "+j.desc, func() {
			if len(j.bads) > 0 {
				k.Fail(fmt.Sprintf("doc-%d", i), "document %s: %s", j.desc, strings.Join(j.bads, "; "))
			}
		})
	}
	for _, f := range []string{"", "JSON", "xml", "json:", "toml"} {
		f := f
		k.Case("format-"+f, "format "+f, func() {
			if b, err := root.Format(f, root.OAPI{}); err == nil {
				k.Fail("format-"+f, "format %q is none, and gives %q", f, b)
			}
		})
	}
}

func TestVerifC19Sort(t *testing.T) {
	k := kit.New(t, "random documents and output orders (keys of the document, others, none) written by the sorting marshaller as JSON, indented JSON and YAML, twice each; decoded and compared, the order of the keys checked")
	for _, v := range []interface{}{vM{"<<": "x"}, vM{"a": vM{"<<": vM{"b": 1.0}}}} {
		v := v
		k.Case("yaml-merge-key", fmt.Sprint(v), func() {
			c, err := container.Make(kit.Copy(v))
			if err != nil {
				k.Fail("yaml-merge-key", "%v: %v", v, err)
				return
			}
			data, err := container.NewSortMarshaller(c, container.SortMapMarhsaler(vOrder)).MarshalYAML()
			if err != nil {
				k.Fail("yaml-merge-key", "%v: %v", v, err)
				return
			}
			if _, bad := vCheck("yaml", data, v, vOrder); bad != "" {
				k.Fail("yaml-merge-key", "document %v as YAML: %s; output %q", v, bad, data)
			}
		})
	}
	for i, n := 0, k.N(6000, 40000); i < n && !k.Stop(); i++ {
		doc := vM{}
		for j := k.R.Intn(14); j > 0; j-- {
			doc[vKey(k)] = vValue(k, 2)
		}
		var all []string
		for x := range doc {
			all = append(all, x)
		}
		sort.Strings(all)
		k.R.Shuffle(len(all), func(a, b int) { all[a], all[b] = all[b], all[a] })
		var order []string
		if k.R.Intn(8) > 0 {
			order = append([]string{}, all[:k.R.Intn(len(all)+1)]...)
			for j := k.R.Intn(3); j > 0; j-- {
				at := k.R.Intn(len(order) + 1)
				order = append(order[:at], append([]string{vText(k)}, order[at:]...)...)
			}
		}
		var v interface{} = doc
		if k.R.Intn(20) == 0 {
			v = vL{doc, vValue(k, 2)}
		}
		b, _ := json.Marshal(v)
		id := fmt.Sprintf("sort-%d", i)
		k.Case(id, fmt.Sprintf("order %q document %s", order, b), func() {
			prefix, indent := kit.Pick(k, "", " ", "\t"), kit.Pick(k, "", "  ", "\t")
			rests := map[string]string{}
			for pass := 0; pass < 2; pass++ {
				ord := append([]string(nil), order...)
				if order != nil && ord == nil {
					ord = []string{}
				}
				c, err := container.Make(kit.Copy(v))
				if err != nil {
					k.Fail(id, "document %s: %v", b, err)
					return
				}
				s := container.NewSortMarshaller(c, container.SortMapMarhsaler(ord))
				for _, f := range []string{"json", "indent", "yaml"} {
					var data []byte
					switch f {
					case "json":
						data, err = s.MarshalJSON()
					case "indent":
						data, err = s.MarshalIndentJSON(prefix, indent)
					default:
						data, err = s.MarshalYAML()
					}
					if err != nil {
						k.Fail(id, "order %q document %s: %s: %v", order, b, f, err)
						return
					}
					rest, bad := vCheck(f, data, v, order)
					if bad != "" {
						k.Fail(id, "order %q document %s: %s: %s; output %q", order, b, f, bad, data)
						return
					}
					if r, ok := rests[f]; ok && r != fmt.Sprintf("%q", rest) {
						k.Fail(id, "order %q document %s: %s: the remaining keys come as %s and as %q", order, b, f, r, rest)
						return
					}
					rests[f] = fmt.Sprintf("%q", rest)
				}
				// the document is as it was
				if bad := vSame(vGeneric(c.Data()), v, ""); bad != "" {
					k.Fail(id, "order %q document %s is changed by writing it: %s", order, b, bad)
					return
				}
			}
		})
	}
}

func vGeneric(v interface{}) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		o := vObj{vals: map[string]interface{}{}}
		for k, y := range x {
			o.vals[k] = vGeneric(y)
		}
		return o
	case []interface{}:
		r := []interface{}{}
		for _, y := range x {
			r = append(r, vGeneric(y))
		}
		return r
	}
	return v
}
