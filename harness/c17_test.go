package config_test

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/buypal/oapi-go/internal/oapi/config"
	kit "github.com/buypal/oapi-go/internal/verifkit"
	"gopkg.in/yaml.v2"
)

type vM = map[string]interface{}
type vL = []interface{}

// vOver keeps everything a has and takes over the rest of b.
func vOver(a, b vM) vM {
	m := vM{}
	for k, v := range b {
		m[k] = v
	}
	for k, v := range a {
		x, ok1 := v.(vM)
		y, ok2 := m[k].(vM)
		if ok1 && ok2 {
			v = vOver(x, y)
		}
		m[k] = v
	}
	return m
}

func vStr(k *kit.K) string {
	return kit.Pick(k, "a", "b", "c.d", "e~f", "<é>", "", "a b", "#x", "true", "12", "null", "~", "x: y", "- z")
}

func vSchema(k *kit.K, d int) vM {
	m := vM{}
	if k.R.Intn(3) == 0 {
		return vM{"$ref": kit.Pick(k, "go://p#/T", "#/components/schemas/a")}
	}
	if k.R.Intn(2) == 0 {
		m["type"] = kit.Pick(k, "string", "object", "array", "number")
	}
	if k.R.Intn(2) == 0 {
		m["description"] = vStr(k)
	}
	if k.R.Intn(3) == 0 {
		m["required"] = vL{"a", vStr(k)}
	}
	if k.R.Intn(3) == 0 {
		m["maximum"] = kit.Pick(k, "1.5", "20") + ""
		m["maximum"] = float64(k.R.Intn(9)) + 0.5
	}
	if d > 0 && k.R.Intn(2) == 0 {
		p := vM{}
		for i := k.R.Intn(3); i >= 0; i-- {
			p[vKey(k)] = vSchema(k, d-1)
		}
		m["properties"] = p
	}
	if d > 0 && k.R.Intn(3) == 0 {
		m["items"] = vSchema(k, d-1)
	}
	return m
}

func vKey(k *kit.K) string { return kit.Pick(k, "a", "b", "c.d", "e~f", "default", "200", "x/y", "ID") }

func vOperation(k *kit.K) vM {
	m := vM{}
	if k.R.Intn(2) == 0 {
		m["summary"] = vStr(k)
	}
	if k.R.Intn(2) == 0 {
		m["tags"] = vL{vStr(k)}
	}
	if k.R.Intn(3) == 0 {
		m["deprecated"] = k.R.Intn(2) == 0
	}
	if k.R.Intn(2) == 0 {
		r := vM{}
		for i := k.R.Intn(3); i >= 0; i-- {
			x := vM{}
			if k.R.Intn(2) == 0 {
				x["description"] = vStr(k)
			}
			if k.R.Intn(2) == 0 {
				x["content"] = vM{kit.Pick(k, "application/json", "text/plain"): vM{"schema": vSchema(k, 1)}}
			}
			r[kit.Pick(k, "200", "404", "default")] = x
		}
		m["responses"] = r
	}
	return m
}

// vConf is a random configuration.
func vConf(k *kit.K) vM {
	m := vM{}
	for _, f := range []string{"version", "openapi", "format", "dir", "output"} {
		if k.R.Intn(2) == 0 {
			m[f] = kit.Pick(k, "1", "a", "yaml", "./x", "/abs", "stdout", "stderr", "<é>", "json:pretty", "")
		}
	}
	if k.R.Intn(2) == 0 {
		m["exclude"] = vL{vStr(k), vStr(k)}
	}
	if k.R.Intn(3) > 0 {
		i := vM{}
		for _, f := range []string{"title", "description", "version", "termsOfService"} {
			if k.R.Intn(2) == 0 {
				i[f] = vStr(k)
			}
		}
		if k.R.Intn(2) == 0 {
			c := vM{}
			for _, f := range []string{"name", "url", "email"} {
				if k.R.Intn(2) == 0 {
					c[f] = vStr(k)
				}
			}
			i["contact"] = c
		}
		m["info"] = i
	}
	if k.R.Intn(3) == 0 {
		var l vL
		for i := k.R.Intn(3); i > 0; i-- {
			l = append(l, vM{"url": vStr(k), "description": vStr(k)})
		}
		if l == nil {
			l = vL{}
		}
		m["servers"] = l
	}
	if k.R.Intn(3) == 0 {
		m["security"] = vL{vM{vKey(k): vL{"x"}}}
	}
	if k.R.Intn(3) == 0 {
		m["tags"] = vL{vM{"name": vStr(k)}}
	}
	if k.R.Intn(3) == 0 {
		m["externalDocs"] = vM{"url": vStr(k)}
	}
	if k.R.Intn(2) == 0 {
		s := vM{}
		for i := k.R.Intn(3); i >= 0; i-- {
			s[vKey(k)] = vSchema(k, 2)
		}
		m["components"] = vM{"schemas": s}
	}
	if k.R.Intn(2) == 0 {
		s := vM{}
		for i := k.R.Intn(2); i >= 0; i-- {
			s[kit.Pick(k, "go://p#/T", "go://p/q.r#/T/A", "go://p#/T/[]")] = vSchema(k, 1)
		}
		m["overrides"] = s
	}
	if k.R.Intn(2) == 0 {
		s := vM{}
		for i := k.R.Intn(3); i >= 0; i-- {
			s[kit.Pick(k, "/v1*", "get:/a", "/x/{id}", "/a.b", "*")] = vOperation(k)
		}
		m["operations"] = s
	}
	return m
}

// vYAML writes a value in a block or a flow style, with plain numbers as keys
// of objects where they look like numbers.
func vYAML(k *kit.K, v interface{}) string {
	var conv func(v interface{}) interface{}
	plain := k.R.Intn(2) == 0
	conv = func(v interface{}) interface{} {
		switch x := v.(type) {
		case vM:
			m := map[interface{}]interface{}{}
			for a, b := range x {
				if plain && (a == "200" || a == "404") {
					m[map[string]int{"200": 200, "404": 404}[a]] = conv(b)
				} else {
					m[a] = conv(b)
				}
			}
			return m
		case vL:
			l := make(vL, len(x))
			for i := range x {
				l[i] = conv(x[i])
			}
			return l
		}
		return v
	}
	b, err := yaml.Marshal(conv(v))
	if err != nil {
		panic(err)
	}
	return string(b)
}

func vJSON(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// vWrite writes a configuration file.
func vWrite(k *kit.K, file string, v interface{}) {
	s := ""
	switch {
	case strings.HasSuffix(file, ".json"):
		s = vJSON(v)
	case k.R.Intn(6) == 0:
		s = vJSON(v)
	default:
		s = vYAML(k, v)
	}
	if err := ioutil.WriteFile(file, []byte(s), 0644); err != nil {
		panic(err)
	}
}

func vWant(m vM) (c config.Config) {
	if err := json.Unmarshal([]byte(vJSON(m)), &c); err != nil {
		panic(err)
	}
	return
}

func TestVerifC17Files(t *testing.T) {
	k := kit.New(t, "random configurations and bases, in YAML and JSON, in the same and in other directories: the configuration read is the one made of its own values and the remaining ones of its base; missing, unreadable and ill-typed bases are errors")
	root := t.TempDir()
	for _, d := range []string{"c", "b", "c/sub", "wd", "wd/sub"} {
		if err := os.MkdirAll(filepath.Join(root, d), 0755); err != nil {
			t.Fatal(err)
		}
	}
	old, err := os.Getwd()
	if err != nil {
		t.Fatal(err)
	}
	if err = os.Chdir(filepath.Join(root, "wd")); err != nil {
		t.Fatal(err)
	}
	defer os.Chdir(old)
	n := k.N(1500, 20000)
	for i := 0; i < n && !k.Stop(); i++ {
		own := vConf(k)
		ext := kit.Pick(k, ".yaml", ".yml", ".json")
		file := filepath.Join(root, "c", "conf"+ext)
		arg := file
		if k.R.Intn(3) == 0 {
			arg = filepath.Join("..", "c", "conf"+ext)
		}
		base := vM(nil)
		bext := kit.Pick(k, ".yaml", ".yml", ".json")
		bfile := filepath.Join(root, kit.Pick(k, "c/base", "b/base", "c/sub/base", "base")+bext)
		how := k.R.Intn(8)
		bad := ""
		if how > 0 {
			base = vConf(k)
			rel, err := filepath.Rel(filepath.Dir(file), bfile)
			if err != nil {
				panic(err)
			}
			own["extends"] = rel
			switch k.R.Intn(5) {
			case 0:
				own["extends"] = bfile
			case 1:
				own["extends"] = "./" + rel
			}
			switch k.R.Intn(12) {
			case 0:
				bad = "missing base"
			case 1:
				own["extends"] = rel + kit.Pick(k, ".toml", "x")
				bad = "unknown extension"
			case 2:
				bad = "broken base"
			case 3:
				own["extends"] = kit.Pick(k, "3", "x")
				if own["extends"] == "3" {
					own["extends"] = 3.0
				}
				bad = "ill-typed base"
			}
			os.Remove(bfile)
			switch bad {
			case "missing base":
			case "broken base":
				if err := ioutil.WriteFile(bfile, []byte("{\"a\": [\n- x: }"), 0644); err != nil {
					panic(err)
				}
			default:
				vWrite(k, bfile, base)
			}
			// what a wrong directory would give
			vWrite(k, filepath.Join(root, "wd", "base"+bext), vM{"version": "wrong", "info": vM{"title": "wrong"}})
		}
		vWrite(k, file, own)
		k.Case("files", fmt.Sprintf("%s: %s base %s: %s %s", arg, vJSON(own), bfile, vJSON(base), bad), func() {
			got, err := config.ReadFile(arg)
			if bad != "" {
				if err == nil {
					k.Fail("files", "%s: %s extending %s (%s): no error", arg, vJSON(own), bfile, bad)
				}
				return
			}
			if err != nil {
				k.Fail("files", "%s: %s extending %s: %s: %v", arg, vJSON(own), bfile, vJSON(base), err)
				return
			}
			want := vWant(vOver(own, base))
			if got.FilePath != arg {
				k.Fail("files", "%s: file path is %q", arg, got.FilePath)
			}
			want.FilePath = got.FilePath
			if !reflect.DeepEqual(got, want) {
				k.Fail("files", "%s: %s extending %s: %s: got %s, want %s (%s)", arg, vJSON(own), bfile, vJSON(base), vJSON(got), vJSON(want), vDiff(got, want))
			}
		})
		os.Remove(bfile)
	}
	// the texts alone
	for i := k.N(300, 3000); i > 0 && !k.Stop(); i-- {
		own := vConf(k)
		k.Case("text", vJSON(own), func() {
			a, err1 := config.ReadYAML([]byte(vYAML(k, own)))
			b, err2 := config.ReadJSON([]byte(vJSON(own)))
			if err1 != nil || err2 != nil || !reflect.DeepEqual(a, b) || !reflect.DeepEqual(b, vWant(own)) {
				k.Fail("text", "%s: YAML %s %v, JSON %s %v", vJSON(own), vJSON(a), err1, vJSON(b), err2)
			}
		})
	}
}

// TestVerifC17NoJSON: a configuration or base with a value JSON does not have
// is reported, not ignored.
func TestVerifC17NoJSON(t *testing.T) {
	k := kit.New(t, "YAML configurations and bases holding an infinity or not-a-number at a random place: always an error")
	root, err := ioutil.TempDir("", "verif")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(root)
	for i := k.N(60, 400); i > 0 && !k.Stop(); i-- {
		val := kit.Pick(k, ".nan", ".inf", "-.inf", ".NaN", "+.Inf")
		text := kit.Pick(k, "default: "+val, "info:\n  x-y: "+val, "components:\n  schemas:\n    a:\n      default: "+val, "tags: ["+val+"]", "extra: "+val)
		own := "dir: a\n" + text + "\n"
		base := filepath.Join(root, "base.yaml")
		file := filepath.Join(root, "oapi.yml")
		where := kit.Pick(k, "own", "base", "both", "text")
		k.Case("nojson", where+" "+own, func() {
			c, err := config.Config{}, error(nil)
			switch where {
			case "text":
				c, err = config.ReadYAML([]byte(own))
			default:
				o := own
				if where == "base" {
					o = "dir: b\n"
				}
				b := own
				if where == "own" {
					b = "dir: b\n"
				}
				ioutil.WriteFile(file, []byte(o+"extends: "+base+"\n"), 0644)
				ioutil.WriteFile(base, []byte(b), 0644)
				c, err = config.ReadFile(file)
			}
			if err == nil {
				k.Fail("nojson", "%s: %q: no error, got %s", where, own, vJSON(c))
			}
		})
	}
}

func vDiff(a, b config.Config) string {
	var s []string
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	for i := 0; i < x.NumField(); i++ {
		if !reflect.DeepEqual(x.Field(i).Interface(), y.Field(i).Interface()) {
			s = append(s, x.Type().Field(i).Name)
		}
	}
	sort.Strings(s)
	return strings.Join(s, ", ")
}
