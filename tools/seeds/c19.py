S = "internal/container/sort.go"
R = "oapi.go"
T = '''package oapi

import (
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/token"
	"strconv"
	"testing"

	"github.com/buypal/oapi-go/internal/container"
	"gopkg.in/yaml.v2"
)

var _ = json.Valid
var _ = ast.Inspect
var _ = parser.ParseFile
var _ = token.NewFileSet
var _ = strconv.Unquote
var _ = yaml.Marshal

type m = map[string]interface{}

func format(t *testing.T, f string, v m) []byte {
	c, err := container.Make(v)
	if err != nil {
		t.Fatal(err)
	}
	data, err := Format(f, OAPI{c: c})
	if err != nil {
		t.Fatal(err)
	}
	return data
}

func TestDemo(t *testing.T) {
%s}
'''
seed("c19-null-comma", "C19", [(S, '''		b, err := json.Marshal(&mi.Val)
		if err != nil {
			return nil, err
		}
''', '''		if mi.Val == nil {
			continue
		}
		b, err := json.Marshal(mi.Val)
		if err != nil {
			return nil, err
		}
''')], ".", T % '''	data := format(t, "json", m{"openapi": "3.0.0", "x-none": nil})
	var v m
	if err := json.Unmarshal(data, &v); err != nil {
		t.Fatalf("%%v: %%s", err, data)
	}
	if _, ok := v["x-none"]; !ok {
		t.Fatalf("%%s", data)
	}
''', "a key of the document whose value is null", "the JSON formats lose the key, or are no JSON when it is the last one")
seed("c19-go-plain", "C19", [(R, '''			OpenAPIJson: string(data),
''', '''			OpenAPIJson: strings.NewReplacer("\\\\u003c", "<", "\\\\u003e", ">", "\\\\u0026", "&").Replace(string(data)),
'''), (R, '''	"context"
''', '''	"context"
	"strings"
''')], ".", T % '''	text := `a \\u003c b`
	data := format(t, "go", m{"openapi": "3.0.0", "x": text})
	f, err := parser.ParseFile(token.NewFileSet(), "x.go", data, 0)
	if err != nil {
		t.Fatal(err)
	}
	ok := false
	ast.Inspect(f, func(n ast.Node) bool {
		if l, is := n.(*ast.BasicLit); is && l.Kind == token.STRING {
			s, _ := strconv.Unquote(l.Value)
			var v m
			if err := json.Unmarshal([]byte(s), &v); err != nil {
				t.Fatalf("%%v: %%s", err, s)
			}
			ok = v["x"] == text
		}
		return true
	})
	if !ok {
		t.Fatalf("%%s", data)
	}
''', "a text which itself spells one of the escapes of the JSON encoder", "the document in the generated Go file is no JSON")
seed("c19-yaml-integers", "C19", [(S, '''	for _, x := range ms.Sort() {
		m = append(m, yaml.MapItem{
			Key:   x.Key,
''', '''	for _, x := range ms.Sort() {
		m = append(m, yaml.MapItem{
			Key:   yamlKey(x.Key),
'''), (S, '''// MapSlice of map items.
''', '''// yamlKey is key of object, status codes are written without quotes.
func yamlKey(key string) interface{} {
	if len(key) == 3 && key[0] >= '1' && key[0] <= '5' && strings.Trim(key, "0123456789") == "" {
		return int(key[0]-'0')*100 + int(key[1]-'0')*10 + int(key[2]-'0')
	}
	return key
}

// MapSlice of map items.
'''), (S, '''	"sort"
''', '''	"sort"
	"strings"
''')], ".", T % '''	data := format(t, "yaml", m{"openapi": "3.0.0", "components": m{"responses": m{"404": m{"description": "none"}}}})
	var v struct{ Components yaml.MapSlice }
	if err := yaml.Unmarshal(data, &v); err != nil {
		t.Fatal(err)
	}
	for _, x := range v.Components {
		for _, y := range x.Value.(yaml.MapSlice) {
			if _, ok := y.Key.(string); !ok {
				t.Fatalf("%%T: %%s", y.Key, data)
			}
		}
	}
''', "objects with keys which look like a status code, in the YAML format", "the keys of responses are numbers in the YAML output and texts in the JSON output")
