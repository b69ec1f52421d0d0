F = "internal/oapi/scan/types/types.go"
P = "internal/oapi/scan/types/point.go"
T = '''package types

import (
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"reflect"
	"testing"

	"github.com/buypal/oapi-go/internal/pointer"
	"golang.org/x/tools/go/packages"
)

var demoTime *types.Package

type demoImp map[string]*types.Package

func (d demoImp) Import(p string) (*types.Package, error) { return d[p], nil }

func demoScan(t *testing.T, ptrs []string, srcs ...string) *Scanner {
	var pp []pointer.Pointer
	for _, x := range ptrs {
		q, err := pointer.Parse(x)
		if err != nil {
			t.Fatal(err)
		}
		pp = append(pp, q)
	}
	sc := NewScanner(pointer.NewPointers(pp))
	imp := demoImp{"time": demoTime}
	for _, src := range srcs {
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, "x.go", src, 0)
		if err != nil {
			t.Fatal(err)
		}
		pk, err := (&types.Config{Importer: imp}).Check(f.Name.Name, fset, []*ast.File{f}, nil)
		if err != nil {
			t.Fatal(err)
		}
		imp[f.Name.Name] = pk
		if err := sc.Scan(&packages.Package{Types: pk}); err != nil {
			t.Fatal(err)
		}
	}
	return sc
}

func demoSame(t *testing.T, sc *Scanner, ptr, want string) {
	q, err := pointer.Parse(ptr)
	if err != nil {
		t.Fatal(err)
	}
	s, err := sc.Resolve(q)
	if want == "" {
		if err == nil {
			t.Fatalf("%%s resolved", ptr)
		}
		return
	}
	if err != nil {
		t.Fatal(err)
	}
	b, err := json.Marshal(s)
	var x, y interface{}
	if err != nil || json.Unmarshal(b, &x) != nil || json.Unmarshal([]byte(want), &y) != nil {
		t.Fatal(err, string(b))
	}
	if !reflect.DeepEqual(x, y) {
		t.Fatalf("%%s: %%s\\n%%s", ptr, b, want)
	}
}

func TestDemo(t *testing.T) {
%s}
'''
Z = [(F, "	zero := 0.\n	switch t {", "	switch t {"),
     (F, "// uint8  : 0 to 255", "// least value of unsigned types\nvar zero float64\n\n// uint8  : 0 to 255"),
     (F, '''		if tg.Min != nil {
			s.Minimum = tg.Min
		}
''', '''		if tg.Min != nil {
			if s.Minimum == nil {
				s.Minimum = new(float64)
			}
			*s.Minimum = *tg.Min
		}
''')]
seed("c08-shared-zero", "C08", Z, "internal/oapi/scan/types", T % '''	sc := demoScan(t, []string{"go://a#/T", "go://a#/U"}, "package a\\ntype T struct { A uint `oapi:\\"A,min:5\\"` }\\ntype U struct { B uint8 }")
	demoSame(t, sc, "go://a#/U", `{"type": "object", "properties": {"B": {"type": "integer", "format": "int32", "minimum": 0}}}`)
	demoSame(t, sc, "go://a#/T", `{"type": "object", "properties": {"A": {"type": "integer", "format": "int32", "minimum": 5}}}`)
	demoSame(t, sc, "go://a#/U", `{"type": "object", "properties": {"B": {"type": "integer", "format": "int32", "minimum": 0}}}`)
''', "an unsigned field with a minimum in its tag, and another unsigned field read afterwards", "the other field takes over the minimum")
seed("c08-zero-bound", "C08", [(F, '''		if tg.EMax != nil {
			s.Maximum = tg.EMax
			s.ExclusiveMaximum = true
		}
''', '''		if tg.EMax != nil {
			s.Maximum = tg.EMax
			s.ExclusiveMaximum = *tg.EMax != 0
		}
''')], "internal/oapi/scan/types", T % '''	sc := demoScan(t, []string{"go://a#/T"}, "package a\\ntype T struct { A int `oapi:\\"A,emax:0\\"` }")
	demoSame(t, sc, "go://a#/T", `{"type": "object", "properties": {"A": {"type": "integer", "format": "int32", "maximum": 0, "exclusiveMaximum": true}}}`)
''', "an exclusive maximum of zero", "the maximum becomes inclusive")
seed("c08-pattern", "C08", [(F, '''		if tg.MinLen != nil {
			s.MinLength = tg.MinLen
		}
		s.Pattern = tg.Pattern
''', '''		if tg.MinLen != nil {
			s.MinLength = tg.MinLen
		}
		if s.MinLength == nil || s.MaxLength == nil {
			s.Pattern = tg.Pattern
		}
''')], "internal/oapi/scan/types", T % '''	sc := demoScan(t, []string{"go://a#/T"}, "package a\\ntype T struct { A string `oapi:\\"A,minlen:2,maxlen:3,pattern:^a\\"` }")
	demoSame(t, sc, "go://a#/T", `{"type": "object", "properties": {"A": {"type": "string", "minLength": 2, "maxLength": 3, "pattern": "^a"}}}`)
''', "a string with a pattern and both lengths", "the pattern is lost")
seed("c08-uint64-name", "C08", [(F, '''	case "uint32":
		return basic2schema(types.Uint32, tg)
	case "uint64":
		return basic2schema(types.Uint64, tg)
''', '''	case "uint32", "uint64":
		return basic2schema(types.Uint32, tg)
''')], "internal/oapi/scan/types", T % '''	sc := demoScan(t, []string{"go://a#/T"}, "package a\\ntype T struct { A string `oapi:\\"A,type:uint64\\"` }")
	demoSame(t, sc, "go://a#/T", `{"type": "object", "properties": {"A": {"type": "integer", "format": "int64", "minimum": 0}}}`)
''', "the type uint64 named in a tag", "the schema has the format of 32 bit numbers")
seed("c09-array-maxitems", "C09", [(F, '''	if t.Len() > 0 {
		x := t.Len()
		s.MaxItems = &x
	}
''', '''	if n := t.Len(); n > 0 && s.MaxItems == nil {
		s.MaxItems = &n
	}
''')], "internal/oapi/scan/types", T % '''	sc := demoScan(t, []string{"go://a#/T"}, "package a\\ntype T struct { A [3]int `oapi:\\"A,maxitems:9\\"` }")
	demoSame(t, sc, "go://a#/T", `{"type": "object", "properties": {"A": {"type": "array", "maxItems": 3, "items": {"type": "integer", "format": "int32"}}}}`)
''', "an array field whose tag allows more items than its length", "the array is no longer limited to its length")
seed("c09-pointer-element", "C09", [(F, '''	if !s.Nullable {
		return s, nil
	}

	s.Nullable = false
''', '''	if !s.Nullable && len(tp) < 3 {
		return s, nil
	}

	s.Nullable = false
''')], "internal/oapi/scan/types", T % '''	sc := demoScan(t, []string{"go://a#/T"}, "package a\\ntype S struct {}\\ntype T struct { A *S `oapi:\\"A,nullable:false\\"`; B []*S `oapi:\\"B,nullable:false\\"` }")
	demoSame(t, sc, "go://a#/T", `{"type": "object", "properties": {"A": {"$ref": "go://a#/S"}, "B": {"type": "array", "items": {"$ref": "go://a#/S"}}}}`)
''', "a slice of pointers to structs whose tag says it is not nullable", "the items may be null")
seed("c09-shared-time", "C09", [(F, "var refStdMapping = map[string]spec.Schema{", "var refStdMapping = map[string]*spec.Schema{"),
     (F, "	refStdMapping[p.String()] = s\n", "	refStdMapping[p.String()] = &s\n"), (F, "		return &sch, nil", "		return sch, nil")], "internal/oapi/scan/types", T % '''	imp := types.NewPackage("time", "time")
	tn := types.NewTypeName(0, imp, "Time", nil)
	st := types.NewStruct([]*types.Var{types.NewField(0, imp, "wall", types.Typ[types.Uint64], false)}, nil)
	types.NewNamed(tn, st, nil)
	imp.Scope().Insert(tn)
	imp.MarkComplete()
	demoTime = imp
	sc := demoScan(t, []string{"go://a#/T", "go://a#/U"}, "package a\\nimport \\"time\\"\\ntype T struct { A []*time.Time }\\ntype U struct { B []time.Time }")
	demoSame(t, sc, "go://a#/T", `{"type": "object", "properties": {"A": {"type": "array", "nullable": true, "items": {"type": "string", "nullable": true}}}}`)
	demoSame(t, sc, "go://a#/U", `{"type": "object", "properties": {"B": {"type": "array", "nullable": true, "items": {"type": "string"}}}}`)
''', "a pointer to a time, and a time elsewhere", "the other time becomes nullable as well")
seed("c10-inline-off", "C10", [(F, '''		if tg.Inline != nil {
			ok = *tg.Inline
		} else {
			ok = t.Embedded()
		}
''', '''		ok = t.Embedded()
		if tg.Inline != nil {
			ok = ok || *tg.Inline
		}
''')], "internal/oapi/scan/types", T % '''	sc := demoScan(t, []string{"go://a#/T"}, "package a\\ntype S struct { X int }\\ntype T struct { S `json:\\",inline:false\\" oapi:\\"s,inline:false\\"` }")
	demoSame(t, sc, "go://a#/T", `{"type": "object", "properties": {"s": {"$ref": "go://a#/S"}}}`)
''', "an embedded struct with inline:false in its tag", "its fields are listed in its place")
seed("c10-flags-of-choice", "C10", [(F, '''		if pschema.Ref != nil {
			continue
		}
''', '''		if pschema.Ref != nil || len(pschema.OneOf) != 0 {
			continue
		}
''')], "internal/oapi/scan/types", T % '''	sc := demoScan(t, []string{"go://a#/T"}, "package a\\ntype S struct { X int }\\ntype T struct { A *S `oapi:\\"A,deprecated,readonly\\"` }")
	demoSame(t, sc, "go://a#/T", `{"type": "object", "properties": {"A": {"oneOf": [{"$ref": "go://a#/S"}, {"type": "object", "nullable": true}], "deprecated": true, "readOnly": true}}}`)
''', "a deprecated field of pointer to struct type", "the flags of its tag are lost")
seed("c10-inlined-required", "C10", [(F, '''			arr = append(arr, z...)
''', '''			for _, y := range z {
				y.tag.Required = y.tag.Required && !tx.Required || tx.Required
				arr = append(arr, y)
			}
''')], "internal/oapi/scan/types", T % '''	sc := demoScan(t, []string{"go://a#/T"}, "package a\\ntype S struct { X int; Y int `oapi:\\"y,required\\"` }\\ntype T struct { S `oapi:\\",required\\"` }")
	demoSame(t, sc, "go://a#/T", `{"type": "object", "required": ["y"], "properties": {"X": {"type": "integer", "format": "int32"}, "y": {"type": "integer", "format": "int32"}}}`)
''', "a required tag on an embedded struct", "every field taken from it becomes required")
seed("c10-ignored-embedded", "C10", [(F, '''		if tx.Ignore || !x.Exported() {
			continue
		}
		st, ok := castInlineStruct(x, tx)
''', '''		st, ok := castInlineStruct(x, tx)
		if !x.Exported() || tx.Ignore && !ok {
			continue
		}
''')], "internal/oapi/scan/types", T % '''	sc := demoScan(t, []string{"go://a#/T"}, "package a\\ntype S struct { X int }\\ntype T struct { S `json:\\"-\\"`; B bool }")
	demoSame(t, sc, "go://a#/T", `{"type": "object", "properties": {"B": {"type": "boolean"}}}`)
''', "an embedded struct ignored by its tag", "its fields are listed all the same")
seed("c11-memo", "C11", [(F, '''	t = t.Underlying()
	m.append(t, r)

	p, visited := p.visit(t)
	if visited {
		return
	}

	type tptr struct {''', '''	t = t.Underlying()
	known := m.at(t).has(r)
	m.append(t, r)

	p, visited := p.visit(t)
	if visited || known {
		return
	}

	type tptr struct {''')], "internal/oapi/scan/types", T % '''	sc := demoScan(t, []string{"go://a#/A", "go://a#/B"}, "package a\\ntype A struct { X *B; N int }\\ntype B struct { Y *A }")
	demoSame(t, sc, "go://a#/B/Y/*/N", `{"type": "integer", "format": "int32"}`)
''', "two types which refer to each other, both referenced", "paths into the second one through the first cannot be resolved")
seed("c11-other-package", "C11", [(P, '''		return p1.String() == p2.Pointer.String()
	})
	return t, ok''', '''		return p1.URL.Host == p2.Pointer.URL.Host && p1.Fragment.String() == p2.Fragment.String()
	})
	return t, ok''')], "internal/oapi/scan/types", T % '''	sc := demoScan(t, []string{"go://a#/T"}, "package a\\ntype T struct { N int }")
	demoSame(t, sc, "go://a#/T/N", `{"type": "integer", "format": "int32"}`)
	demoSame(t, sc, "go://a/b#/T/N", "")
''', "a pointer into a package which shares the beginning of its path with a scanned one", "it resolves to the type of the other package")
seed("c11-foreign-named", "C11", [(F, '''		if ok && named.Obj().Pkg() != nil { // predeclared types, ie. error, have no pkg
			np := newPoint(named.Obj())
			err = walk(np, e.t, p, m)
		}
''', '''		if ok && named.Obj().Pkg() != nil { // predeclared types, ie. error, have no pkg
			if _, isPtr := named.Underlying().(*types.Pointer); !isPtr {
				np := newPoint(named.Obj())
				err = walk(np, e.t, p, m)
			}
		}
''')], "internal/oapi/scan/types", T % '''	sc := demoScan(t, []string{"go://b#/T"}, "package a\\ntype P *int", "package b\\nimport \\"a\\"\\ntype T struct { X a.P }")
	demoSame(t, sc, "go://a#/P", `{"type": "integer", "format": "int32", "nullable": true}`)
''', "a named pointer type met inside another type", "it cannot be resolved by its own name")
