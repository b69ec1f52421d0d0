package types

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	kit "github.com/buypal/oapi-go/internal/verifkit"

	"github.com/buypal/oapi-go/internal/oapi/spec"
	"github.com/buypal/oapi-go/internal/pointer"
	"golang.org/x/tools/go/packages"
)

// vt is a type of a generated program.
type vt struct {
	k      string // basic slice array map ptr struct named bad
	b      string // text of a basic or unsupported type
	n      int64
	e      *vt
	ff     []*vf
	name   string
	pkg    string
	selfed bool
}

// vf is a field of a generated struct.
type vf struct {
	name  string
	embed bool
	t     *vt
	opts  vopts
}

// vopts are the options of a tag.
type vopts struct {
	raw      string // whole tag
	ignore   bool
	name     string
	typ      string
	format   string
	pattern  string
	num      map[string]float64
	cnt      map[string]int64
	flag     map[string]bool
	nullable *bool
	inline   *bool
}

// under of a type
func (t *vt) under() *vt {
	for n := 0; t.k == "named" && n < 60; n++ {
		t = t.e
	}
	return t
}

func (t *vt) str(pkg string) string {
	switch t.k {
	case "basic", "bad":
		return t.b
	case "slice":
		return "[]" + t.e.str(pkg)
	case "array":
		return fmt.Sprintf("[%d]%s", t.n, t.e.str(pkg))
	case "map":
		return "map[string]" + t.e.str(pkg)
	case "ptr":
		return "*" + t.e.str(pkg)
	case "named":
		if t.pkg != pkg {
			return vlast(t.pkg) + "." + t.name
		}
		return t.name
	case "struct":
		if t == vTime.e {
			return "the time"
		}
		s := "struct {\n"
		for _, f := range t.ff {
			if !f.embed {
				s += f.name + " "
			}
			s += f.t.str(pkg)
			if f.opts.raw != "" {
				s += " `" + f.opts.raw + "`"
			}
			s += "\n"
		}
		return s + "}"
	}
	panic(t.k)
}

// vsame is identity of types that are not named; structs are all different.
func vsame(a, b *vt) bool { return a == b || a.str("") == b.str("") }

func vlast(p string) string { return p[strings.LastIndex(p, "/")+1:] }

// vprog is a program: the named types of its packages; a package uses those
// before it.
type vprog struct {
	pkgs  []string
	types map[string][]*vt
	loads map[string]*types.Package
	mark  int
}

func (p *vprog) source(pkg string) string {
	body := ""
	for _, t := range p.types[pkg] {
		body += "type " + t.name + " " + t.e.str(pkg) + "\n"
	}
	s := "package " + vlast(pkg) + "\n"
	for _, q := range append([]string{"time"}, p.pkgs...) {
		if q != pkg && strings.Contains(body, vlast(q)+".") {
			s += "import \"" + q + "\"\n"
		}
	}
	return s + body
}

func (p *vprog) text() string {
	s := ""
	for _, q := range p.pkgs {
		s += "// " + q + "\n" + p.source(q)
	}
	return s
}

// Import makes the program its own importer.
func (p *vprog) Import(path string) (*types.Package, error) {
	if pk := p.loads[path]; pk != nil {
		return pk, nil
	}
	src := ""
	switch path {
	case "time":
		src = "package time\ntype Time struct { wall uint64; ext int64 }\n"
	default:
		src = p.source(path)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, 0)
	if err != nil {
		return nil, err
	}
	conf := types.Config{Importer: p}
	pk, err := conf.Check(path, fset, []*ast.File{f}, nil)
	if err != nil {
		return nil, err
	}
	p.loads[path] = pk
	return pk, nil
}

// scan scans the packages for pointers
func (p *vprog) scan(ptrs ...string) (*Scanner, error) {
	var pp []pointer.Pointer
	for _, x := range ptrs {
		q, err := pointer.Parse(x)
		if err != nil {
			return nil, err
		}
		pp = append(pp, q)
	}
	sc := NewScanner(pointer.NewPointers(pp))
	for _, q := range p.pkgs {
		pk, err := p.Import(q)
		if err != nil {
			panic(err)
		}
		if err := sc.Scan(&packages.Package{Types: pk}); err != nil {
			return nil, err
		}
	}
	return sc, nil
}

var vBasics = []string{"bool", "string", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "byte", "rune"}
var vBad = []string{"complex64", "complex128", "uintptr", "chan int", "func()", "interface{}", "error", "interface{ M() }"}

// basic schemas: type, format, unsigned
var vBasic = map[string][2]string{
	"bool": {"boolean", ""}, "string": {"string", ""},
	"int": {"integer", "int32"}, "int8": {"integer", "int32"}, "int16": {"integer", "int32"}, "int32": {"integer", "int32"}, "int64": {"integer", "int64"}, "rune": {"integer", "int32"},
	"uint": {"integer", "int32"}, "uint8": {"integer", "int32"}, "uint16": {"integer", "int32"}, "uint32": {"integer", "int32"}, "uint64": {"integer", "int64"}, "byte": {"integer", "int32"},
	"float32": {"number", "float"}, "float64": {"number", "double"},
}

// names a tag's type may have besides those of Go
var vNamed = map[string][2]string{
	"float": {"number", "float"}, "double": {"number", "double"}, "integer": {"integer", "int32"},
	"base64": {"string", "binary"}, "uuid": {"string", "uuid"}, "password": {"string", "password"},
	"number": {"number", ""}, "object": {"object", ""},
}

func vscalar(ty, format string, unsigned bool, o vopts) map[string]interface{} {
	m := map[string]interface{}{"Type": ty}
	if format != "" {
		m["Format"] = format
	}
	switch ty {
	case "number", "integer":
		if unsigned {
			m["Minimum"] = 0.0
		}
		for _, x := range [][3]string{{"min", "Minimum", ""}, {"emin", "Minimum", "ExclusiveMinimum"}, {"max", "Maximum", ""}, {"emax", "Maximum", "ExclusiveMaximum"}, {"mulof", "MultipleOf", ""}} {
			if v, ok := o.num[x[0]]; ok {
				m[x[1]] = v
				if x[2] != "" {
					m[x[2]] = true
				}
			}
		}
	case "string":
		vcounts(m, o, "minlen", "MinLength", "maxlen", "MaxLength")
		if o.pattern != "" {
			m["Pattern"] = o.pattern
		}
	}
	return m
}

func vcounts(m map[string]interface{}, o vopts, kk ...string) {
	for i := 0; i < len(kk); i += 2 {
		if v, ok := o.cnt[kk[i]]; ok {
			m[kk[i+1]] = v
		}
	}
}

// vbasic is the schema of a basic Go type.
func vbasic(b string, o vopts) (interface{}, bool) {
	x, ok := vBasic[b]
	if !ok {
		return nil, false
	}
	return vscalar(x[0], x[1], strings.HasPrefix(b, "uint") || b == "byte", o), true
}

// vnamed is the schema of a type named in a tag.
func vnamed(n string, o vopts) (interface{}, bool) {
	if x, ok := vNamed[n]; ok {
		return vscalar(x[0], x[1], false, o), true
	}
	if n == "byte" || n == "rune" {
		return nil, false
	}
	return vbasic(n, o)
}

func vsetnull(m map[string]interface{}, v bool) {
	delete(m, "Nullable")
	if v {
		m["Nullable"] = true
	}
}

// vref is a reference to a type.
type vref struct{ t *vt }

// want is the schema of a type.
func (p *vprog) want(t *vt, o vopts, path []*vt) (interface{}, bool) {
	u := t.under()
	for _, x := range path {
		if vsame(x, u) {
			return p.refTo(t), true
		}
	}
	path = append(append([]*vt{}, path...), u)
	null := true
	if o.nullable != nil {
		null = *o.nullable
	}
	switch u.k {
	case "basic":
		return vbasic(u.b, o)
	case "struct":
		if len(path) > 1 {
			return p.refTo(t), true
		}
		return p.wantStruct(u)
	case "slice", "array", "map", "ptr":
		if vsame(u.e.under(), u) { // its own element
			return nil, false
		}
		e, ok := p.want(u.e, o, path)
		if !ok {
			return nil, false
		}
		m := map[string]interface{}{}
		switch u.k {
		case "slice":
			m["Type"], m["Items"] = "array", e
			vcounts(m, o, "minitems", "MinItems", "maxitems", "MaxItems")
			vsetnull(m, null)
		case "array":
			m["Type"], m["Items"] = "array", e
			vcounts(m, o, "minitems", "MinItems", "maxitems", "MaxItems")
			if u.n > 0 {
				m["MaxItems"] = u.n
			}
			vsetnull(m, o.nullable != nil && *o.nullable)
		case "map":
			m["Type"], m["AdditionalProperties"] = "object", e
			vcounts(m, o, "minprops", "MinProperties", "maxprops", "MaxProperties")
			vsetnull(m, null)
		case "ptr":
			if r, ok := e.(vref); ok {
				if !null {
					return r, true
				}
				m["OneOf"] = []interface{}{r, map[string]interface{}{"Type": "object", "Nullable": true}}
				return m, true
			}
			m = e.(map[string]interface{})
			vsetnull(m, null)
		}
		if o.flag["unique"] && (u.k == "slice" || u.k == "array") {
			m["UniqueItems"] = true
		}
		return m, true
	}
	return nil, false
}

func (p *vprog) refTo(t *vt) interface{} {
	if t.under().name == "time.Time" {
		return map[string]interface{}{"Type": "string"}
	}
	return vref{t.under()}
}

var vTime = &vt{k: "named", name: "Time", pkg: "time", e: &vt{k: "struct", name: "time.Time"}}

// fields are the fields a struct shows.
func (p *vprog) fields(u *vt, path []*vt) (out []*vf) {
	for _, x := range path {
		if x == u {
			return nil
		}
	}
	path = append(append([]*vt{}, path...), u)
	for _, f := range u.ff {
		if f.opts.ignore || !ast.IsExported(f.name) {
			continue
		}
		t := f.t.under()
		if t.k == "ptr" {
			t = t.e.under()
		}
		inline := f.embed
		if f.opts.inline != nil {
			inline = *f.opts.inline
		}
		if inline && t.k == "struct" {
			out = append(out, p.fields(t, path)...)
			continue
		}
		out = append(out, f)
	}
	return out
}

func (p *vprog) wantStruct(u *vt) (interface{}, bool) {
	m := map[string]interface{}{"Type": "object"}
	props := map[string]interface{}{}
	var req []interface{}
	for _, f := range p.fields(u, nil) {
		var s interface{}
		ok := true
		switch {
		case f.opts.typ != "":
			s, ok = vnamed(f.opts.typ, f.opts)
		case f.t.under().k == "struct":
			s = p.refTo(f.t)
		default:
			s, ok = p.want(f.t, f.opts, []*vt{u})
		}
		if !ok {
			return nil, false
		}
		name := f.name
		if f.opts.name != "" {
			name = f.opts.name
		}
		props[name] = s
		if f.opts.flag["required"] {
			req = append(req, name)
		}
		if x, ok := s.(map[string]interface{}); ok {
			for a, b := range map[string]string{"deprecated": "Deprecated", "readonly": "ReadOnly", "writeonly": "WriteOnly"} {
				if f.opts.flag[a] {
					x[b] = true
				}
			}
			if f.opts.format != "" {
				x["Format"] = f.opts.format
			}
			if f.opts.nullable != nil {
				vsetnull(x, *f.opts.nullable)
			}
		}
	}
	if len(props) > 0 {
		m["Properties"] = props
	}
	if len(req) > 0 {
		m["Required"] = req
	}
	return m, true
}

// lookup finds the type a pointer's text spells.
func (p *vprog) lookup(text string) *vt {
	for _, q := range p.pkgs {
		if !strings.HasPrefix(text, "go://"+q+"#/") {
			continue
		}
		parts := strings.Split(strings.TrimPrefix(text, "go://"+q+"#/"), "/")
		var t *vt
		for _, x := range p.types[q] {
			if x.name == parts[0] {
				t = x
			}
		}
		if t == nil {
			continue
		}
		t = t.under()
		for _, s := range parts[1:] {
			var n *vt
			switch t.k {
			case "struct":
				for _, f := range t.ff {
					if f.name == s && ast.IsExported(s) {
						n = f.t
					}
				}
			case "ptr":
				if s == "*" {
					n = t.e
				}
			case "slice", "array", "map":
				if s == "[]" {
					n = t.e
				}
			}
			if n == nil {
				return nil
			}
			t = n.under()
		}
		return t
	}
	return nil
}

// diff compares a schema with what is wanted; the empty text means equal.
func (p *vprog) diff(at string, got *spec.Schema, want interface{}) string {
	if got == nil {
		return at + ": no schema"
	}
	if r, ok := want.(vref); ok {
		if got.Ref == nil {
			return fmt.Sprintf("%s: want a reference to %s, got %v", at, r.t.str(""), vshow(got))
		}
		if x := vshow(got).(map[string]interface{}); len(x) != 1 {
			return fmt.Sprintf("%s: reference with siblings %v", at, x)
		}
		if t := p.lookup(got.Ref.String()); t == nil || !vsame(t, r.t) {
			s := "nothing"
			if t != nil {
				s = t.str("")
			}
			return fmt.Sprintf("%s: reference %s names %s, want %s", at, got.Ref.String(), s, r.t.str(""))
		}
		return ""
	}
	w := want.(map[string]interface{})
	v := reflect.ValueOf(*got)
	for i := 0; i < v.NumField(); i++ {
		n := v.Type().Field(i).Name
		x := at + "." + n
		switch y := w[n].(type) {
		case nil:
			if n == "Refable" {
				if got.Ref != nil {
					return fmt.Sprintf("%s: reference to %s, want %v", at, got.Ref.String(), w)
				}
				continue
			}
			if n == "Properties" && len(got.Properties) == 0 || n == "Required" && len(got.Required) == 0 {
				continue
			}
			if !v.Field(i).IsZero() {
				return fmt.Sprintf("%s is set: %v", x, vshow(got))
			}
		case map[string]interface{}:
			if n == "Properties" {
				var a, b []string
				for k := range got.Properties {
					a = append(a, k)
				}
				for k := range y {
					b = append(b, k)
				}
				sort.Strings(a)
				sort.Strings(b)
				if !reflect.DeepEqual(a, b) {
					return fmt.Sprintf("%s are %q, want %q", x, a, b)
				}
				for _, k := range a {
					if s := p.diff(x+"."+k, got.Properties[k], y[k]); s != "" {
						return s
					}
				}
				continue
			}
			if s := p.diff(x, v.Field(i).Interface().(*spec.Schema), y); s != "" {
				return s
			}
		case vref:
			if s := p.diff(x, v.Field(i).Interface().(*spec.Schema), y); s != "" {
				return s
			}
		case []interface{}:
			if n == "OneOf" {
				if len(got.OneOf) != len(y) {
					return fmt.Sprintf("%s has %d alternatives, want %d", x, len(got.OneOf), len(y))
				}
				for j := range y {
					if s := p.diff(fmt.Sprintf("%s[%d]", x, j), got.OneOf[j], y[j]); s != "" {
						return s
					}
				}
				continue
			}
			if s := fmt.Sprint(v.Field(i).Interface()); s != fmt.Sprint(y) {
				return fmt.Sprintf("%s is %s, want %v", x, s, y)
			}
		default:
			z := v.Field(i)
			if z.Kind() == reflect.Ptr && !z.IsNil() {
				z = z.Elem()
			}
			if s := fmt.Sprint(z.Interface()); s != fmt.Sprint(y) {
				return fmt.Sprintf("%s is %s, want %v", x, s, y)
			}
		}
	}
	return ""
}

func vshow(s *spec.Schema) interface{} {
	m := map[string]interface{}{}
	v := reflect.ValueOf(*s)
	for i := 0; i < v.NumField(); i++ {
		if !v.Field(i).IsZero() {
			z := v.Field(i)
			if z.Kind() == reflect.Ptr {
				z = z.Elem()
			}
			m[v.Type().Field(i).Name] = z.Interface()
		}
	}
	if s.Ref != nil {
		m["Refable"] = s.Ref.String()
	}
	return m
}

// check resolves a pointer and compares the schema with that of a type.
func (p *vprog) check(k *kit.K, id string, sc *Scanner, ptr string, t *vt) {
	q, err := pointer.Parse(ptr)
	if err != nil {
		panic(err)
	}
	got, err := sc.Resolve(q)
	want, ok := p.want(t, vopts{}, nil)
	if !ok {
		if err == nil {
			k.Fail(id, "%s in\n%s\nhas a schema %v, want an error", ptr, p.text(), vshow(got))
		}
		return
	}
	if err != nil {
		k.Fail(id, "%s in\n%s\nhas no schema: %v", ptr, p.text(), err)
		return
	}
	if s := p.diff("schema", got, want); s != "" {
		k.Fail(id, "%s in\n%s\n%s", ptr, p.text(), s)
	}
}

// vTag makes a tag; only says which options it may have.
func vTag(k *kit.K, only ...string) (o vopts) {
	o.num, o.cnt, o.flag = map[string]float64{}, map[string]int64{}, map[string]bool{}
	var parts []string
	add := func(format string, a ...interface{}) { parts = append(parts, fmt.Sprintf(format, a...)) }
	for _, x := range only {
		key, odds := x, 3
		if strings.HasSuffix(x, "?") {
			key, odds = x[:len(x)-1], 8
		}
		if k.R.Intn(odds) != 0 {
			continue
		}
		switch key {
		case "name":
			o.name = fmt.Sprintf("n%d", k.R.Intn(1000000))
		case "ignore":
			o.ignore = true
		case "type":
			o.typ = kit.Pick(k, "string", "float32", "float", "float64", "double", "uint", "uint8", "uint16", "uint32", "uint64", "int", "int8", "int16", "int32", "integer", "int64", "bool", "base64", "uuid", "password", "number", "object")
			if k.R.Intn(25) == 0 {
				o.typ = kit.Pick(k, "Int", "int128", "complex64", "str", "array", "file", "uintptr", "datetime")
			}
			add("type:%s", o.typ)
		case "format":
			o.format = kit.Pick(k, "date", "email", "x-y", "int32")
			add("format:%s", o.format)
		case "pattern":
			o.pattern = kit.Pick(k, "^a+$", "[0-9]*", ".")
			add("pattern:%s", o.pattern)
		case "min", "max", "emin", "emax", "mulof":
			v := float64(k.R.Intn(400)-100) / 4
			if k.R.Intn(4) == 0 {
				v = 0
			}
			o.num[key] = v
			add("%s:%v", key, v)
		case "minlen", "maxlen", "minitems", "maxitems", "minprops", "maxprops":
			v := int64(k.R.Intn(60))
			if k.R.Intn(4) == 0 {
				v = 0
			}
			o.cnt[key] = v
			add("%s:%d", key, v)
		case "nullable", "inline":
			v := k.R.Intn(2) == 0
			if key == "nullable" {
				o.nullable = &v
			} else {
				o.inline = &v
			}
			add("%s:%v", key, v)
		default:
			if k.R.Intn(4) == 0 {
				add("%s:false", key)
				continue
			}
			o.flag[key] = true
			add("%s", key)
		}
	}
	k.R.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	if o.ignore {
		o.raw = kit.Pick(k, `oapi:"-"`, `json:"-"`)
		return
	}
	name := o.name
	pre := ""
	if o.name != "" && k.R.Intn(3) == 0 { // named by the other tag
		pre = `json:"` + o.name + `" `
		if len(parts) == 0 {
			o.raw = strings.TrimSpace(pre)
			return
		}
		name = ""
	}
	if name != "" || len(parts) > 0 {
		o.raw = pre + `oapi:"` + strings.Join(append([]string{name}, parts...), ",") + `"`
	}
	return
}

// gen makes a type of the packages up to the i-th.
func (p *vprog) gen(k *kit.K, i, depth int, fields func() vopts, odd bool) *vt {
	n := 10
	if depth <= 0 {
		n = 6
	}
	switch c := k.R.Intn(n); c {
	case 0, 1, 2:
		if odd && k.R.Intn(30) == 0 {
			return &vt{k: "bad", b: kit.Pick(k, vBad...)}
		}
		return &vt{k: "basic", b: kit.Pick(k, vBasics...)}
	case 3, 4, 5:
		if x := p.some(k, i); x != nil {
			return x
		}
		if k.R.Intn(4) == 0 {
			return vTime
		}
		return &vt{k: "basic", b: kit.Pick(k, vBasics...)}
	case 6:
		return &vt{k: "slice", e: p.gen(k, i, depth-1, fields, odd)}
	case 7:
		switch k.R.Intn(3) {
		case 0:
			return &vt{k: "array", n: int64(k.R.Intn(5)), e: p.gen(k, i, depth-1, fields, odd)}
		}
		return &vt{k: "map", e: p.gen(k, i, depth-1, fields, odd)}
	case 8:
		return &vt{k: "ptr", e: p.gen(k, i, depth-1, fields, odd)}
	}
	return p.genStruct(k, i, depth-1, fields, odd)
}

// some is a type declared in the packages up to the i-th.
func (p *vprog) some(k *kit.K, i int) *vt {
	if k.R.Intn(8) == 0 {
		return vTime
	}
	tt := p.types[p.pkgs[k.R.Intn(i+1)]]
	if len(tt) == 0 {
		return nil
	}
	return tt[k.R.Intn(len(tt))]
}

// genStruct makes a struct no other struct is like.
func (p *vprog) genStruct(k *kit.K, i, depth int, fields func() vopts, odd bool) *vt {
	p.mark++
	t := &vt{k: "struct", ff: []*vf{{name: fmt.Sprintf("Mark%d", p.mark), t: &vt{k: "basic", b: "string"}}}}
	for j := k.R.Intn(5); j > 0; j-- {
		p.mark++
		f := &vf{name: fmt.Sprintf("%s%d", kit.Pick(k, "F", "G", "X", "f", "Id"), p.mark), t: p.gen(k, i, depth, fields, odd)}
		f.opts = fields()
		if f.opts.inline != nil && *f.opts.inline && f.t.k == "struct" {
			f.opts.name = ""
		}
		t.ff = append(t.ff, f)
	}
	k.R.Shuffle(len(t.ff), func(a, b int) { t.ff[a], t.ff[b] = t.ff[b], t.ff[a] })
	return t
}

// vProgram makes a program of some packages with some types each.
func vProgram(k *kit.K, fields func() vopts, odd bool) *vprog {
	p := &vprog{types: map[string][]*vt{}, loads: map[string]*types.Package{}}
	for i := 0; i <= k.R.Intn(2); i++ {
		p.pkgs = append(p.pkgs, []string{"test", "example.com/a/other"}[i])
	}
	if len(p.pkgs) == 2 && k.R.Intn(2) == 0 {
		p.pkgs[0], p.pkgs[1] = p.pkgs[1], p.pkgs[0]
	}
	for i, q := range p.pkgs {
		// names first, so that types may be recursive
		n := 1 + k.R.Intn(4)
		for j := 0; j < n; j++ {
			p.types[q] = append(p.types[q], &vt{k: "named", name: fmt.Sprintf("T%d%c", j, 'a'+i), pkg: q})
		}
		for _, t := range p.types[q] {
			t.e = &vt{k: "basic", b: "string"}
		}
		for _, t := range p.types[q] {
			for {
				if k.R.Intn(2) == 0 {
					t.e = p.genStruct(k, i, 3, fields, odd)
				} else {
					t.e = p.gen(k, i, 3, fields, odd)
				}
				if p.legal(q) {
					break
				}
			}
		}
		p.embedSome(k, i, q)
	}
	return p
}

// embedSome embeds declared types into the structs of a package.
func (p *vprog) embedSome(k *kit.K, i int, q string) {
	for _, t := range p.types[q] {
		if t.e.k != "struct" || k.R.Intn(2) == 0 {
			continue
		}
		x := p.some(k, i)
		if x == nil || x == vTime || x.under().k == "ptr" {
			continue
		}
		f := &vf{name: x.name, embed: true, t: x}
		if k.R.Intn(3) == 0 {
			f.t = &vt{k: "ptr", e: x}
		}
		if k.R.Intn(3) == 0 {
			f.opts = vTag(k, "inline", "name", "required", "ignore", "deprecated?", "nullable?")
		}
		old := t.e.ff
		t.e.ff = append([]*vf{f}, old...)
		if !p.legal(q) || p.clash(t.e) {
			t.e.ff = old
		}
	}
}

// clash tells whether two fields shown by a struct have one name.
func (p *vprog) clash(u *vt) bool {
	seen := map[string]bool{}
	for _, f := range p.fields(u, nil) {
		n := f.name
		if f.opts.name != "" {
			n = f.opts.name
		}
		if seen[n] {
			return true
		}
		seen[n] = true
	}
	return false
}

// legal tells whether the types of a package may be declared.
func (p *vprog) legal(q string) bool {
	// a chain of names only
	for _, t := range p.types[q] {
		if t.under() == vTime.e { // a declared time is not the time known by name
			return false
		}
		x, n := t, 0
		for x != nil && x.k == "named" {
			if n++; n > 50 {
				return false
			}
			x = x.e
		}
	}
	delete(p.loads, q)
	_, err := p.Import(q)
	delete(p.loads, q)
	if err != nil && (strings.Contains(err.Error(), "invalid recursive type") || strings.Contains(err.Error(), "cycle")) {
		return false
	}
	if err != nil {
		panic(err.Error() + "\n" + p.source(q))
	}
	return true
}
