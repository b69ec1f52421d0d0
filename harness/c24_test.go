package spec_test

import (
	"fmt"
	"reflect"
	"testing"

	. "github.com/buypal/oapi-go/internal/oapi/spec"
	kit "github.com/buypal/oapi-go/internal/verifkit"
)

// dump shows everything reachable from a value.
func dump(v interface{}) string { return show(reflect.ValueOf(v), 0) }

func show(v reflect.Value, d int) string {
	if d > 8 {
		return "..."
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return "&" + show(v.Elem(), d+1)
	case reflect.Struct:
		s := "{"
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if f.IsZero() {
				continue
			}
			s += v.Type().Field(i).Name + ":" + show(f, d+1) + " "
		}
		return s + "}"
	case reflect.Slice:
		s := "["
		for i := 0; i < v.Len(); i++ {
			s += show(v.Index(i), d+1) + ","
		}
		return s + "]"
	case reflect.Map:
		return fmt.Sprintf("map%d:%v", v.Len(), sorted(v, d))
	}
	return fmt.Sprintf("%v", v)
}

func sorted(v reflect.Value, d int) []string {
	m := map[string]string{}
	for _, k := range v.MapKeys() {
		m[k.String()] = show(v.MapIndex(k), d+1)
	}
	var out []string
	for _, k := range keysOf(m) {
		out = append(out, k+"="+m[k])
	}
	return out
}

func keysOf(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	for i := range ks {
		for j := i + 1; j < len(ks); j++ {
			if ks[j] < ks[i] {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
	}
	return ks
}

func full(k *kit.K) *Schema {
	f, i := 1.5, int64(3)
	s := &Schema{Title: k.Str(), Pattern: "p", Format: "f", Type: "string", UniqueItems: true, ReadOnly: true, WriteOnly: true, Nullable: true, Deprecated: true,
		Description: "d", Maximum: &f, Minimum: &f, ExclusiveMaximum: true, ExclusiveMinimum: true, MultipleOf: &f,
		MaxLength: &i, MinLength: &i, MaxItems: &i, MinItems: &i, MaxProperties: &i, MinProperties: &i}
	s.Required = append(make([]string, 0, 8), "r")
	s.Enum = []Any{NewAny("e")}
	s.AllOf = append(make([]*Schema, 0, 8), &Schema{Title: "all"})
	s.Properties = map[string]*Schema{"p": {Title: "prop"}, "q": {}}
	s.XML = &XML{Name: "n", Namespace: "ns", Prefix: "px", Attribute: true}
	s.ExternalDocs = &ExternalDocumentation{Description: "ed", URL: "u"}
	s.Example = NewAny("ex")
	s.Default = NewAny(1)
	return s
}

func TestVerifC24Schema(t *testing.T) {
	k := kit.New(t, "every builder on empty and on fully set objects; the object is compared with a copy in which exactly the named field is changed")
	f, i := func(x float64) *float64 { return &x }, func(x int64) *int64 { return &x }
	xm := func(s *Schema, g func(x *XML)) {
		if s.XML == nil {
			s.XML = &XML{}
		}
		g(s.XML)
	}
	other := &Schema{Title: "other"}
	cases := map[string][2]func(s *Schema) *Schema{}
	add := func(n string, do func(s *Schema) *Schema, want func(s *Schema)) {
		cases[n] = [2]func(s *Schema) *Schema{do, func(s *Schema) *Schema { want(s); return s }}
	}
	add("WithTitle", func(s *Schema) *Schema { return s.WithTitle("T") }, func(s *Schema) { s.Title = "T" })
	add("WithDescription", func(s *Schema) *Schema { return s.WithDescription("T") }, func(s *Schema) { s.Description = "T" })
	add("WithProperties", func(s *Schema) *Schema { return s.WithProperties(map[string]*Schema{"z": other}) }, func(s *Schema) { s.Properties = map[string]*Schema{"z": other} })
	add("WithProperty", func(s *Schema) *Schema { return s.WithProperty("p", other) }, func(s *Schema) {
		if s.Properties == nil {
			s.Properties = map[string]*Schema{}
		}
		s.Properties["p"] = other
	})
	add("WithProperty2", func(s *Schema) *Schema { return s.WithProperty("", other) }, func(s *Schema) {
		if s.Properties == nil {
			s.Properties = map[string]*Schema{}
		}
		s.Properties[""] = other
	})
	add("WithAllOf", func(s *Schema) *Schema { return s.WithAllOf(other, nil) }, func(s *Schema) { s.AllOf = []*Schema{other, nil} })
	add("AddToAllOf", func(s *Schema) *Schema { return s.AddToAllOf(other, nil) }, func(s *Schema) { s.AllOf = append(append([]*Schema{}, s.AllOf...), other, nil) })
	add("WithMaxProperties", func(s *Schema) *Schema { return s.WithMaxProperties(7) }, func(s *Schema) { s.MaxProperties = i(7) })
	add("WithMinProperties", func(s *Schema) *Schema { return s.WithMinProperties(0) }, func(s *Schema) { s.MinProperties = i(0) })
	add("WithType", func(s *Schema) *Schema { return s.WithType("integer", "") }, func(s *Schema) { s.Type = "integer"; s.Format = "" })
	add("WithFormat", func(s *Schema) *Schema { return s.WithFormat("F") }, func(s *Schema) { s.Format = "F" })
	add("WithDefault", func(s *Schema) *Schema { return s.WithDefault(NewAny("D")) }, func(s *Schema) { s.Default = NewAny("D") })
	add("WithExample", func(s *Schema) *Schema { return s.WithExample(NewAny("D")) }, func(s *Schema) { s.Example = NewAny("D") })
	add("WithRequired", func(s *Schema) *Schema { return s.WithRequired("x", "r") }, func(s *Schema) { s.Required = []string{"x", "r"} })
	add("AddRequired", func(s *Schema) *Schema { return s.AddRequired("x", "r", "r") }, func(s *Schema) { s.Required = append(append([]string{}, s.Required...), "x", "r", "r") })
	add("WithMaxLength", func(s *Schema) *Schema { return s.WithMaxLength(0) }, func(s *Schema) { s.MaxLength = i(0) })
	add("WithMinLength", func(s *Schema) *Schema { return s.WithMinLength(9) }, func(s *Schema) { s.MinLength = i(9) })
	add("WithPattern", func(s *Schema) *Schema { return s.WithPattern("P") }, func(s *Schema) { s.Pattern = "P" })
	add("WithMultipleOf", func(s *Schema) *Schema { return s.WithMultipleOf(0) }, func(s *Schema) { s.MultipleOf = f(0) })
	for _, e := range []bool{true, false} {
		e := e
		add(fmt.Sprint("WithMaximum", e), func(s *Schema) *Schema { return s.WithMaximum(0, e) }, func(s *Schema) { s.Maximum = f(0); s.ExclusiveMaximum = e })
		add(fmt.Sprint("WithMinimum", e), func(s *Schema) *Schema { return s.WithMinimum(-2, e) }, func(s *Schema) { s.Minimum = f(-2); s.ExclusiveMinimum = e })
	}
	add("WithEnum", func(s *Schema) *Schema { return s.WithEnum(NewAny(1), NewAny("x")) }, func(s *Schema) { s.Enum = []Any{NewAny(1), NewAny("x")} })
	add("WithMaxItems", func(s *Schema) *Schema { return s.WithMaxItems(0) }, func(s *Schema) { s.MaxItems = i(0) })
	add("WithMinItems", func(s *Schema) *Schema { return s.WithMinItems(4) }, func(s *Schema) { s.MinItems = i(4) })
	add("UniqueValues", func(s *Schema) *Schema { return s.UniqueValues() }, func(s *Schema) { s.UniqueItems = true })
	add("AllowDuplicates", func(s *Schema) *Schema { return s.AllowDuplicates() }, func(s *Schema) { s.UniqueItems = false })
	add("AsReadOnly", func(s *Schema) *Schema { return s.AsReadOnly() }, func(s *Schema) { s.ReadOnly = true })
	add("AsWritable", func(s *Schema) *Schema { return s.AsWritable() }, func(s *Schema) { s.ReadOnly = false })
	for _, d := range [][2]string{{"", ""}, {"a", ""}, {"", "b"}, {"a", "b"}} {
		d := d
		add(fmt.Sprint("WithExternalDocs", d), func(s *Schema) *Schema { return s.WithExternalDocs(d[0], d[1]) }, func(s *Schema) {
			s.ExternalDocs = nil
			if d[0] != "" || d[1] != "" {
				s.ExternalDocs = &ExternalDocumentation{Description: d[0], URL: d[1]}
			}
		})
	}
	add("WithXMLName", func(s *Schema) *Schema { return s.WithXMLName("X") }, func(s *Schema) { xm(s, func(x *XML) { x.Name = "X" }) })
	add("WithXMLNamespace", func(s *Schema) *Schema { return s.WithXMLNamespace("X") }, func(s *Schema) { xm(s, func(x *XML) { x.Namespace = "X" }) })
	add("WithXMLPrefix", func(s *Schema) *Schema { return s.WithXMLPrefix("X") }, func(s *Schema) { xm(s, func(x *XML) { x.Prefix = "X" }) })
	add("AsXMLAttribute", func(s *Schema) *Schema { return s.AsXMLAttribute() }, func(s *Schema) { xm(s, func(x *XML) { x.Attribute = true }) })
	add("AsXMLElement", func(s *Schema) *Schema { return s.AsXMLElement() }, func(s *Schema) { xm(s, func(x *XML) { x.Attribute = false }) })
	add("AsWrappedXML", func(s *Schema) *Schema { return s.AsWrappedXML() }, func(s *Schema) { xm(s, func(x *XML) { x.Wrapped = true }) })
	for n, c := range cases {
		for _, mk := range []func() *Schema{func() *Schema { return &Schema{} }, func() *Schema { s := full(k); s.Title = "t"; return s }} {
			a, b := mk(), mk()
			k.Case(n, n+" on "+dump(a), func() {
				got := c[0](a)
				c[1](b)
				if got != a {
					k.Fail(n, "does not return its receiver")
				}
				if dump(a) != dump(b) {
					k.Fail(n, "got %s want %s", dump(a), dump(b))
				}
			})
		}
	}
	// two objects built one after the other do not touch each other
	k.Case("independent", "two schemas grown from one backing array", func() {
		base := append(make([]string, 0, 8), "a")
		x, y := &Schema{Required: base}, &Schema{Required: []string{"b"}}
		x.AddRequired("c")
		y.AddRequired("d")
		if !reflect.DeepEqual(x.Required, []string{"a", "c"}) || !reflect.DeepEqual(y.Required, []string{"b", "d"}) {
			k.Fail("independent", "%v %v", x.Required, y.Required)
		}
	})
}

func TestVerifC24Constructors(t *testing.T) {
	k := kit.New(t, "every constructor, compared with the literal object it stands for")
	in := &Schema{Title: "in"}
	is := func(n string, got, want interface{}) {
		k.Case(n, n, func() {
			if dump(got) != dump(want) {
				k.Fail(n, "got %s want %s", dump(got), dump(want))
			}
		})
	}
	is("BooleanProperty", BooleanProperty(), &Schema{Type: "boolean"})
	is("Float64Property", Float64Property(), &Schema{Type: "number", Format: "double"})
	is("Float32Property", Float32Property(), &Schema{Type: "number", Format: "float"})
	is("Int8Property", Int8Property(), &Schema{Type: "integer", Format: "int8"})
	is("Int16Property", Int16Property(), &Schema{Type: "integer", Format: "int16"})
	is("Int32Property", Int32Property(), &Schema{Type: "integer", Format: "int32"})
	is("Int64Property", Int64Property(), &Schema{Type: "integer", Format: "int64"})
	is("IntFmtProperty", IntFmtProperty("z"), &Schema{Type: "integer", Format: "z"})
	is("StringProperty", StringProperty(), &Schema{Type: "string"})
	is("ByteProperty", ByteProperty(), &Schema{Type: "string", Format: "byte"})
	is("BinaryProperty", BinaryProperty(), &Schema{Type: "string", Format: "binary"})
	is("PasswordProperty", PasswordProperty(), &Schema{Type: "string", Format: "password"})
	is("DateProperty", DateProperty(), &Schema{Type: "string", Format: "date", Example: NewAny("2006-01-02T15:04:05+08:00")})
	is("DateTimeProperty", DateTimeProperty(), &Schema{Type: "string", Format: "date-time", Example: NewAny("2006-01-02T15:04:05+08:00")})
	is("MapProperty", MapProperty(in), &Schema{Type: "object", AdditionalProperties: in})
	is("ArrayProperty", ArrayProperty(in), &Schema{Type: "array", Items: in})
	is("AllSchema", AllSchema(in, nil), &Schema{AllOf: []*Schema{in, nil}})
	is("OneSchema", OneSchema(in), &Schema{OneOf: []*Schema{in}})
	is("AnySchema", AnySchema(in), &Schema{AnyOf: []*Schema{in}})
	is("NotSchema", NotSchema(in), &Schema{Not: in})
	for m, r := range map[string][2]func(*Schema) interface{}{
		"application/json":                  {func(s *Schema) interface{} { return JSONResponse(s) }, func(s *Schema) interface{} { return JSONRequestBody(s) }},
		"application/xml":                   {func(s *Schema) interface{} { return XMLResponse(s) }, func(s *Schema) interface{} { return XMLRequestBody(s) }},
		"text/plain":                        {func(s *Schema) interface{} { return TextPlainResponse(s) }, func(s *Schema) interface{} { return TextPlainRequestBody(s) }},
		"application/octet-stream":          {func(s *Schema) interface{} { return OctetStreamResponse(s) }, func(s *Schema) interface{} { return OctetStreamRequestBody(s) }},
		"application/x-www-form-urlencoded": {func(s *Schema) interface{} { return URLEncodedResponse(s) }, func(s *Schema) interface{} { return URLEncodedRequestBody(s) }},
		"multipart/form-data":               {func(s *Schema) interface{} { return FormDataResponse(s) }, func(s *Schema) interface{} { return FormDataRequestBody(s) }},
		"x/y":                               {func(s *Schema) interface{} { return NewResponse("x/y", s) }, func(s *Schema) interface{} { return NewRequestBody("x/y", s) }},
	} {
		for _, s := range []*Schema{in, nil} {
			is("response "+m, r[0](s), &Response{Content: map[string]*MediaType{m: {Schema: s}}})
			is("request "+m, r[1](s), &RequestBody{Content: map[string]*MediaType{m: {Schema: s}}})
		}
	}
	is("QueryParam", QueryParam("n", in), &Parameter{In: "query", Name: "n", Schema: in})
	is("HeaderParam", HeaderParam("n", in), &Parameter{In: "header", Name: "n", Schema: in})
	is("CookieParam", CookieParam("n", in), &Parameter{In: "cookie", Name: "n", Schema: in})
	is("PathParam", PathParam("n", in), &Parameter{In: "path", Name: "n", Schema: in, Required: true})
	is("BasicAuth", BasicAuth(), &SecurityScheme{Type: "http", Scheme: "basic"})
	is("BearerAuth", BearerAuth("jwt"), &SecurityScheme{Type: "http", Scheme: "bearer", BearerFormat: "jwt"})
	is("APIKeyAuth", APIKeyAuth("f", "header"), &SecurityScheme{Type: "apiKey", Name: "f", In: "header"})
	k.Case("OAuth2Implicit", "", func() {
		is("OAuth2Implicit", OAuth2Implicit("a"), &SecurityScheme{Type: "oauth2", Flows: &OAuthFlows{Implicit: &OAuthFlow{AuthorizationURL: "a"}}})
	})
	k.Case("OAuth2Password", "", func() {
		is("OAuth2Password", OAuth2Password("a"), &SecurityScheme{Type: "oauth2", Flows: &OAuthFlows{Password: &OAuthFlow{TokenURL: "a"}}})
	})
	k.Case("OAuth2AuthorizationCode", "", func() {
		is("OAuth2AuthorizationCode", OAuth2AuthorizationCode("a"), &SecurityScheme{Type: "oauth2", Flows: &OAuthFlows{AuthorizationCode: &OAuthFlow{TokenURL: "a"}}})
	})
	k.Case("OAuth2ClientCredentials", "", func() {
		is("OAuth2ClientCredentials", OAuth2ClientCredentials("a", "b"), &SecurityScheme{Type: "oauth2", Flows: &OAuthFlows{ClientCredentials: &OAuthFlow{AuthorizationURL: "a", TokenURL: "b"}}})
	})
	// builders hand out a new object every time
	a, b := IntFmtProperty("x"), IntFmtProperty("x")
	a.Title = "changed"
	is("fresh", b, &Schema{Type: "integer", Format: "x"})
	for _, f := range []func(*Response) *Response{
		func(r *Response) *Response { return r.AddContent("n", nil) },
		func(r *Response) *Response { return r.AddLink("n", nil) },
	} {
		r := JSONResponse(in).AddHeader("n", &Header{}).AddContent("n", &MediaType{}).AddLink("n", &Link{})
		got := f(r)
		if got != r || r.Headers["n"] == nil {
			k.Fail("response-nil-removes-header", "adding nil content or a nil link removes the header of that name")
		}
	}
}

func TestVerifC24Objects(t *testing.T) {
	k := kit.New(t, "random sequences of builder calls on responses, parameters, headers and XML objects against a map model")
	hs := []*Header{{}, {}, nil}
	ms := []*MediaType{{}, {}, nil}
	ls := []*Link{{}, {}, nil}
	hs[1].Description, ls[1].Description = "h1", "l1"
	ms[1].Schema = &Schema{}
	for n := 0; n < k.N(300, 5000); n++ {
		r := &Response{}
		desc, text := "", ""
		H, M, L := map[string]*Header{}, map[string]*MediaType{}, map[string]*Link{}
		steps := make([]func(), 0)
		for i := 0; i < 1+k.R.Intn(8); i++ {
			key := kit.Pick(k, "a", "b", "", "A")
			op := k.R.Intn(7)
			j := k.R.Intn(3)
			if op != 0 { // adding nil content or links: see response-nil-removes-header
				j = k.R.Intn(2)
			}
			switch op {
			case 0:
				text += fmt.Sprintf("AddHeader(%q,%d) ", key, j)
				steps = append(steps, func() { r = r.AddHeader(key, hs[j]) })
				H[key] = hs[j]
				if hs[j] == nil {
					delete(H, key)
				}
			case 1:
				text += fmt.Sprintf("AddContent(%q,%d) ", key, j)
				steps = append(steps, func() { r = r.AddContent(key, ms[j]) })
				M[key] = ms[j]
				if ms[j] == nil {
					delete(M, key)
				}
			case 2:
				text += fmt.Sprintf("AddLink(%q,%d) ", key, j)
				steps = append(steps, func() { r = r.AddLink(key, ls[j]) })
				L[key] = ls[j]
				if ls[j] == nil {
					delete(L, key)
				}
			case 3:
				text += fmt.Sprintf("RemoveHeader(%q) ", key)
				steps = append(steps, func() { r = r.RemoveHeader(key) })
				delete(H, key)
			case 4:
				text += fmt.Sprintf("RemoveContent(%q) ", key)
				steps = append(steps, func() { r = r.RemoveContent(key) })
				delete(M, key)
			case 5:
				text += fmt.Sprintf("RemoveLink(%q) ", key)
				steps = append(steps, func() { r = r.RemoveLink(key) })
				delete(L, key)
			case 6:
				desc = kit.Pick(k, "x", "y", "")
				d := desc
				text += fmt.Sprintf("WithDescription(%q) ", d)
				steps = append(steps, func() { r = r.WithDescription(d) })
			}
		}
		k.Case("response", text, func() {
			first := r
			for _, s := range steps {
				s()
			}
			if r != first {
				k.Fail("response", "%s: another object is returned", text)
			}
			if r.Description != desc || len(r.Headers) != len(H) || len(r.Content) != len(M) || len(r.Links) != len(L) {
				k.Fail("response", "%s: got %s", text, dump(r))
				return
			}
			for a, b := range H {
				if r.Headers[a] != b {
					k.Fail("response", "%s: header %q", text, a)
				}
			}
			for a, b := range M {
				if r.Content[a] != b {
					k.Fail("response", "%s: content %q", text, a)
				}
			}
			for a, b := range L {
				if r.Links[a] != b {
					k.Fail("response", "%s: link %q", text, a)
				}
			}
		})
	}
	// the others, on zero and on set objects
	p0 := func() *Parameter {
		return &Parameter{Name: "n", In: "query", Description: "d", Required: true, Deprecated: true, Schema: &Schema{}}
	}
	sch := &Schema{Title: "s"}
	type pc struct {
		n    string
		do   func(p *Parameter) *Parameter
		want func(p *Parameter)
	}
	for _, c := range []pc{
		{"WithDescription", func(p *Parameter) *Parameter { return p.WithDescription("D") }, func(p *Parameter) { p.Description = "D" }},
		{"WithName", func(p *Parameter) *Parameter { return p.WithName("D") }, func(p *Parameter) { p.Name = "D" }},
		{"WithSchema", func(p *Parameter) *Parameter { return p.WithSchema(sch) }, func(p *Parameter) { p.Schema = sch }},
		{"WithLocation", func(p *Parameter) *Parameter { return p.WithLocation("path") }, func(p *Parameter) { p.In = "path" }},
		{"AllowsEmptyValues", func(p *Parameter) *Parameter { return p.AllowsEmptyValues() }, func(p *Parameter) { p.AllowEmptyValue = true }},
		{"NoEmptyValues", func(p *Parameter) *Parameter { p.AllowEmptyValue = true; return p.NoEmptyValues() }, func(p *Parameter) { p.AllowEmptyValue = false }},
		{"AsOptional", func(p *Parameter) *Parameter { return p.AsOptional() }, func(p *Parameter) { p.Required = false }},
	} {
		for _, mk := range []func() *Parameter{p0, func() *Parameter { return &Parameter{} }} {
			a, b := mk(), mk()
			k.Case("Parameter."+c.n, c.n+dump(a), func() {
				got := c.do(a)
				c.want(b)
				if got != a || dump(a) != dump(b) {
					k.Fail("Parameter."+c.n, "got %s want %s", dump(a), dump(b))
				}
			})
		}
	}
	type hc struct {
		n    string
		do   func(p *Header) *Header
		want func(p *Header)
	}
	for _, c := range []hc{
		{"WithDescription", func(p *Header) *Header { return p.WithDescription("D") }, func(p *Header) { p.Description = "D" }},
		{"AllowsEmptyValues", func(p *Header) *Header { return p.AllowsEmptyValues() }, func(p *Header) { p.AllowEmptyValue = true }},
		{"NoEmptyValues", func(p *Header) *Header { p.AllowEmptyValue = true; return p.NoEmptyValues() }, func(p *Header) { p.AllowEmptyValue = false }},
		{"AsOptional", func(p *Header) *Header { return p.AsOptional() }, func(p *Header) { p.Required = false }},
	} {
		for _, mk := range []func() *Header{func() *Header { return &Header{Description: "d", Required: true, Deprecated: true} }, func() *Header { return &Header{} }} {
			a, b := mk(), mk()
			k.Case("Header."+c.n, c.n+dump(a), func() {
				got := c.do(a)
				c.want(b)
				if got != a || dump(a) != dump(b) {
					k.Fail("Header."+c.n, "got %s want %s", dump(a), dump(b))
				}
			})
		}
	}
	type xc struct {
		n    string
		do   func(p *XML) *XML
		want func(p *XML)
	}
	for _, c := range []xc{
		{"WithName", func(p *XML) *XML { return p.WithName("D") }, func(p *XML) { p.Name = "D" }},
		{"WithNamespace", func(p *XML) *XML { return p.WithNamespace("D") }, func(p *XML) { p.Namespace = "D" }},
		{"WithPrefix", func(p *XML) *XML { return p.WithPrefix("D") }, func(p *XML) { p.Prefix = "D" }},
		{"AsAttribute", func(p *XML) *XML { return p.AsAttribute() }, func(p *XML) { p.Attribute = true }},
		{"AsElement", func(p *XML) *XML { return p.AsElement() }, func(p *XML) { p.Attribute = false }},
		{"AsWrapped", func(p *XML) *XML { return p.AsWrapped() }, func(p *XML) { p.Wrapped = true }},
		{"AsUnwrapped", func(p *XML) *XML { return p.AsUnwrapped() }, func(p *XML) { p.Wrapped = false }},
	} {
		for _, mk := range []func() *XML{func() *XML { return &XML{Name: "a", Namespace: "b", Prefix: "c", Attribute: true, Wrapped: true} }, func() *XML { return &XML{} }} {
			a, b := mk(), mk()
			k.Case("XML."+c.n, c.n+dump(a), func() {
				got := c.do(a)
				c.want(b)
				if got != a || dump(a) != dump(b) {
					k.Fail("XML."+c.n, "got %s want %s", dump(a), dump(b))
				}
			})
		}
	}
}
