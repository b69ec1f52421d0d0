package spec_test

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"testing"

	"github.com/buypal/oapi-go/internal/oapi/spec"
	"github.com/buypal/oapi-go/internal/pointer"
	kit "github.com/buypal/oapi-go/internal/verifkit"
)

func vText23(k *kit.K) string {
	return kit.Pick(k, "$url", "$request.body#/a/b", "{$request.query.url}", "é", "a\"b", "null", "{", "[1]", "1", "\\u0041", " ", "x<y>&z", "\n", "日本")
}

// vAs decodes JSON text into plain values.
func vAs(b []byte) interface{} {
	var v interface{}
	if err := json.Unmarshal(b, &v); err != nil {
		return fmt.Sprintf("not JSON: %q", b)
	}
	return v
}

// vPad writes the JSON with spaces a decoder has to cope with.
func vPad(k *kit.K, b []byte) []byte {
	var o bytes.Buffer
	if k.R.Intn(2) == 0 {
		return b
	}
	if json.Indent(&o, b, "", kit.Pick(k, " ", "\t", "  ")) != nil {
		return b
	}
	return o.Bytes()
}

func TestVerifC23Any(t *testing.T) {
	k := kit.New(t, "random JSON values as raw values and as link parameters, encoded, decoded into fresh and into used objects, with the buffer overwritten afterwards; random seed")
	key := func() string { return vText23(k) }
	for i := k.N(2000, 30000); i > 0; i-- {
		v := k.JSON(3, key)
		raw, _ := json.Marshal(v)
		desc := string(raw)
		k.Case("any", desc, func() {
			a := spec.NewAny(v)
			if got := vAs(a); !reflect.DeepEqual(got, v) {
				k.Fail("any", "NewAny of %s holds %s", raw, a)
			}
			b, err := json.Marshal(a)
			if err != nil || !reflect.DeepEqual(vAs(b), v) {
				k.Fail("any", "%s encodes to %s, %v", raw, b, err)
			}
			buf := append([]byte{}, raw...)
			d := spec.NewAny(k.JSON(2, key))
			if k.R.Intn(2) == 0 {
				d = nil
			}
			if err := d.UnmarshalJSON(buf); err != nil || string(d) != desc {
				k.Fail("any", "%s decodes to %s, %v", raw, d, err)
			}
			for j := range buf {
				buf[j] = 'x'
			}
			if string(d) != desc {
				k.Fail("any", "%s: overwriting the buffer decoded from gives %s", raw, d)
			}
		})
		text, isText := v.(string)
		if isText && text == "" {
			continue
		}
		k.Case("parameter", desc, func() {
			for _, used := range []bool{false, true} {
				var p spec.AnyOrExpressions
				if used && isText {
					p.Expressions = "$old"
				} else if used {
					p.Any = spec.NewAny(k.JSON(1, key))
				}
				buf := append([]byte{}, vPad(k, raw)...)
				if err := json.Unmarshal(buf, &p); err != nil {
					k.Fail("parameter", "%s: %v", raw, err)
					return
				}
				for j := range buf {
					buf[j] = 'x'
				}
				if isText && (string(p.Expressions) != text || p.Any != nil) || !isText && (p.Expressions != "" || v != nil && !reflect.DeepEqual(vAs(p.Any), v)) {
					k.Fail("parameter", "%s decodes to %q, %s", raw, p.Expressions, p.Any)
				}
				b, err := json.Marshal(p)
				if err != nil || !reflect.DeepEqual(vAs(b), v) {
					k.Fail("parameter", "%s decodes to %q, %s, which encodes to %s, %v", raw, p.Expressions, p.Any, b, err)
				}
				m := map[string]*spec.AnyOrExpressions{"p": &p}
				if b, err = json.Marshal(m); err != nil || !reflect.DeepEqual(vAs(b), map[string]interface{}{"p": v}) {
					k.Fail("parameter", "in a map %s encodes to %s, %v", raw, b, err)
				}
			}
		})
	}
	k.Case("any-nil", "nil", func() {
		if b, err := spec.Any(nil).MarshalJSON(); err != nil || string(b) != "null" {
			k.Fail("any-nil", "%s %v", b, err)
		}
		if (*spec.Any)(nil).UnmarshalJSON([]byte("1")) == nil || (*spec.AnyOrExpressions)(nil).UnmarshalJSON([]byte("1")) == nil || (*spec.Callback)(nil).UnmarshalJSON([]byte("{}")) == nil {
			k.Fail("any-nil", "decoding into nil is accepted")
		}
	})
	for _, bad := range []string{"{", "\"a", "[1,]", "nul", "1 2", "{\"a\"}"} {
		k.Case("bad-text", bad, func() {
			var p spec.AnyOrExpressions
			var c spec.Callback
			if json.Unmarshal([]byte(bad), &p) == nil || p.UnmarshalJSON([]byte(bad)) == nil {
				k.Fail("bad-text", "%s is accepted as parameter", bad)
			}
			if json.Unmarshal([]byte(bad), &c) == nil || c.UnmarshalJSON([]byte(bad)) == nil {
				k.Fail("bad-text", "%s is accepted as callback", bad)
			}
		})
	}
	k.Case("empty-expression", "\"\"", func() {
		var p spec.AnyOrExpressions
		if err := json.Unmarshal([]byte("\"\""), &p); err != nil {
			k.Fail("empty-expression", "%v", err)
		}
		if b, err := json.Marshal(p); err != nil || string(b) != "\"\"" {
			k.Fail("empty-expression", "the empty text decodes to a parameter which encodes to %s", b)
		}
	})
	for _, b := range []string{"true", "false"} {
		k.Case("boolean-schema", b, func() {
			var s spec.Schema
			text := "{\"additionalProperties\":" + b + "}"
			if err := json.Unmarshal([]byte(text), &s); err != nil {
				k.Fail("boolean-schema", "a schema %s cannot be decoded: %v", text, err)
			} else if o, err := json.Marshal(s); err != nil || string(o) != text {
				k.Fail("boolean-schema", "%s encodes to %s", text, o)
			}
		})
	}
}

func TestVerifC23Callback(t *testing.T) {
	k := kit.New(t, "callbacks with random expressions and path items, and callbacks which are references, encoded and decoded alone and within components; random seed")
	for i := k.N(800, 10000); i > 0; i-- {
		want := map[string]interface{}{}
		var c spec.Callback
		ref := k.R.Intn(2) == 0
		if ref {
			p, err := pointer.Parse(kit.Pick(k, "#/components/callbacks/A", "go://ex.org/p#/T", "https://ex.org/x#/a~1b", "#/a%25b"))
			if err != nil {
				t.Fatal(err)
			}
			c.Ref = &p
			want["$ref"] = p.String()
			if k.R.Intn(3) == 0 { // the reference wins
				c.Callback = map[spec.Expressions]*spec.PathItem{"$url": {Summary: "unused"}}
			}
		} else {
			c.Callback = map[spec.Expressions]*spec.PathItem{}
			for j := k.R.Intn(4); j > 0; j-- {
				e, s, d := vText23(k), vText23(k), vText23(k)
				c.Callback[spec.Expressions(e)] = &spec.PathItem{Summary: s, Description: d}
				want[e] = map[string]interface{}{"summary": s, "description": d}
			}
		}
		text, _ := json.Marshal(want)
		k.Case("callback", string(text), func() {
			b, err := json.Marshal(c)
			if err != nil || !reflect.DeepEqual(vAs(b), interface{}(want)) {
				k.Fail("callback", "%s encodes to %s, %v", text, b, err)
				return
			}
			b, err = json.Marshal(map[string]*spec.Callback{"x": &c})
			if err != nil || !reflect.DeepEqual(vAs(b), map[string]interface{}{"x": want}) {
				k.Fail("callback", "within components %s encodes to %s, %v", text, b, err)
			}
			var d spec.Callback
			buf := append([]byte{}, vPad(k, text)...)
			if err := json.Unmarshal(buf, &d); err != nil {
				k.Fail("callback", "%s: %v", text, err)
				return
			}
			for j := range buf {
				buf[j] = 'x'
			}
			switch {
			case ref && (d.Ref == nil || d.Ref.String() != want["$ref"] || d.Callback != nil):
				k.Fail("callback", "%s decodes to %s", text, fmt.Sprintf("%+v", d))
			case !ref && (d.Ref != nil || len(d.Callback) != len(want)):
				k.Fail("callback", "%s decodes to %s", text, fmt.Sprintf("%+v", d))
			}
			if b, err = json.Marshal(&d); err != nil || !reflect.DeepEqual(vAs(b), interface{}(want)) {
				k.Fail("callback", "%s decodes to %s, which encodes to %s, %v", text, fmt.Sprintf("%+v", d), b, err)
			}
		})
	}
	for _, bad := range []string{"{\"$ref\": \"go://%zz\"}", "{\"$url\": 1}", "[]", "1"} {
		k.Case("bad-callback", bad, func() {
			var c spec.Callback
			if json.Unmarshal([]byte(bad), &c) == nil {
				k.Fail("bad-callback", "%s is accepted", bad)
			}
		})
	}
}
