package tag

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"testing"

	kit "github.com/buypal/oapi-go/internal/verifkit"
)

// vOpt is one option of a tag: its field and what kind of value it takes.
type vOpt struct{ key, field, kind string }

var vOpts = []vOpt{
	{"inline", "Inline", "bool*"}, {"omitempty", "OmitEmpty", "bool"}, {"nullable", "Nullable", "bool*"},
	{"readonly", "ReadOnly", "bool"}, {"writeonly", "WriteOnly", "bool"}, {"deprecated", "Deprecated", "bool"},
	{"required", "Required", "bool"}, {"unique", "UniqItems", "bool"},
	{"pattern", "Pattern", "text"}, {"format", "Format", "text"}, {"type", "Type", "text"},
	{"min", "Min", "float"}, {"max", "Max", "float"}, {"emin", "EMin", "float"}, {"emax", "EMax", "float"}, {"mulof", "MulOf", "float"},
	{"minlen", "MinLen", "int"}, {"maxlen", "MaxLen", "int"}, {"minitems", "MinItems", "int"}, {"maxitems", "MaxItems", "int"},
	{"minprops", "MinProps", "int"}, {"maxprops", "MaxProps", "int"},
}

func vOne(k *kit.K, o vOpt) (text string, val interface{}, ok bool) {
	bad := k.R.Intn(12) == 0
	switch o.kind {
	case "bool", "bool*":
		if bad {
			return o.key + ":" + kit.Pick(k, "yes", "2", "no", "truee", "on"), nil, false
		}
		switch k.R.Intn(4) {
		case 0:
			return o.key, true, true
		case 1:
			return o.key + ":" + kit.Pick(k, "true", "1", "t", "TRUE"), true, true
		case 2:
			return o.key + ":" + kit.Pick(k, "false", "0", "f", "False"), false, true
		}
		return o.key + ":", true, true
	case "int":
		if bad {
			return o.key + ":" + kit.Pick(k, "x", "1.5", "", "1e3", "99999999999999999999", "0x10"), nil, false
		}
		n := int64(k.R.Intn(2000) - 3)
		if k.R.Intn(10) == 0 {
			n = 0
		}
		return fmt.Sprintf("%s:%d", o.key, n), n, true
	case "float":
		if bad {
			return o.key + ":" + kit.Pick(k, "x", "1,5"[:1]+"_", "", "1.2.3", "--1"), nil, false
		}
		f := float64(k.R.Intn(4000)-2000) / 8
		return o.key + ":" + strconv.FormatFloat(f, 'g', -1, 64), f, true
	}
	s := kit.Pick(k, "", "a", "date-time", "^[a-z]+$", "string", "#/x/y", "a b", "go://p#/T", "é")
	return o.key + ":" + s, s, true
}

func vSet(m *Tag, o vOpt, val interface{}) {
	f := reflect.ValueOf(m).Elem().FieldByName(o.field)
	if f.Kind() == reflect.Ptr {
		p := reflect.New(f.Type().Elem())
		p.Elem().Set(reflect.ValueOf(val))
		f.Set(p)
		return
	}
	f.Set(reflect.ValueOf(val))
}

func vText(k *kit.K, json bool, want *Tag) (text string, ok bool) {
	ok = true
	name := kit.Pick(k, "", "", "a", "name", "-", "x-y", "a.b", "A", "--", "min", "required")
	parts := []string{name}
	w := *want
	used := map[string]bool{}
	n := []int{0, 1, 1, 2, 3, 5, 8, 22}[k.R.Intn(8)]
	for _, i := range k.R.Perm(len(vOpts))[:n] {
		o := vOpts[i]
		if json && k.R.Intn(2) == 0 {
			o = vOpts[k.R.Intn(2)]
		}
		if used[o.key] {
			continue
		}
		used[o.key] = true
		t, v, fine := vOne(k, o)
		parts = append(parts, t)
		if json && o.key != "inline" && o.key != "omitempty" {
			continue // not an option of the json tag
		}
		if !fine {
			ok = false
			continue
		}
		vSet(&w, o, v)
	}
	if k.R.Intn(6) == 0 {
		parts = append(parts, kit.Pick(k, "other", "string", "maxlength:3", "Min:1", "minimum:1"))
	}
	if name == "-" {
		want.Ignore = true
		return strings.Join(parts, ","), true
	}
	if name != "" {
		w.Name = name
	}
	*want = w
	return strings.Join(parts, ","), ok
}

func vShow(t Tag) string {
	s := []string{}
	v := reflect.ValueOf(t)
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.IsZero() {
			continue
		}
		if f.Kind() == reflect.Ptr {
			f = f.Elem()
		}
		s = append(s, fmt.Sprintf("%s=%v", v.Type().Field(i).Name, f.Interface()))
	}
	return strings.Join(s, " ")
}

func TestVerifC12Options(t *testing.T) {
	k := kit.New(t, "an option sets exactly the attribute it names")
	for n := k.N(20000, 400000); n > 0 && !k.Stop(); n-- {
		var want Tag
		var raw []string
		ok := true
		keys := []string{"json", "oapi"}
		if k.R.Intn(2) == 0 {
			keys = keys[1:]
		}
		if k.R.Intn(10) == 0 {
			keys = keys[:len(keys)-1]
		}
		for _, key := range keys {
			s, fine := vText(k, key == "json", &want)
			ok = ok && fine
			raw = append(raw, key+":"+strconv.Quote(s))
		}
		if k.R.Intn(3) == 0 {
			raw = append(raw, `yaml:"zz,min:3,omitempty"`)
		}
		k.R.Shuffle(len(raw), func(i, j int) { raw[i], raw[j] = raw[j], raw[i] })
		text := strings.Join(raw, kit.Pick(k, " ", "  "))
		k.Case("options", text, func() {
			got, err := Parse(text)
			if (err == nil) != ok {
				k.Fail("options", "%s: error %v, want failure %v", text, err, !ok)
				return
			}
			if ok && vShow(got) != vShow(want) {
				k.Fail("options", "%s: gives %s, want %s", text, vShow(got), vShow(want))
			}
			if ok && !reflect.DeepEqual(got, want) {
				k.Fail("options", "%s: gives %#v, want %#v", text, got, want)
			}
		})
	}
	for _, o := range vOpts {
		for i := 0; i < 60; i++ {
			text, v, ok := vOne(k, o)
			text = `oapi:` + strconv.Quote(","+text)
			k.Case("one", text, func() {
				var want Tag
				if ok {
					vSet(&want, o, v)
				}
				got, err := Parse(text)
				if (err == nil) != ok {
					k.Fail("one", "%s: error %v, want failure %v", text, err, !ok)
				} else if ok && !reflect.DeepEqual(got, want) {
					k.Fail("one", "%s: gives %s, want %s", text, vShow(got), vShow(want))
				}
			})
		}
	}
	for _, text := range []string{"", " ", "   ", `json:""`, `oapi:""`, `json:"" oapi:""`, `xml:"a"`} {
		text := text
		k.Case("empty", text, func() {
			if got, err := Parse(text); err != nil || !reflect.DeepEqual(got, Tag{}) {
				k.Fail("empty", "%q: gives %s, %v", text, vShow(got), err)
			}
		})
	}
	for _, text := range []string{"oapi", `oapi:"a`, `oapi:`, `oapi:a`, `:"a"`} {
		text := text
		k.Case("syntax", text, func() {
			if got, err := Parse(text); err == nil {
				k.Fail("syntax", "%q: is no tag, gives %s", text, vShow(got))
			}
		})
	}
}
