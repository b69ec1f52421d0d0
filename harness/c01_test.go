package pointer

import (
	"encoding/json"
	"fmt"
	"net/url"
	"reflect"
	"strings"
	"testing"
	"unicode/utf8"

	kit "github.com/buypal/oapi-go/internal/verifkit"
)

// independent escaping, character by character
func vEsc(tok string) string {
	var b strings.Builder
	for i := 0; i < len(tok); i++ {
		switch tok[i] {
		case '~':
			b.WriteString("~0")
		case '/':
			b.WriteString("~1")
		default:
			b.WriteByte(tok[i])
		}
	}
	return b.String()
}

func vText(toks []string) string {
	s := ""
	for _, t := range toks {
		s += "/" + vEsc(t)
	}
	return s
}

// independent reading of a fragment (RFC 6901, section 4)
func vRead(s string) []string {
	if s == "" {
		return []string{}
	}
	var out []string
	cur := ""
	for i := 1; i < len(s); i++ {
		switch {
		case s[i] == '/':
			out = append(out, cur)
			cur = ""
		case s[i] == '~' && i+1 < len(s) && s[i+1] == '0':
			cur += "~"
			i++
		case s[i] == '~' && i+1 < len(s) && s[i+1] == '1':
			cur += "/"
			i++
		default:
			cur += string(s[i : i+1])
		}
	}
	return append(out, cur)
}

func vUnesc(s string) string {
	u, err := url.PathUnescape(s)
	if err != nil {
		return s
	}
	return u
}

func vSame(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func vToks(k *kit.K) []string {
	n := k.R.Intn(6)
	out := make([]string, 0, n)
	for i := 0; i < n; i++ {
		switch k.R.Intn(4) {
		case 0:
			out = append(out, kit.Pick(k, "", "~", "/", "~0", "~1", "~01", "~10", "~~", "//", "/~", "a", "0", "%", "%2F", "%25"))
		default:
			out = append(out, k.Str())
		}
	}
	if k.R.Intn(400) == 0 { // long ones
		for i := 0; i < 40; i++ {
			out = append(out, k.Str())
		}
	}
	return out
}

func TestVerifC01Fragments(t *testing.T) {
	k := kit.New(t, "random token sequences over characters special to pointers, URLs and JSON, and random fragment texts")
	for n := 0; n < k.N(3000, 60000); n++ {
		toks := vToks(k)
		k.Case("fragment", fmt.Sprintf("%q", toks), func() {
			in := append([]string(nil), toks...)
			s := Fragment(toks).String()
			if !vSame(in, toks) {
				k.Fail("fragment", "%q: writing the text changed the tokens", in)
			}
			if s != vText(toks) {
				k.Fail("fragment", "%q is written %q, want %q", toks, s, vText(toks))
			}
			f, err := NewFragment(s)
			if err != nil || !vSame(f, toks) {
				k.Fail("fragment", "%q reads back as %q, %v", toks, f, err)
			}
			if f.Len() != len(toks) || f.IsEmpty() != (len(toks) == 0) {
				k.Fail("fragment", "%q: length %d, empty %v", toks, f.Len(), f.IsEmpty())
			}
			h, ok1 := f.Head()
			l, ok2 := f.Last()
			tl, ok3 := f.Tail()
			if len(toks) == 0 && (ok1 || ok2 || ok3) || len(toks) > 0 && (!ok1 || !ok2 || !ok3 || h != toks[0] || l != toks[len(toks)-1] || tl != l) {
				k.Fail("fragment", "%q: head %q last %q tail %q", toks, h, l, tl)
			}
		})
		s := ""
		for i := k.R.Intn(4); i >= 0; i-- {
			s += kit.Pick(k, "/", "~", "~0", "~1", "~01", "a", "%", "", "//") + k.Str()
		}
		k.Case("text", fmt.Sprintf("text %q", s), func() {
			f, err := NewFragment(s)
			if s != "" && s[0] != '/' {
				if err == nil {
					k.Fail("text", "%q is accepted as %q", s, f)
				}
				return
			}
			if err != nil || !vSame(f, vRead(s)) {
				k.Fail("text", "%q reads as %q, %v; want %q", s, f, err, vRead(s))
			}
		})
	}
}

var vURLs = []string{"", "go://a/b", "go://github.com/buypal/oapi-go/x", "http://example.com", "http://u:p@h:80/p/q?x=1&y=%20z",
	"file:///a/b%20c", "/rooted/path", "rel/path.json", "./a%3Fb", "mailto:someone", "https://ex.com/a%2Fb/c", "?q", "go://host", "https://h/?", "go://x.y/z%25a"}

func vURL(k *kit.K) string {
	if k.R.Intn(3) > 0 {
		return kit.Pick(k, vURLs...)
	}
	return kit.Pick(k, "go", "http", "x+y") + "://" + kit.Pick(k, "", "h", "h.i", "u@h", "h:1") + kit.Pick(k, "", "/", "/a", "/a/b%20", "/a/../b", "/é") + kit.Pick(k, "", "", "?a=b", "?a=%23")
}

func TestVerifC01Pointers(t *testing.T) {
	k := kit.New(t, "URL parts (schemes, hosts, escapes, queries, opaque) times random token sequences, as text and as JSON")
	for n := 0; n < k.N(3000, 60000); n++ {
		u, toks := vURL(k), vToks(k)
		k.Case("pointer", fmt.Sprintf("%s %q", u, toks), func() {
			base, err := Parse(u + "#")
			if err != nil {
				return
			}
			p := base
			p.Fragment = append(Fragment(nil), toks...)
			s := p.String()
			q, err := Parse(s)
			if err != nil || !vSame(q.Fragment, toks) {
				k.Fail("pointer", "%s %q is written %q, which reads back as %q, %v", u, toks, s, q.Fragment, err)
				return
			}
			a, b := p.URL, q.URL
			ea, eb := a.EscapedPath(), b.EscapedPath()
			a.Fragment, a.RawFragment, b.Fragment, b.RawFragment = "", "", "", ""
			a.RawPath, b.RawPath = "", "" // an encoding hint
			if vUnesc(ea) != vUnesc(eb) || !reflect.DeepEqual(a, b) {
				k.Fail("pointer", "%s %q: URL %#v became %#v", u, toks, a, b)
			}
			if q.String() != s || !vSame(p.Fragment, toks) {
				k.Fail("pointer", "%s %q: text %q became %q", u, toks, s, q.String())
			}
			if m := MustParse(s); m.String() != s || !vSame(m.Fragment, toks) {
				k.Fail("pointer", "MustParse(%q)", s)
			}
			if p.IsExternal() != (base.Scheme != "") {
				k.Fail("pointer", "%q external: %v", s, p.IsExternal())
			}
			// the text of the URL and of the tokens are both there
			if !strings.HasPrefix(s, base.URL.String()) || !strings.HasPrefix(s[len(base.URL.String()):], "#") {
				k.Fail("pointer", "%s %q is written %q", u, toks, s)
			}
			// other tokens, other text
			other := vToks(k)
			o := base
			o.Fragment = other
			if (o.String() == s) != vSame(other, toks) {
				k.Fail("pointer", "%q and %q have the texts %q and %q", toks, other, s, o.String())
			}
			pp := NewPointers([]Pointer{p, o})
			if !vSame(pp[s].Fragment, toks) && o.String() != s || len(pp) != 2 && o.String() != s {
				k.Fail("pointer", "NewPointers: %v", pp)
			}
			if !utf8.ValidString(s) || !utf8.ValidString(strings.Join(toks, "")) {
				return
			}
			j, err := json.Marshal(&p)
			var back string
			if err != nil || json.Unmarshal(j, &back) != nil || back != s {
				k.Fail("json", "%q as JSON is %q, %v", s, j, err)
				return
			}
			raw, err := p.MarshalJSON()
			if err != nil || !json.Valid(raw) {
				k.Fail("json", "%q: MarshalJSON gives %q, %v", s, raw, err)
			}
			r := base
			r.Fragment = Fragment{"stale", "tokens"}
			if err := json.Unmarshal(j, &r); err != nil || r.String() != s || !vSame(r.Fragment, toks) {
				k.Fail("json", "%q reads back from JSON as %q, %v", s, r.String(), err)
			}
			if r.Scheme != p.Scheme || r.Host != p.Host || r.Path != p.Path || r.RawQuery != p.RawQuery {
				k.Fail("json", "%q: the URL reads back from JSON as %q", s, r.URL.String())
			}
		})
		// go pointers
		pkg := kit.Pick(k, "a", "github.com/a/b", "main", "x/y.z", "a-b/c")
		path := vToks(k)
		k.Case("gopointer", "", func() {
			ok := true
			for _, t := range path {
				ok = ok && !strings.Contains(t, "%") && utf8.ValidString(t) && !strings.ContainsAny(t, "\x00\x7f\n\t")
			}
			if !ok || len(path) == 0 {
				return
			}
			p, err := NewGoPointer(pkg, vText(path)[1:])
			if err != nil || p.PkgPath() != pkg || p.Scheme != "go" || !vSame(p.Fragment, path) {
				k.Fail("gopointer", "%q %q: %v %v", pkg, path, p, err)
			}
		})
	}
	for _, s := range []string{"", "#"} {
		p, err := Parse(s)
		if err != nil || len(p.Fragment) != 0 || p.URL.String() != "" {
			k.Fail("empty", "%q reads as %q, %v", s, p.String(), err)
		}
	}
	for _, s := range []string{"#a", "go://a#b/c", "#~0", "a%zz#/a"} {
		if p, err := Parse(s); err == nil {
			k.Fail("rejected", "%q reads as %q", s, p.String())
		}
	}
}
