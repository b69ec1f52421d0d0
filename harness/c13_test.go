package route

import (
	"fmt"
	"strings"
	"testing"

	kit "github.com/buypal/oapi-go/internal/verifkit"
)

func vIsName(s string) bool {
	if len(s) < 2 || s[0] < 'a' || s[0] > 'z' {
		return false
	}
	for i := 1; i < len(s); i++ {
		c := s[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9') {
			return false
		}
	}
	return true
}

// vTokens splits a pattern: "{" for a variable, "*" for a wildcard, "=x" for literal text.
func vTokens(p string) (t []string) {
	for i := 0; i < len(p); {
		if p[i] == 0xff { // not text
			return []string{"=\xff"}
		}
		if p[i] == '*' {
			t = append(t, "*")
			i++
			continue
		}
		if p[i] == '{' {
			if j := strings.IndexByte(p[i:], '}'); j > 0 && vIsName(p[i+1:i+j]) {
				t = append(t, "{")
				i += j + 1
				continue
			}
		}
		r := []rune(p[i:])[0]
		t = append(t, "="+string(r))
		i += len(string(r))
	}
	return
}

// vFits is the meaning of a pattern: a table over tokens and text.
func vFits(t []string, text string) bool {
	s := []rune(text)
	cur := make([]bool, len(s)+1)
	cur[0] = true
	for _, x := range t {
		next := make([]bool, len(s)+1)
		for i, ok := range cur {
			if !ok {
				continue
			}
			switch x {
			case "*":
				for j := i; j <= len(s); j++ {
					next[j] = true
				}
			case "{":
				for j := i + 1; j <= len(s) && s[j-1] != '/'; j++ {
					next[j] = true
				}
			default:
				if i < len(s) && s[i] == []rune(x)[1] {
					next[i+1] = true
				}
			}
		}
		cur = next
	}
	return cur[len(s)]
}

var vMethods = strings.Fields("ACL BASELINE-CONTROL BIND CHECKIN CHECKOUT CONNECT COPY DELETE GET HEAD LABEL LINK LOCK MERGE MKACTIVITY MKCALENDAR MKCOL MKREDIRECTREF MKWORKSPACE MOVE OPTIONS ORDERPATCH PATCH POST PRI PROPFIND PROPPATCH PUT REBIND REPORT SEARCH TRACE UNBIND UNCHECKOUT UNLINK UNLOCK UPDATE UPDATEREDIRECTREF VERSION-CONTROL")

func vLower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

func vMatch(pattern, method, path string) bool {
	for _, m := range vMethods {
		if len(pattern) > len(m) && pattern[len(m)] == ':' && vLower(pattern[:len(m)]) == vLower(m) {
			if method != "" && vLower(m) != vLower(method) {
				return false
			}
			pattern = pattern[len(m)+1:]
			break
		}
	}
	return vFits(vTokens(pattern), path)
}

func vCase(k *kit.K, s string) string {
	switch k.R.Intn(4) {
	case 0:
		return vLower(s)
	case 1:
		b := []byte(s)
		for i := range b {
			if k.R.Intn(2) == 0 && b[i] >= 'A' && b[i] <= 'Z' {
				b[i] += 32
			}
		}
		return string(b)
	}
	return s
}

// vPattern makes a pattern and a path that comes close to it.
func vPattern(k *kit.K) (pattern, path string) {
	for n := k.R.Intn(6); n >= 0; n-- {
		switch k.R.Intn(7) {
		case 0, 1:
			pattern += "{" + kit.Pick(k, "id", "name", "userId", "a1", "id2") + "}"
			path += kit.Pick(k, "1", "abc", "{id}", "a.b", "x y", "é", "-", "", "a/b", "\n")
		case 2:
			pattern += "*"
			path += kit.Pick(k, "", "", "/", "a/b/c", "x", "*", "a\nb", "%")
		case 3:
			x := kit.Pick(k, "{a}", "{Id}", "{}", "{id", "id}", "{{id}}", "{i-d}", "{1a}", "{a_b}")
			pattern += x
			path += kit.Pick(k, x, "v", "{v}")
		case 4:
			x := kit.Pick(k, ".", "+", "?", "(", ")", "[", "]", "|", "^", "$", "\\", "\\d", "(?i)", "[a-z]", "a|b", ".*", "x{2}", "é", "\\Q", "\\E", "::", " ", "get:", "POST:")
			pattern += x
			path += kit.Pick(k, x, x, x, "a", "d", "1", "", "xx")
		default:
			x := kit.Pick(k, "/", "/", "/users", "/a/", "items", "v1", "a", "A")
			pattern += x
			path += kit.Pick(k, x, x, x, x, x, "/", strings.ToUpper(x), x+"x", "")
		}
	}
	if k.R.Intn(8) == 0 {
		path += kit.Pick(k, "/", "x", "\n", " ")
	}
	if k.R.Intn(8) == 0 {
		path = kit.Pick(k, "/", "x", "\n", " ") + path
	}
	if k.R.Intn(2) == 0 {
		m := kit.Pick(k, "GET", "POST", "DELETE", "VERSION-CONTROL", "LOCK", "UNLOCK", "PUT", "LINK", "UNLINK", "TRACE", "MERGE", "FOO", "GETX", "", "get get")
		pattern = vCase(k, m) + ":" + pattern
	}
	return
}

func vMethod(k *kit.K, pattern string) string {
	if i := strings.IndexByte(pattern, ':'); i > 0 && k.R.Intn(2) == 0 {
		return vCase(k, pattern[:i])
	}
	return vCase(k, kit.Pick(k, "", "GET", "POST", "DELETE", "PUT", "UNLOCK", "LOCK", "PATCH", "FOO", "GE", "GETT"))
}

func TestVerifC13Match(t *testing.T) {
	k := kit.New(t, "a pattern matches exactly the paths it fits")
	try := func(id, pattern, method, path string) {
		desc := fmt.Sprintf("pattern %q method %q path %q", pattern, method, path)
		k.Case(id, desc, func() {
			got, err := Match(pattern, method, path)
			if want := vMatch(pattern, method, path); err != nil || got != want {
				k.Fail(id, "%s: gives %v, %v, want %v", desc, got, err, want)
			}
		})
	}
	for n := k.N(40000, 1000000); n > 0 && !k.Stop(); n-- {
		pattern, path := vPattern(k)
		try("match", pattern, vMethod(k, pattern), path)
	}
	// every method, as prefix and as method, and every pair of near misses
	for _, m := range vMethods {
		for _, o := range append([]string{"", m + "X", m[:len(m)-1]}, vMethods...) {
			try("method", m+":/a", o, "/a")
			try("method", vLower(m)+":/a", o, "/a")
			try("method", m+"/a", o, m+"/a")
		}
	}
	// every byte stands for itself
	for c := 1; c < 128; c++ {
		s := string(rune(c))
		if s == "*" {
			continue
		}
		for _, p := range []string{s, "/a" + s + "b", "/x" + s, s + "{id}", "{id}" + s, "*" + s} {
			for _, q := range []string{p, strings.Replace(p, s, "z", 1), strings.Replace(p, s, "", 1), strings.Replace(p, s, s+s, 1)} {
				try("byte", p, "", strings.Replace(strings.Replace(q, "*", "", 1), "{id}", "v", 1))
			}
		}
	}
}
