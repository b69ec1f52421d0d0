// Package verifkit supports the conformance tests of /verif. It is laid over
// the repository by go test -overlay and is not part of it.
package verifkit

import (
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"testing"
)

// K is one conformance test.
type K struct {
	T     *testing.T
	R     *rand.Rand
	n     int
	seen  map[string]bool
	fails int
	smp   int
	known map[string]bool
}

var known = func() map[string]bool {
	m := map[string]bool{}
	for _, x := range strings.Fields(os.Getenv("VERIF_KNOWN")) {
		m[x] = true
	}
	return m
}()

// New starts a test; the rule says how cases are made.
func New(t *testing.T, rule string) *K {
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	fmt.Println("VERIF-RULE " + rule)
	k := &K{T: t, R: rand.New(rand.NewSource(seed)), seen: map[string]bool{}, known: map[string]bool{}}
	t.Cleanup(func() { fmt.Printf("VERIF-CASES %d %d\n", k.n, len(k.seen)) })
	return k
}

// Thorough reports the tier.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// N picks a number of cases by tier.
func (k *K) N(quick, thorough int) int {
	if Thorough() {
		return thorough
	}
	return quick
}

// Fail reports a failing input.
func (k *K) Fail(id, format string, a ...interface{}) {
	k.T.Fail()
	if known[id] { // a listed finding, reported once
		if k.known[id] {
			return
		}
		k.known[id] = true
	} else if k.fails++; k.fails > 5 {
		return
	}
	s := fmt.Sprintf(format, a...)
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	fmt.Println("VERIF-FAIL " + id + " " + strings.ReplaceAll(s, "\n", "\\n"))
}

// Stop is true when enough failing inputs were found.
func (k *K) Stop() bool { return k.fails >= 5 }

// Case runs one case, described by desc; trivial cases do not count as
// distinct.
func (k *K) Case(id, desc string, f func()) {
	if k.Stop() {
		return
	}
	k.n++
	if desc != "" {
		k.seen[desc] = true
		if k.smp < 4 && k.n%7 == 1 {
			k.smp++
			s := desc
			if len(s) > 300 {
				s = s[:300] + "..."
			}
			fmt.Println("VERIF-SAMPLE " + id + " " + strings.ReplaceAll(s, "\n", "\\n"))
		}
	}
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			k.Fail(id, "%s: panic: %v [%s]", desc, r, where(st))
		}
	}()
	f()
}

func where(st string) string {
	for _, l := range strings.Split(st, "\n") {
		if strings.Contains(l, ".go:") && !strings.Contains(l, "zz_verif") && !strings.Contains(l, "/runtime/") {
			return strings.TrimSpace(l)
		}
	}
	return ""
}

var atoms = []string{"", "a", "b", "key", "/", "~", "~0", "~1", "~01", ".", "%", "%25", "%41", "%2F", " ", "\"", "\\", "<", ">", "&", "é", "日本", "\u2028", "#", "$ref", "*", "0", "1", "-1", "x-y", "\n", "\t", "?", ":", "{", "}", "[", "]", "+", "A", "\x00", "\x7f"}

// Str is a string rich in characters with a meaning somewhere.
func (k *K) Str() string {
	n := k.R.Intn(4)
	s := ""
	for i := 0; i <= n; i++ {
		s += atoms[k.R.Intn(len(atoms))]
	}
	return s
}

// Pick picks one of the strings.
func Pick(k *K, xs ...string) string { return xs[k.R.Intn(len(xs))] }

// JSON is a random JSON value of the types encoding/json produces.
func (k *K) JSON(depth int, key func() string) interface{} {
	n := 8
	if depth <= 0 {
		n = 5
	}
	switch k.R.Intn(n) {
	case 0:
		return key()
	case 1:
		return float64(k.R.Intn(2000)-1000) / 4
	case 2:
		return k.R.Intn(2) == 0
	case 3:
		return nil
	case 4:
		return key()
	case 5:
		a := make([]interface{}, k.R.Intn(4))
		for i := range a {
			a[i] = k.JSON(depth-1, key)
		}
		return a
	default:
		return k.Obj(depth-1, key)
	}
}

// Obj is a random JSON object.
func (k *K) Obj(depth int, key func() string) map[string]interface{} {
	m := map[string]interface{}{}
	for i := k.R.Intn(4); i > 0; i-- {
		m[key()] = k.JSON(depth, key)
	}
	return m
}

// Copy clones a JSON value.
func Copy(v interface{}) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		m := map[string]interface{}{}
		for a, b := range x {
			m[a] = Copy(b)
		}
		return m
	case []interface{}:
		s := make([]interface{}, len(x))
		for i, b := range x {
			s[i] = Copy(b)
		}
		return s
	}
	return v
}
