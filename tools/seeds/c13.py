F = "internal/route/route.go"
T = '''package route

import "testing"

func TestDemo(t *testing.T) {
%s}
'''
seed("c13-cache-fold", "C13", [(F, '''	regex := regexen[pattern]
	if regex == nil {''', '''	key := strings.ToLower(pattern)
	regex := regexen[key]
	if regex == nil {'''), (F, '''		regexen[pattern] = regex
''', '''		regexen[key] = regex
''')], "internal/route", T % '''	for _, x := range []string{"/users/A", "/users/a"} {
		for _, y := range []string{"/users/A", "/users/a"} {
			ok, err := Match(x, "", y)
			if err != nil || ok != (x == y) {
				t.Fatal(x, y, ok, err)
			}
		}
	}
''', "two patterns that differ only in case, one after the other", "the second pattern is answered with the expression of the first")
seed("c13-two-variables", "C13", [(F, '''		parts = append(parts, regexp.QuoteMeta(pattern[last:i]))
''', '''		if last == 0 || i-last > 1 {
			parts = append(parts, regexp.QuoteMeta(pattern[last:i]))
		} else {
			parts = append(parts, pattern[last:i])
		}
''')], "internal/route", T % '''	for _, x := range []struct {
		p, u string
		want bool
	}{{"/f/{name}.{ext}", "/f/abxc", false}, {"/f/{name}.{ext}", "/f/ab.c", true}, {"/f/{name}/{ext}", "/f/ab/c", true}} {
		ok, err := Match(x.p, "GET", x.u)
		if err != nil || ok != x.want {
			t.Fatal(x, ok, err)
		}
	}
''', "a single special character between two variables or wildcards", "the character matches whatever a regular expression takes it for")
seed("c13-method-length", "C13", [(F, '''			fm = met
			pattern = pattern[len(m)+1:]
			break
''', '''			fm = met
			pattern = strings.TrimLeft(pattern[len(m):], ":")
			break
''')], "internal/route", T % '''	ok, err := Match("get::x", "GET", ":x")
	if err != nil || !ok {
		t.Fatal(ok, err)
	}
''', "a pattern whose path part starts with a colon", "the colon belonging to the path is dropped with the method prefix")
seed("c14-read-unlocked", "C14", [(F, '''	relock.Lock()
	defer relock.Unlock()

	regex := regexen[pattern]
	if regex == nil {
		var err error
''', '''	regex := regexen[pattern]
	if regex == nil {
		relock.Lock()
		defer relock.Unlock()

		var err error
''')], "internal/route", '''package route

import (
	"fmt"
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 2000; i++ {
				p := fmt.Sprintf("/p%d/{id1}", (i+g)%500)
				if ok, err := Match(p, "GET", fmt.Sprintf("/p%d/x", (i+g)%500)); err != nil || !ok {
					t.Error(p, ok, err)
				}
			}
		}(g)
	}
	wg.Wait()
}
''', "one goroutine looking a pattern up while another adds one", "the cache is read without the lock", flags="-race")
seed("c14-lock-kept", "C14", [(F, '''	relock.Lock()
	defer relock.Unlock()

	regex := regexen[pattern]
''', '''	relock.Lock()

	regex := regexen[pattern]
'''), (F, '''		regexen[pattern] = regex
	}
	return regex, nil
''', '''		regexen[pattern] = regex
	}
	relock.Unlock()
	return regex, nil
''')], "internal/route", '''package route

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	done := make(chan bool)
	go func() {
		Match("/a\\xff", "GET", "/a")
		Match("/a", "GET", "/a")
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatal("the second match does not return")
	}
}
''', "a pattern that does not compile, then any other match", "the lock is not released when a pattern does not compile")
