package route

import (
	"fmt"
	"sync"
	"testing"
	"time"

	kit "github.com/buypal/oapi-go/internal/verifkit"
)

func TestVerifC14Concurrent(t *testing.T) {
	k := kit.New(t, "concurrent matches give what each gives alone")
	hung := false
	for round := k.N(12, 120); round > 0 && !k.Stop() && !hung; round-- {
		type in struct {
			pattern, method, path string
			want                  bool
		}
		var ins []in
		for i := 0; i < 60; i++ {
			p, q := vPattern(k)
			if k.R.Intn(10) == 0 {
				p += "\xff" // does not compile
			}
			m := vMethod(k, p)
			for j := 0; j < 3; j++ {
				ins = append(ins, in{p, m, q, vMatch(p, m, q)})
			}
		}
		desc := fmt.Sprintf("round %d: %d calls, first %q", round, len(ins), ins[0].pattern)
		k.Case("concurrent", desc, func() {
			var wg sync.WaitGroup
			var mu sync.Mutex
			start := make(chan struct{})
			for g := 0; g < 8; g++ {
				wg.Add(1)
				g := g
				go func() {
					defer wg.Done()
					<-start
					for i := range ins {
						x := ins[(i*7+g*13)%len(ins)]
						got, err := Match(x.pattern, x.method, x.path)
						bad := x.pattern[len(x.pattern)-1] == 0xff
						if got != (x.want && !bad) || err != nil && !bad {
							mu.Lock()
							k.Fail("concurrent", "%s: %q %q %q gives %v, %v, want %v", desc, x.pattern, x.method, x.path, got, err, x.want)
							mu.Unlock()
							return
						}
					}
				}()
			}
			close(start)
			done := make(chan struct{})
			go func() { wg.Wait(); close(done) }()
			select {
			case <-done:
			case <-time.After(20 * time.Second):
				hung = true
				k.Fail("concurrent", "%s: calls do not return", desc)
			}
		})
	}
}
