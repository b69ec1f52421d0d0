package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

func repoDir() string {
	if d := os.Getenv("GOVC_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func verifDir() string {
	if d := os.Getenv("GOVC_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

func die(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, format+"\n", a...)
	os.Exit(2)
}

func main() {
	if len(os.Args) < 2 {
		die("usage: govc keys | verify KEY... | check PROPERTY")
	}
	if os.Args[1] == "harness" {
		seed := 1
		if v := os.Getenv("VERIF_SEED"); v != "" {
			fmt.Sscan(v, &seed)
		}
		tier := "quick"
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		h := harness(os.Args[2], tier, seed)
		out := h.Output
		if os.Getenv("V") == "" {
			out = tail(out, 3000)
		}
		fmt.Println(out)
		fmt.Printf("ran %v, %d cases, %d failures, %.1fs %s\n", h.Ran, h.Cases, len(h.Failures), h.Seconds, h.Note)
		return
	}
	p, err := load(repoDir())
	if err != nil && os.Args[1] != "check" {
		die("%v", err)
	}
	switch os.Args[1] {
	case "keys":
		var ks []string
		for k, f := range p.Funcs {
			if f.Blocks != nil && f.Pkg != nil && p.Repo[f.Pkg.Pkg.Path()] {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Println(k)
		}
	case "verify":
		db, err := loadDB(filepath.Join(verifDir(), "contracts"))
		if err != nil {
			die("%v", err)
		}
		t := 10 * time.Second
		r := newRunner(8, t)
		var ks []string
		for _, a := range os.Args[2:] {
			for k, c := range db.Contracts {
				if ok, _ := filepath.Match(a, k); (ok || a == c.File) && !c.Trusted && !c.Inline {
					ks = append(ks, k)
				}
			}
		}
		sort.Strings(ks)
		bad := 0
		for _, k := range ks {
			start := time.Now()
			rep := verifyFunc(p, db, k, r)
			n := 0
			for _, x := range rep.Results {
				if x.OK {
					n++
				}
			}
			if rep.Err != "" {
				fmt.Printf("%s: ERROR %s\n", k, rep.Err)
				bad++
				continue
			}
			fmt.Printf("%s: %d/%d (%.1fs)", k, n, len(rep.Results), time.Since(start).Seconds())
			if os.Getenv("V") != "" {
				fmt.Printf(" used=%v inlined=%v dropped=%v\n  assumed=%q", rep.Used, rep.Inlined, rep.Dropped, rep.Assumed)
			}
			fmt.Println()
			for i, x := range rep.Results {
				if x.OK && os.Getenv("V") == "" {
					continue
				}
				st := "FAIL"
				if x.OK {
					st = "ok"
				} else {
					bad++
				}
				fmt.Printf("  %s %s [%s] %s %.2fs: %s %s\n", st, x.Ob.Name, x.Answer, x.Solver, x.Seconds, x.Ob.Text, x.Ob.Pos)
				if !x.OK || os.Getenv("V") == "2" {
					f := fmt.Sprintf("/tmp/w/q/%s.%d.smt2", san(k), i)
					os.MkdirAll("/tmp/w/q", 0o755)
					os.WriteFile(f, []byte(x.Script), 0o644)
					fmt.Printf("    %s\n", f)
					if x.Answer == "error" {
						fmt.Println("    " + strings.ReplaceAll(x.Output, "\n", "\n    "))
					}
				}
			}
		}
		if bad > 0 {
			os.Exit(1)
		}
	case "lemma":
		db, err := loadDB(filepath.Join(verifDir(), "contracts"))
		if err != nil {
			die("%v", err)
		}
		for _, n := range os.Args[2:] {
			b, err := os.ReadFile(filepath.Join(verifDir(), "contracts", "theory", "proofs", n+".smt2"))
			if err != nil {
				fmt.Println(err)
				continue
			}
			ok, k, sec, out := newRunner(8, 30*time.Second).lemma(string(b), db)
			fmt.Printf("%s: %v, %d checks, %.1fs\n%s\n", n, ok, k, sec, out)
		}
	case "check":
		os.Exit(check(p, err, os.Args[2:]))
	}
}
