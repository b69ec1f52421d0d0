package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"gopkg.in/yaml.v2"
)

type vM = map[string]interface{}
type vL = []interface{}

// TestMain runs the command itself when the test starts itself.
func TestMain(m *testing.M) {
	if os.Getenv("VERIF_CHILD") == "1" {
		main()
		os.Exit(0)
	}
	os.Exit(m.Run())
}

type vRes struct {
	code        int
	out, errout string
}

// vRun runs the command.
func vRun(dir string, args ...string) (r vRes) {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, os.Args[0], args...)
	c.Dir = dir
	c.Env = append(os.Environ(), "VERIF_CHILD=1", "PWD="+dir)
	var a, b bytes.Buffer
	c.Stdout, c.Stderr = &a, &b
	err := c.Run()
	r.out, r.errout = a.String(), b.String()
	if err != nil {
		r.code = c.ProcessState.ExitCode()
		if r.code == 0 {
			r.code = -2
		}
	}
	return
}

// vAll runs jobs on all processors.
func vAll(n int, job func(i int)) {
	var wg sync.WaitGroup
	ch := make(chan int)
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				job(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

// vWrite writes a file and its directory.
func vWrite(file, text string) {
	if err := os.MkdirAll(filepath.Dir(file), 0755); err != nil {
		panic(err)
	}
	if err := ioutil.WriteFile(file, []byte(text), 0644); err != nil {
		panic(err)
	}
}

func vJSON(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// vModule makes a directory a module with a document that names it.
func vModule(dir, name string, files map[string]string) {
	vWrite(filepath.Join(dir, "go.mod"), "module example.com/m\n\ngo 1.15\n")
	vWrite(filepath.Join(dir, "m.go"), "package m\n")
	vWrite(filepath.Join(dir, "oapi.yaml"), "openapi: 3.0.0\npaths:\n  "+name+":\n    get:\n      summary: x\n")
	for f, s := range files {
		vWrite(filepath.Join(dir, f), s)
	}
}

// vText is all strings a Go file's literals and constants stand for.
func vGoStrings(src string) (r []string, err error) {
	f, err := parser.ParseFile(token.NewFileSet(), "x.go", src, 0)
	if err != nil {
		return nil, err
	}
	var str func(e ast.Expr) (string, bool)
	str = func(e ast.Expr) (string, bool) {
		switch x := e.(type) {
		case *ast.BasicLit:
			if x.Kind == token.STRING {
				s, err := strconv.Unquote(x.Value)
				return s, err == nil
			}
		case *ast.ParenExpr:
			return str(x.X)
		case *ast.BinaryExpr:
			a, ok1 := str(x.X)
			b, ok2 := str(x.Y)
			return a + b, ok1 && ok2 && x.Op == token.ADD
		}
		return "", false
	}
	ast.Inspect(f, func(n ast.Node) bool {
		if e, ok := n.(ast.Expr); ok {
			if s, ok := str(e); ok {
				r = append(r, s)
				return false
			}
		}
		return true
	})
	return
}

// vDecode decodes a formatted document.
func vDecode(format, text string) (v interface{}, err error) {
	switch format {
	case "json", "json:pretty":
		d := json.NewDecoder(strings.NewReader(text))
		if err = d.Decode(&v); err != nil {
			return
		}
		var x interface{}
		if d.Decode(&x) == nil {
			return nil, fmt.Errorf("more than one document")
		}
		line := strings.Contains(strings.TrimRight(text, "\n"), "\n")
		if line != (format == "json:pretty") {
			return nil, fmt.Errorf("not the format %s", format)
		}
	case "yaml", "yml":
		var x interface{}
		if json.Unmarshal([]byte(text), &x) == nil {
			return nil, fmt.Errorf("JSON and not YAML")
		}
		if err = yaml.Unmarshal([]byte(text), &x); err != nil {
			return
		}
		v = vPlain(x)
	case "go":
		var ss []string
		if ss, err = vGoStrings(text); err != nil {
			return
		}
		for _, s := range ss {
			if len(s) > 1 && s[0] == '{' && json.Unmarshal([]byte(s), &v) == nil {
				return v, nil
			}
		}
		return nil, fmt.Errorf("no document in the Go file")
	}
	return
}

func vPlain(v interface{}) interface{} {
	switch x := v.(type) {
	case map[interface{}]interface{}:
		m := vM{}
		for k, w := range x {
			m[fmt.Sprint(k)] = vPlain(w)
		}
		return m
	case vL:
		l := vL{}
		for _, w := range x {
			l = append(l, vPlain(w))
		}
		return l
	case int:
		return float64(x)
	}
	return v
}

// vTree is every file below a directory with its content.
func vTree(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			panic(err)
		}
		if i.Mode().IsRegular() {
			b, err := ioutil.ReadFile(p)
			if err != nil {
				panic(err)
			}
			m[p] = string(b)
		} else {
			m[p] = i.Mode().String()
		}
		return nil
	})
	return m
}

// vChanged are the files that differ.
func vChanged(a, b map[string]string) (r []string) {
	for p, s := range a {
		if t, ok := b[p]; !ok || s != t {
			r = append(r, p)
		}
	}
	for p := range b {
		if _, ok := a[p]; !ok {
			r = append(r, p)
		}
	}
	sort.Strings(r)
	return
}

// vFormats are the formats a text could be a document in.
func vAnyFormat(text string) string {
	for _, f := range []string{"json", "json:pretty", "go", "yaml"} {
		v, err := vDecode(f, text)
		if err != nil {
			continue
		}
		if m, ok := v.(vM); ok && (m["paths"] != nil || m["openapi"] != nil || m["info"] != nil) {
			return f
		}
	}
	return ""
}

var _ = reflect.DeepEqual
