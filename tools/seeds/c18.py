O = "oapi.go"
M = "cmd/oapi/main.go"
C = "internal/container/container.go"
T = '''package main

import (
	"bytes"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"testing"
	"time"
)

var _ = syscall.SIGTERM
var _ = time.Now

func TestMain(m *testing.M) {
	if os.Getenv("DEMO_CHILD") == "1" {
		main()
		os.Exit(0)
	}
	os.Exit(m.Run())
}

// run runs the command and gives what it prints.
func run(t *testing.T, dir string, args ...string) (string, string, error) {
	c := exec.Command(os.Args[0], args...)
	c.Dir = dir
	c.Env = append(os.Environ(), "DEMO_CHILD=1", "PWD="+dir)
	var a, b bytes.Buffer
	c.Stdout, c.Stderr = &a, &b
	err := c.Run()
	return a.String(), b.String(), err
}

func file(t *testing.T, p, s string) {
	if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
		t.Fatal(err)
	}
	if err := ioutil.WriteFile(p, []byte(s), 0644); err != nil {
		t.Fatal(err)
	}
}

func module(t *testing.T, dir, name string) {
	file(t, filepath.Join(dir, "go.mod"), "module example.com/m\\n\\ngo 1.15\\n")
	file(t, filepath.Join(dir, "m.go"), "package m\\n")
	file(t, filepath.Join(dir, "oapi.yaml"), "openapi: 3.0.0\\npaths:\\n  /in/"+name+":\\n    get: {}\\n")
}

func read(p string) string {
	b, _ := ioutil.ReadFile(p)
	return string(b)
}

var _ = strings.Contains

func TestDemo(t *testing.T) {
	d := t.TempDir()
%s}
'''
seed("c18-large", "C18", [(M, '''	_, err = io.Copy(w, bytes.NewBuffer(data))
''', '''	_, err = io.Copy(w, io.LimitReader(bytes.NewBuffer(data), 1<<16))
''')], "cmd/oapi", T % '''	m := filepath.Join(d, "m")
	module(t, m, "a")
	file(t, filepath.Join(m, "oapi.yaml"), "openapi: 3.0.0\\ninfo:\\n  title: "+strings.Repeat("x", 70000)+"\\n")
	out, _, err := run(t, m, "--format", "json")
	if err != nil || len(out) < 70000 {
		t.Fatalf("%%v, %%d bytes", err, len(out))
	}
''', "a document longer than 64 KiB", "the rest of the document is cut off and the run still succeeds")
seed("c18-spec-errors", "C18", [(O, '''	err = pkgutil.Scan(pkgs, specsScanner)
	if err != nil {
''', '''	err = pkgutil.Scan(pkgs, specsScanner)
	if err != nil && len(specsScanner.Containers) == 0 {
''')], "cmd/oapi", T % '''	m := filepath.Join(d, "m")
	module(t, m, "a")
	file(t, filepath.Join(m, "b.go"), "package m\\n\\nimport _ \\"example.com/m/in\\"\\n")
	file(t, filepath.Join(m, "in", "in.go"), "package in\\n")
	file(t, filepath.Join(m, "in", "oapi.yaml"), "openapi: [\\n- x: }\\n")
	out, _, err := run(t, m, "--format", "json", "--output", filepath.Join(d, "out.json"))
	if err == nil || out != "" || read(filepath.Join(d, "out.json")) != "" {
		t.Fatalf("%%v %%q %%q", err, out, read(filepath.Join(d, "out.json")))
	}
''', "one package's specification is broken and another's is not", "the run succeeds with a document that lacks the broken specification")
seed("c18-readdir", "C18", [(C, '''		if err != nil {
			return cc, err
		}
		cc = append(cc, c)
''', '''		if err != nil && len(cc) == 0 {
			return cc, err
		}
		if err == nil {
			cc = append(cc, c)
		}
''')], "cmd/oapi", T % '''	m := filepath.Join(d, "m")
	module(t, m, "a")
	file(t, filepath.Join(m, "oapi.json"), "{\\"openapi\\": ")
	out, _, err := run(t, m, "--format", "json")
	if err == nil || out != "" {
		t.Fatalf("%%v %%q", err, out)
	}
''', "a directory holds a readable and a broken specification file", "the broken file is skipped and the run succeeds")
