M = "cmd/oapi/config.go"
C = "internal/oapi/config/config.go"
T = '''package main

import (
	"bytes"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"
)

func TestMain(m *testing.M) {
	if os.Getenv("DEMO_CHILD") == "1" {
		main()
		os.Exit(0)
	}
	os.Exit(m.Run())
}

// run runs the command and gives what it prints.
func run(t *testing.T, dir string, args ...string) (string, string, error) {
	c := exec.Command(os.Args[0], args...)
	c.Dir = dir
	c.Env = append(os.Environ(), "DEMO_CHILD=1", "PWD="+dir)
	var a, b bytes.Buffer
	c.Stdout, c.Stderr = &a, &b
	err := c.Run()
	return a.String(), b.String(), err
}

func file(t *testing.T, p, s string) {
	if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
		t.Fatal(err)
	}
	if err := ioutil.WriteFile(p, []byte(s), 0644); err != nil {
		t.Fatal(err)
	}
}

func module(t *testing.T, dir, name string) {
	file(t, filepath.Join(dir, "go.mod"), "module example.com/m\\n\\ngo 1.15\\n")
	file(t, filepath.Join(dir, "m.go"), "package m\\n")
	file(t, filepath.Join(dir, "oapi.yaml"), "openapi: 3.0.0\\npaths:\\n  /in/"+name+":\\n    get: {}\\n")
}

func read(p string) string {
	b, _ := ioutil.ReadFile(p)
	return string(b)
}

var _ = strings.Contains

func TestDemo(t *testing.T) {
	d := t.TempDir()
%s}
'''
seed("c17-output-dir", "C17", [(M, '''	cfg.Dir = dir

	// format of openapi
''', '''
	// format of openapi
'''), (M, '''			output = toAbsPath(cfg.Output, cfg.Dir)
''', '''			output = toAbsPath(cfg.Output, toAbsPath(cfg.Dir, filepath.Dir(cfg.FilePath)))
'''), (M, '''	cfg.Output = output

''', '''	cfg.Output = output
	cfg.Dir = dir

''')], "cmd/oapi", T % '''	module(t, filepath.Join(d, "m"), "m")
	file(t, filepath.Join(d, "conf", "c.yaml"), "output: x.json\\ndir: .\\n")
	_, e, err := run(t, d, "--config", "conf/c.yaml", "--dir", "m")
	if err != nil {
		t.Fatal(err, e)
	}
	if !strings.Contains(read(filepath.Join(d, "m", "x.json")), "/in/m") {
		t.Fatal("no document in the execution directory")
	}
''', "a relative output in the configuration and a directory given by flag", "the document is written relative to the configured directory and not the execution directory")
seed("c17-stdout-flag", "C17", [(M, '''	if len(ff.Output) > 0 {
		switch ff.Output {
		case "stderr", "stdout":
			output = ff.Output
		default:
''', '''	if len(ff.Output) > 0 {
		switch ff.Output {
		case "stdout":
		case "stderr":
			output = ff.Output
		default:
''')], "cmd/oapi", T % '''	module(t, d, "m")
	file(t, filepath.Join(d, "c.yaml"), "output: x.json\\n")
	o, e, err := run(t, d, "--config", "c.yaml", "--output", "stdout")
	if err != nil {
		t.Fatal(err, e)
	}
	if !strings.Contains(o, "/in/m") || read(filepath.Join(d, "x.json")) != "" {
		t.Fatal("flag ignored", o)
	}
''', "standard output given by flag over a file in the configuration", "the flag for the default destination does not override the configuration")
seed("c17-base-lists", "C17", [(C, '''	return c.Merge(ny, container.MergeDefault)
''', '''	return c.Merge(ny, func(dest, source interface{}) (interface{}, error) {
		x, ok1 := dest.([]interface{})
		y, ok2 := source.([]interface{})
		if ok1 && ok2 {
			return append(x[:len(x):len(x)], y...), nil
		}
		return container.MergeDefault(dest, source)
	})
''')], "cmd/oapi", T % '''	module(t, d, "m")
	file(t, filepath.Join(d, "c.yaml"), "extends: b.yaml\\nservers:\\n- url: http://own\\n")
	file(t, filepath.Join(d, "b.yaml"), "servers:\\n- url: http://base\\n")
	o, e, err := run(t, d, "--config", "c.yaml")
	if err != nil {
		t.Fatal(err, e)
	}
	if !strings.Contains(o, "http://own") || strings.Contains(o, "http://base") {
		t.Fatal(o)
	}
''', "a list set by both the configuration and its base", "the base's items are added to the list the configuration sets")
seed("c17-extends-wd", "C17", [(C, '''	if !filepath.IsAbs(p) {
		p = filepath.Join(fp, p)
	}
''', '''	if fp, err = filepath.Abs(fp); err != nil {
		return
	}
	if q, err := filepath.Abs(p); err == nil && (filepath.IsAbs(p) || filepath.Dir(filepath.Dir(q)) == filepath.Dir(fp)) {
		p = q
	} else {
		p = filepath.Join(fp, p)
	}
''')], "cmd/oapi", T % '''	module(t, filepath.Join(d, "m"), "m")
	file(t, filepath.Join(d, "conf", "c.yaml"), "extends: b.yaml\\n")
	file(t, filepath.Join(d, "conf", "b.yaml"), "info:\\n  title: right\\n")
	file(t, filepath.Join(d, "m", "b.yaml"), "info:\\n  title: wrong\\n")
	o, e, err := run(t, filepath.Join(d, "m"), "--config", "../conf/c.yaml")
	if err != nil {
		t.Fatal(err, e)
	}
	if !strings.Contains(o, "right") {
		t.Fatal(o)
	}
''', "the command run in a directory beside the configuration's", "the base is looked for in the working directory")
seed("c17-conf-dir", "C17", [(C, '''	c.FilePath = file
	return
''', '''	c.FilePath = filepath.Join(filepath.Dir(file), c.ExtendsPath)
	if len(c.ExtendsPath) == 0 || filepath.IsAbs(c.ExtendsPath) {
		c.FilePath = file
	}
	return
''')], "cmd/oapi", T % '''	module(t, filepath.Join(d, "conf", "m"), "right")
	module(t, filepath.Join(d, "m"), "wrong")
	file(t, filepath.Join(d, "conf", "c.yaml"), "extends: ../b.yaml\\ndir: m\\n")
	file(t, filepath.Join(d, "b.yaml"), "format: json\\n")
	o, e, err := run(t, d, "--config", "conf/c.yaml")
	if err != nil {
		t.Fatal(err, e)
	}
	if !strings.Contains(o, "/in/right") {
		t.Fatal(o)
	}
''', "a configuration with a relative directory extending one elsewhere", "the directory is resolved against the base's location")
