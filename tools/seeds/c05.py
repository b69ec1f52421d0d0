C = "internal/container/container.go"
U = "internal/container/utils.go"
T = '''package container

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"reflect"
	"testing"
)

var _ = ioutil.Discard
var _ = os.Args
var _ = filepath.Join
var _ = reflect.DeepEqual

func TestDemo(t *testing.T) {
%s}
'''
seed("c05-empty-object", "C05", [(C, '''	val, err := clone(value)
	if err != nil {
		return
	}
	_, err = c.c.SetP(val, path)
	return
''', '''	val := value
	if m, ok := value.(map[string]interface{}); !ok || len(m) > 0 {
		val, err = clone(value)
	}
	if err != nil {
		return
	}
	_, err = c.c.SetP(val, path)
	return
''')], "internal/container", T % '''	a, b := New(), New()
	empty := map[string]interface{}{}
	if a.SetP("x", empty) != nil || b.SetP("x", empty) != nil {
		t.Fatal("set")
	}
	if err := a.SetP("x.y", 1); err != nil {
		t.Fatal(err)
	}
	if len(empty) != 0 || b.ExistsP("x.y") {
		t.Fatalf("%%v %%v", empty, b.Data())
	}
''', "an empty object set into a document is later extended there", "documents into which the same empty object was set share it, and the caller's object changes with them")
seed("c05-read-cache", "C05", [(C, '''	data, err := ioutil.ReadFile(file)
	if err != nil {
		return Container{}, errors.Wrapf(err, "failed to read file")
	}
	ext := filepath.Ext(file)
''', '''	data, err := ioutil.ReadFile(file)
	if err != nil {
		return Container{}, errors.Wrapf(err, "failed to read file")
	}
	if c, ok := files[file+"\\x00"+string(data)]; ok {
		return c, nil
	}
	ext := filepath.Ext(file)
'''), (C, '''	if err != nil {
		return
	}
	c.path = file
	return
}

// Flatten a JSON array or object into an object of key/value pairs for each
''', '''	if err != nil {
		return
	}
	c.path, files[file+"\\x00"+string(data)] = file, c
	return
}

// files which were read, and have not changed since
var files = map[string]Container{}

// Flatten a JSON array or object into an object of key/value pairs for each
''')], "internal/container", T % '''	d := t.TempDir()
	f := filepath.Join(d, "a.json")
	if err := ioutil.WriteFile(f, []byte("{\\"a\\": {}}"), 0644); err != nil {
		t.Fatal(err)
	}
	a, err := ReadFile(f)
	if err != nil {
		t.Fatal(err)
	}
	b, err := ReadFile(f)
	if err != nil {
		t.Fatal(err)
	}
	if err := a.SetP("a.b", 1); err != nil {
		t.Fatal(err)
	}
	if b.ExistsP("a.b") {
		t.Fatalf("%%v", b.Data())
	}
''', "the same file is read twice and one of the documents is written", "two documents read from the same file are one")
