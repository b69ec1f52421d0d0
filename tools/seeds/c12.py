T = '''package tag

import "testing"

func TestDemo(t *testing.T) {
%s}
'''
F = "tag/tag.go"
seed("c12-ignored-name", "C12", [(F, '''	if tag.Name == "-" {
		meta.Ignore = true
		return
	}
	if len(tag.Name) != 0 {
		meta.Name = tag.Name
	}
	errs := []error{
		parseTagBoolPtr(tag, "inline", &meta.Inline),
		parseTagBool(tag, "omitempty", &meta.OmitEmpty),
		parseTagBoolPtr(tag, "nullable", &meta.Nullable),
''', '''	if tag.Name == "-" {
		meta.Ignore = true
		return
	}
	if len(meta.Name) == 0 {
		meta.Name = tag.Name
	}
	errs := []error{
		parseTagBoolPtr(tag, "inline", &meta.Inline),
		parseTagBool(tag, "omitempty", &meta.OmitEmpty),
		parseTagBoolPtr(tag, "nullable", &meta.Nullable),
''')], "tag", T % '''	m, err := Parse(`json:"b" oapi:"a"`)
	if err != nil || m.Name != "a" {
		t.Fatal(m, err)
	}
''', "a field with both a json and an oapi name", "the json name wins")
seed("c12-last-error", "C12", [(F, '''		parseTagFloatPtr(tag, "mulof", &meta.MulOf),
	}
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return
''', '''		parseTagFloatPtr(tag, "mulof", &meta.MulOf),
	}
	for _, err = range errs {
	}
	return
''')], "tag", T % '''	if m, err := Parse(`oapi:",min:x"`); err == nil {
		t.Fatal(m)
	}
''', "a malformed number in any option but the last one read", "the malformed option is ignored")
seed("c12-false-pointer", "C12", [(F, '''		*val = &y
	}
	return nil
''', '''		if y {
			*val = &y
		}
	}
	return nil
''')], "tag", T % '''	m, err := Parse(`oapi:",nullable:false"`)
	if err != nil || m.Nullable == nil || *m.Nullable {
		t.Fatal(m.Nullable, err)
	}
''', "a nullable or inline option given as false", "the option is as if absent")
seed("c12-min-zero", "C12", [(F, '''	err := parseTagInt(m, tag, &v)
	if err != nil {
		return err
	}
''', '''	err := parseTagInt(m, tag, &v)
	if err != nil || v == 0 {
		return err
	}
''')], "tag", T % '''	m, err := Parse(`oapi:",maxitems:0"`)
	if err != nil || m.MaxItems == nil {
		t.Fatal(m.MaxItems, err)
	}
''', "a length or count of zero", "the constraint is lost")
