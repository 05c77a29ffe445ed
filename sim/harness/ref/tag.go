// Package ref is the executable reference model: what bytes a Go value denotes
// and what Go value bytes denote. It is written from the documentation and the
// PHP serialize grammar, shares no code with the library, has no pools, no
// caches and no concurrency.
package ref

import (
	"reflect"
	"strings"
	"unicode"
)

type field struct {
	idx       int
	name      string
	omitEmpty bool
	asString  bool
	typ       reflect.Type
	embedded  bool
	anonymous bool
}

func fields(rt reflect.Type) []field {
	var fs []field
	for i := 0; i < rt.NumField(); i++ {
		sf := rt.Field(i)
		tag := sf.Tag.Get("php")
		if !sf.IsExported() || tag == "-" {
			continue
		}
		parts := strings.Split(tag, ",")
		f := field{idx: i, name: sf.Name, typ: sf.Type}
		if validName(parts[0]) {
			f.name = parts[0]
		}
		for _, o := range parts[1:] {
			switch o {
			case "omitempty":
				f.omitEmpty = true
			case "string":
				f.asString = true
			}
		}
		if sf.Anonymous {
			f.anonymous = true
			k := sf.Type.Kind()
			if k == reflect.Struct {
				f.embedded = true
			}
		}
		fs = append(fs, f)
	}
	return fs
}

func validName(s string) bool {
	if s == "" {
		return false
	}
	for _, c := range s {
		if !unicode.IsLetter(c) && !unicode.IsDigit(c) && !strings.ContainsRune("!#$%&()*+-./:<=>?@[]^_{|}~ ", c) {
			return false
		}
	}
	return true
}

// FieldInfo is what a field of a struct is called.
type FieldInfo struct {
	Name     string
	Typ      reflect.Type
	Embedded bool
}

// Fields are those which are read and written.
func Fields(rt reflect.Type) (l []FieldInfo) {
	for _, f := range fields(rt) {
		if !f.asString {
			l = append(l, FieldInfo{f.name, f.typ, f.embedded})
		}
	}
	return l
}
