package ref

import (
	"fmt"
	"math"
	"reflect"
)

// Clone copies a value deeply, preserving aliasing between its pointers, maps
// and slices. Values with unexported state are not used in the simulation.
func Clone(v reflect.Value) reflect.Value {
	return clone(v, map[pathKey]reflect.Value{})
}

func clone(v reflect.Value, m map[pathKey]reflect.Value) reflect.Value {
	if !v.IsValid() {
		return v
	}
	out := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return out
		}
		k := pathKey{v.Type(), v.Pointer(), 0}
		if c, ok := m[k]; ok {
			return c
		}
		p := reflect.New(v.Type().Elem())
		m[k] = p.Convert(v.Type())
		p.Elem().Set(clone(v.Elem(), m))
		return p.Convert(v.Type())
	case reflect.Interface:
		if !v.IsNil() {
			out.Set(clone(v.Elem(), m))
		}
	case reflect.Slice:
		if v.IsNil() {
			return out
		}
		k := pathKey{v.Type(), v.Pointer(), v.Len() + 1}
		if c, ok := m[k]; ok && v.Len() > 0 {
			return c
		}
		s := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		m[k] = s
		for i := 0; i < v.Len(); i++ {
			s.Index(i).Set(clone(v.Index(i), m))
		}
		return s
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(clone(v.Index(i), m))
		}
	case reflect.Map:
		if v.IsNil() {
			return out
		}
		k := pathKey{v.Type(), v.Pointer(), 0}
		if c, ok := m[k]; ok {
			return c
		}
		c := reflect.MakeMapWithSize(v.Type(), v.Len())
		m[k] = c
		for it := v.MapRange(); it.Next(); {
			c.SetMapIndex(it.Key(), clone(it.Value(), m))
		}
		return c
	case reflect.Struct:
		out.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				out.Field(i).Set(clone(v.Field(i), m))
			}
		}
	default:
		out.Set(v)
	}
	return out
}

// CloneAll copies a value and everything its holder may have kept a reference
// to: the result's second part pairs every pointer, map and slice reachable in
// v, as it is now, with its copy in the world of the cloned value. What later
// happens to v's parts should then happen to their copies as well.
func CloneAll(v reflect.Value) (reflect.Value, []Pair) {
	m := map[pathKey]reflect.Value{}
	out := clone(v, m)
	var l []Pair
	seen := map[pathKey]bool{}
	var walk func(v reflect.Value, depth int)
	add := func(v reflect.Value, n int) bool {
		k := pathKey{v.Type(), v.Pointer(), n}
		if seen[k] || len(l) > 300 {
			return false
		}
		seen[k] = true
		h := reflect.New(v.Type()).Elem()
		h.Set(v)
		l = append(l, Pair{Old: h, Want: clone(h, m)})
		return true
	}
	walk = func(v reflect.Value, depth int) {
		if depth > 40 {
			return
		}
		switch v.Kind() {
		case reflect.Ptr:
			if !v.IsNil() && add(v, 0) {
				walk(v.Elem(), depth+1)
			}
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem(), depth+1)
			}
		case reflect.Slice:
			if v.Cap() > 0 && add(v, v.Len()+1) {
				if v.Cap() > v.Len() && v.Cap()-v.Len() < 1000 {
					h := v.Slice(v.Len(), v.Cap())
					l = append(l, Pair{Old: h, Want: clone(h, m)})
				}
				for i := 0; i < v.Len() && i < 100; i++ {
					walk(v.Index(i), depth+1)
				}
			}
		case reflect.Array:
			for i := 0; i < v.Len() && i < 100; i++ {
				walk(v.Index(i), depth+1)
			}
		case reflect.Map:
			if !v.IsNil() && add(v, 0) {
				for it := v.MapRange(); it.Next(); {
					walk(it.Value(), depth+1)
				}
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).IsExported() {
					walk(v.Field(i), depth+1)
				}
			}
		}
	}
	if v.Kind() == reflect.Ptr && !v.IsNil() {
		walk(v.Elem(), 0)
	}
	return out, l
}

// Pair is a reference into a value and what it should refer to.
type Pair struct{ Old, Want reflect.Value }

// Diff describes the first difference between two values, "" if none. NaN
// equals NaN, -0 differs from 0, nil differs from empty.
func Diff(want, got reflect.Value) string {
	return diff(want, got, map[[3]uintptr]bool{})
}

func at(seg, s string) string {
	if s == "" {
		return ""
	}
	if len(s) > 600 {
		return s
	}
	return seg + s
}

func diff(a, b reflect.Value, seen map[[3]uintptr]bool) string {
	if !a.IsValid() || !b.IsValid() {
		if a.IsValid() != b.IsValid() {
			return fmt.Sprintf(": validity %v vs %v", a.IsValid(), b.IsValid())
		}
		return ""
	}
	if a.Type() != b.Type() {
		return fmt.Sprintf(": want type %s, got %s", a.Type(), b.Type())
	}
	k := a.Kind()
	switch k {
	case reflect.Ptr, reflect.Map, reflect.Slice, reflect.Interface, reflect.Chan, reflect.Func:
		if a.IsNil() != b.IsNil() {
			return fmt.Sprintf(": want nil=%v, got nil=%v", a.IsNil(), b.IsNil())
		}
		if a.IsNil() {
			return ""
		}
	}
	switch k {
	case reflect.Ptr, reflect.Map, reflect.Slice:
		n := uintptr(0)
		if k == reflect.Slice {
			if a.Len() != b.Len() {
				return fmt.Sprintf(": want len %d, got %d", a.Len(), b.Len())
			}
			if a.Len() == 0 {
				return ""
			}
			n = uintptr(a.Len())
		}
		key := [3]uintptr{a.Pointer(), b.Pointer(), n<<5 | uintptr(k)}
		if key[0] == key[1] || seen[key] {
			return ""
		}
		if k == reflect.Slice && a.Type().Elem().Kind() == reflect.Uint8 {
			if x, y := a.Bytes(), b.Bytes(); string(x) != string(y) {
				return fmt.Sprintf(": want %.80q, got %.80q", x, y)
			}
			return ""
		}
		seen[key] = true
	}
	switch k {
	case reflect.Ptr:
		return at("*", diff(a.Elem(), b.Elem(), seen))
	case reflect.Interface:
		return at("()", diff(a.Elem(), b.Elem(), seen))
	case reflect.Slice, reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if s := diff(a.Index(i), b.Index(i), seen); s != "" {
				return at(fmt.Sprintf("[%d]", i), s)
			}
		}
	case reflect.Map:
		if a.Len() != b.Len() {
			return fmt.Sprintf(": want %d entries, got %d", a.Len(), b.Len())
		}
		for it := a.MapRange(); it.Next(); {
			bv := b.MapIndex(it.Key())
			if !bv.IsValid() {
				return fmt.Sprintf(": key %.60q missing", fmt.Sprint(it.Key()))
			}
			if s := diff(it.Value(), bv, seen); s != "" {
				return at(fmt.Sprintf("[%.60q]", fmt.Sprint(it.Key())), s)
			}
		}
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			f := a.Type().Field(i)
			if !f.IsExported() {
				continue
			}
			if s := diff(a.Field(i), b.Field(i), seen); s != "" {
				return at("."+f.Name, s)
			}
		}
	case reflect.Float32, reflect.Float64:
		x, y := a.Float(), b.Float()
		if math.IsNaN(x) && math.IsNaN(y) {
			return ""
		}
		if math.Float64bits(x) != math.Float64bits(y) {
			return fmt.Sprintf(": want %v, got %v", x, y)
		}
	case reflect.Bool:
		if a.Bool() != b.Bool() {
			return fmt.Sprintf(": want %v, got %v", a.Bool(), b.Bool())
		}
	case reflect.String:
		if a.String() != b.String() {
			return fmt.Sprintf(": want %.80q, got %.80q", a.String(), b.String())
		}
	default:
		switch {
		case a.CanInt():
			if a.Int() != b.Int() {
				return fmt.Sprintf(": want %d, got %d", a.Int(), b.Int())
			}
		case a.CanUint():
			if a.Uint() != b.Uint() {
				return fmt.Sprintf(": want %d, got %d", a.Uint(), b.Uint())
			}
		}
	}
	return ""
}
