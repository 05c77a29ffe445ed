package simrt

import (
	"fmt"
	"reflect"
	"sort"
)

// MapIter iterates over a map in an order the simulator chooses.
type MapIter struct {
	m    reflect.Value
	keys []reflect.Value
	i    int
}

func sortedKeys(m reflect.Value) []reflect.Value {
	var keys []reflect.Value
	for it := m.MapRange(); it.Next(); {
		keys = append(keys, it.Key())
	}
	sort.SliceStable(keys, func(i, j int) bool { return keyLess(keys[i], keys[j]) })
	return keys
}

func keyLess(a, b reflect.Value) bool {
	for a.Kind() == reflect.Interface && !a.IsNil() {
		a = a.Elem()
	}
	for b.Kind() == reflect.Interface && !b.IsNil() {
		b = b.Elem()
	}
	if a.Kind() != b.Kind() {
		return a.Kind() < b.Kind()
	}
	switch a.Kind() {
	case reflect.String:
		return a.String() < b.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() < b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() < b.Uint()
	}
	return fmt.Sprint(a) < fmt.Sprint(b)
}

func permuted(m reflect.Value) []reflect.Value {
	keys := sortedKeys(m)
	r := Rng{S: Draw(MapSeed, 1)}
	switch r.N(4) {
	case 0: // keep the order
	case 1:
		for i, j := 0, len(keys)-1; i < j; i, j = i+1, j-1 {
			keys[i], keys[j] = keys[j], keys[i]
		}
	default:
		for i := len(keys) - 1; i > 0; i-- {
			j := r.N(i + 1)
			keys[i], keys[j] = keys[j], keys[i]
		}
	}
	return keys
}

func MapRange(m reflect.Value) *MapIter { return &MapIter{m: m, keys: permuted(m), i: -1} }

func MapKeys(m reflect.Value) []reflect.Value { return permuted(m) }

func (it *MapIter) Next() bool {
	for it.i++; it.i < len(it.keys); it.i++ {
		if it.m.MapIndex(it.keys[it.i]).IsValid() {
			return true
		}
	}
	return false
}

func (it *MapIter) Key() reflect.Value   { return it.keys[it.i] }
func (it *MapIter) Value() reflect.Value { return it.m.MapIndex(it.keys[it.i]) }
func (it *MapIter) Reset(m reflect.Value) {
	it.m = m
	it.i = -1
	it.keys = nil
	if m.IsValid() {
		it.keys = permuted(m)
	}
}

func SetIterKey(v reflect.Value, it *MapIter)   { v.Set(it.Key()) }
func SetIterValue(v reflect.Value, it *MapIter) { v.Set(it.Value()) }
