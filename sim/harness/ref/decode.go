package ref

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"strconv"
)

// Verdict on a piece of input for a destination type.
type Verdict int

const (
	Reject  Verdict = iota // not a serialized value for this type: must be refused
	Lenient                // tolerated deviation: may be refused, else it means exactly the model's value
	Accept                 // must be accepted with exactly the model's value
)

func (v Verdict) String() string { return [...]string{"reject", "lenient", "accept"}[v] }

// UnmarshalerFunc gives the value a type with UnmarshalPHP takes from raw.
type UnmarshalerFunc func(rt reflect.Type, existing reflect.Value, raw []byte) (reflect.Value, error)

type decState struct {
	buf     []byte
	utype   reflect.Type
	unm     UnmarshalerFunc
	lenient bool
	why     string
	budget  int
}

var errReject = errors.New("reject")

// ErrTooBig: the input asks for more memory than the simulation will spend.
var ErrTooBig = errors.New("more memory than the simulation spends")

const maxDepth = 10000

// MaxIndexAlloc bounds the slices the model is willing to build.
const MaxIndexAlloc = 1 << 13

func (d *decState) bad(pos int, f string, a ...any) error {
	return fmt.Errorf("%w: offset %d: %s", errReject, pos, fmt.Sprintf(f, a...))
}

func (d *decState) soft(why string) {
	if !d.lenient {
		d.why = why
	}
	d.lenient = true
}

// Decode applies data to the settable value dst as Unmarshal(data, &dst) should.
// On Reject, dst is left in an unspecified state.
func Decode(data []byte, dst reflect.Value, utype reflect.Type, f UnmarshalerFunc) (Verdict, error) {
	d := &decState{buf: data, utype: utype, unm: f, budget: 4_000_000}
	if len(data) == 0 {
		return Reject, d.bad(0, "empty input")
	}
	if err := Decodable(dst.Type(), utype); err != nil {
		return Reject, err
	}
	end, err := d.value(0, 0, dst)
	if err != nil {
		return Reject, err
	}
	if end != len(data) {
		return Reject, d.bad(end, "trailing bytes")
	}
	if d.lenient {
		return Lenient, errors.New(d.why)
	}
	return Accept, nil
}

// Decodable: static types for which Unmarshal fails whatever the input.
func Decodable(rt, utype reflect.Type) error { return decodable(rt, utype, map[reflect.Type]bool{}) }

func decodable(rt, utype reflect.Type, seen map[reflect.Type]bool) error {
	if reflect.PointerTo(rt).Implements(utype) || seen[rt] {
		return nil
	}
	seen[rt] = true
	switch rt.Kind() {
	case reflect.Ptr:
		if rt.Elem().Kind() == reflect.Ptr {
			return fmt.Errorf("%w: nested pointer", ErrUnsupported)
		}
		return decodable(rt.Elem(), utype, seen)
	case reflect.Slice:
		if rt.Elem().Kind() == reflect.Uint8 {
			return nil
		}
		return decodable(rt.Elem(), utype, seen)
	case reflect.Array, reflect.Map:
		return decodable(rt.Elem(), utype, seen)
	case reflect.Struct:
		names := map[string]bool{}
		for _, f := range fields(rt) {
			if f.anonymous && (f.typ.Kind() == reflect.Struct || f.typ.Kind() == reflect.Ptr && f.typ.Elem().Kind() == reflect.Struct) {
				return fmt.Errorf("%w: embedded struct", ErrUnsupported)
			}
			if names[f.name] {
				return fmt.Errorf("%w: duplicate key %s", ErrUnsupported, f.name)
			}
			names[f.name] = true
			if err := decodable(f.typ, utype, seen); err != nil {
				return err
			}
		}
	}
	return nil
}

func (d *decState) at(pos int) byte {
	if pos < 0 || pos >= len(d.buf) {
		return 0
	}
	return d.buf[pos]
}

func (d *decState) null(pos int) (int, error) {
	if d.at(pos+1) != ';' || pos+1 >= len(d.buf) {
		return pos, d.bad(pos, "bad null")
	}
	return pos + 2, nil
}

// digits reads [0-9]+ at pos.
func (d *decState) digits(pos int) (string, int, error) {
	st := pos
	for pos < len(d.buf) && d.buf[pos] >= '0' && d.buf[pos] <= '9' {
		pos++
	}
	if pos == st {
		return "", pos, d.bad(pos, "no digits")
	}
	return string(d.buf[st:pos]), pos, nil
}

// length reads `:N:` and returns the position after it.
func (d *decState) length(pos int, parse bool) (int64, int, error) {
	if d.at(pos) != ':' {
		return 0, pos, d.bad(pos, "no ':' before length")
	}
	t, p, err := d.digits(pos + 1)
	if err != nil {
		return 0, pos, err
	}
	if d.at(p) != ':' {
		return 0, pos, d.bad(p, "no ':' after length")
	}
	if len(t) > 1 && t[0] == '0' {
		d.soft("length with leading zero")
	}
	n, err := strconv.ParseInt(t, 10, 64)
	if err != nil {
		if parse {
			return 0, pos, d.bad(pos, "length overflow")
		}
		d.soft("length overflow")
		n = math.MaxInt64
	}
	return n, p + 1, nil
}

// str reads `:N:"...";`
func (d *decState) str(pos int) ([]byte, int, error) {
	n, p, err := d.length(pos, true)
	if err != nil {
		return nil, pos, err
	}
	if d.at(p) != '"' {
		return nil, pos, d.bad(p, "no quote")
	}
	p++
	if n > int64(len(d.buf)-p-2) {
		return nil, pos, d.bad(p, "string beyond the end")
	}
	e := p + int(n)
	if d.at(e) != '"' || d.at(e+1) != ';' {
		return nil, pos, d.bad(e, "string not terminated")
	}
	return d.buf[p:e], e + 2, nil
}

// integer reads `i:-?[0-9]+;`
func (d *decState) integer(pos int) (string, int, error) {
	if d.at(pos) != 'i' || d.at(pos+1) != ':' {
		return "", pos, d.bad(pos, "no integer")
	}
	p := pos + 2
	neg := d.at(p) == '-'
	if neg {
		p++
	}
	t, p, err := d.digits(p)
	if err != nil {
		return "", pos, err
	}
	if d.at(p) != ';' {
		return "", pos, d.bad(p, "integer not terminated")
	}
	if len(t) > 1 && t[0] == '0' || neg && t == "0" {
		d.soft("integer not canonical")
	}
	if neg {
		t = "-" + t
	}
	return t, p + 1, nil
}

// float reads `d:...;`
func (d *decState) float(pos int) (string, int, error) {
	if d.at(pos) != 'd' || d.at(pos+1) != ':' {
		return "", pos, d.bad(pos, "no float")
	}
	p := pos + 2
	for p < len(d.buf) && d.buf[p] != ';' {
		p++
	}
	if p >= len(d.buf) || p == pos+2 {
		return "", pos, d.bad(pos, "float not terminated")
	}
	return string(d.buf[pos+2 : p]), p + 1, nil
}

// phpFloat: -?digits(.digits)?([eE][+-]?digits)?
func phpFloat(s string) bool {
	if s == "INF" || s == "-INF" || s == "NAN" {
		return true
	}
	i := 0
	num := func() bool {
		st := i
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			i++
		}
		return i > st
	}
	if i < len(s) && s[i] == '-' {
		i++
	}
	if !num() {
		return false
	}
	if i < len(s) && s[i] == '.' {
		i++
		if !num() {
			return false
		}
	}
	if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
		i++
		if i < len(s) && (s[i] == '+' || s[i] == '-') {
			i++
		}
		if !num() {
			return false
		}
	}
	return i == len(s)
}

func (d *decState) parseFloat(s string, pos int) (float64, error) {
	if !phpFloat(s) {
		d.soft("float text " + s)
	}
	switch s {
	case "INF":
		return math.Inf(1), nil
	case "-INF":
		return math.Inf(-1), nil
	case "NAN":
		return math.NaN(), nil
	}
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return 0, d.bad(pos, "float %q", s)
	}
	return f, nil
}

func (d *decState) boolean(pos int) (bool, int, error) {
	if d.at(pos) != 'b' || d.at(pos+1) != ':' || d.at(pos+2) != '0' && d.at(pos+2) != '1' || d.at(pos+3) != ';' {
		return false, pos, d.bad(pos, "bad bool")
	}
	return d.at(pos+2) == '1', pos + 4, nil
}

// class skips `O:N:"name"`; the element count follows.
func (d *decState) class(pos int) (int, error) {
	n, p, err := d.length(pos+1, true)
	if err != nil {
		return pos, err
	}
	if d.at(p) != '"' || n > int64(len(d.buf)-p-3) {
		return pos, d.bad(p, "bad class name")
	}
	e := p + 1 + int(n)
	if d.at(e) != '"' || d.at(e+1) != ':' {
		return pos, d.bad(e, "bad class name")
	}
	return e + 1, nil
}

// skip passes over one value of any kind.
func (d *decState) skip(pos, depth int) (int, error) {
	d.budget--
	if d.budget < 0 {
		return pos, d.bad(pos, "model budget")
	}
	switch d.at(pos) {
	case 'N':
		return d.null(pos)
	case 'b':
		_, p, err := d.boolean(pos)
		return p, err
	case 'i':
		t, p, err := d.integer(pos)
		if err == nil {
			if _, e := strconv.ParseInt(t, 10, 64); e != nil {
				d.soft("skipped integer out of range")
			}
		}
		return p, err
	case 'd':
		t, p, err := d.float(pos)
		if err == nil {
			if _, e := strconv.ParseFloat(t, 64); e != nil || !phpFloat(t) {
				d.soft("skipped float text")
			}
		}
		return p, err
	case 's':
		_, p, err := d.str(pos + 1)
		return p, err
	case 'O', 'a':
		p := pos + 1
		if d.at(pos) == 'O' {
			var err error
			if p, err = d.class(pos); err != nil {
				return pos, err
			}
		}
		if depth+1 > maxDepth {
			return pos, d.bad(pos, "too deep")
		}
		n, p, err := d.length(p, true)
		if err != nil {
			return pos, err
		}
		if d.at(p) != '{' {
			return pos, d.bad(p, "no '{'")
		}
		p++
		for i := int64(0); i < n; i++ {
			switch d.at(p) {
			case 'i', 's':
			default:
				d.soft("skipped key is neither int nor string")
			}
			if p, err = d.skip(p, depth+1); err != nil {
				return pos, err
			}
			if p, err = d.skip(p, depth+1); err != nil {
				return pos, err
			}
		}
		if d.at(p) != '}' {
			return pos, d.bad(p, "no '}'")
		}
		return p + 1, nil
	}
	return pos, d.bad(pos, "no value starts here")
}

func (d *decState) value(pos, depth int, rv reflect.Value) (int, error) {
	d.budget--
	if d.budget < 0 {
		return pos, d.bad(pos, "model budget")
	}
	if pos >= len(d.buf) {
		return pos, d.bad(pos, "unexpected end")
	}
	rt := rv.Type()
	if reflect.PointerTo(rt).Implements(d.utype) {
		end, err := d.skip(pos, depth)
		if err != nil {
			return pos, err
		}
		if string(d.buf[pos:end]) == "N;" {
			rv.SetZero()
			return end, nil
		}
		nv, err := d.unm(rt, reflect.Value{}, d.buf[pos:end])
		if err != nil {
			return pos, err
		}
		rv.Set(nv)
		return end, nil
	}
	c := d.at(pos)
	switch rv.Kind() {
	case reflect.Ptr:
		if c == 'N' {
			p, err := d.null(pos)
			if err == nil {
				rv.SetZero()
			}
			return p, err
		}
		if rv.IsNil() {
			rv.Set(reflect.New(rt.Elem()))
		}
		return d.value(pos, depth, rv.Elem())
	case reflect.Bool:
		if c == 'N' {
			return d.null(pos)
		}
		b, p, err := d.boolean(pos)
		if err == nil {
			rv.SetBool(b)
		}
		return p, err
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if c == 'N' {
			return d.null(pos)
		}
		t, p, err := d.integer(pos)
		if err != nil {
			return pos, err
		}
		return p, d.setInt(t, pos, rv)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		if c == 'N' {
			return d.null(pos)
		}
		t, p, err := d.integer(pos)
		if err != nil {
			return pos, err
		}
		return p, d.setUint(t, pos, rv)
	case reflect.Float32, reflect.Float64:
		if c == 'N' {
			return d.null(pos)
		}
		t, p, err := d.float(pos)
		if err != nil {
			return pos, err
		}
		return p, d.setFloat(t, pos, rv)
	case reflect.String:
		if c == 'N' {
			return d.null(pos)
		}
		if c != 's' {
			return pos, d.bad(pos, "not a string")
		}
		s, p, err := d.str(pos + 1)
		if err == nil {
			rv.SetString(string(s))
		}
		return p, err
	case reflect.Slice:
		if rt.Elem().Kind() == reflect.Uint8 && c != 'a' {
			if c == 'N' {
				return d.null(pos)
			}
			if c != 's' {
				return pos, d.bad(pos, "not a string")
			}
			s, p, err := d.str(pos + 1)
			if err == nil {
				rv.SetBytes(append(make([]byte, 0, len(s)), s...))
			}
			return p, err
		}
		return d.slice(pos, depth+1, rv)
	case reflect.Array:
		return d.array(pos, depth+1, rv)
	case reflect.Map:
		return d.dict(pos, depth+1, rv)
	case reflect.Struct:
		return d.object(pos, depth+1, rv)
	case reflect.Interface:
		return d.iface(pos, depth, rv)
	}
	return pos, d.bad(pos, "no decoder for %s", rt)
}

func (d *decState) setInt(t string, pos int, rv reflect.Value) error {
	n, err := strconv.ParseInt(t, 10, 64)
	if err != nil || rv.OverflowInt(n) {
		return d.bad(pos, "integer %s out of range", t)
	}
	rv.SetInt(n)
	return nil
}

func (d *decState) setUint(t string, pos int, rv reflect.Value) error {
	n, err := strconv.ParseUint(t, 10, 64)
	if err != nil || rv.OverflowUint(n) {
		return d.bad(pos, "unsigned %s out of range", t)
	}
	rv.SetUint(n)
	return nil
}

func (d *decState) setFloat(t string, pos int, rv reflect.Value) error {
	f, err := d.parseFloat(t, pos)
	if err != nil {
		return err
	}
	if rv.OverflowFloat(f) {
		return d.bad(pos, "float %s out of range", t)
	}
	rv.SetFloat(f)
	return nil
}

// open reads `a:N:{` (the letter at pos) and returns the declared count.
func (d *decState) open(pos int, parse bool) (int64, int, error) {
	n, p, err := d.length(pos+1, parse)
	if err != nil {
		return 0, pos, err
	}
	if d.at(p) != '{' {
		return 0, pos, d.bad(p, "no '{'")
	}
	return n, p + 1, nil
}

func (d *decState) index(pos int) (int64, int, error) {
	t, p, err := d.integer(pos)
	if err != nil {
		return 0, pos, err
	}
	n, err := strconv.ParseInt(t, 10, 64)
	if err != nil || n < 0 {
		return 0, pos, d.bad(pos, "bad index %s", t)
	}
	return n, p, nil
}

func (d *decState) slice(pos, depth int, rv reflect.Value) (int, error) {
	if depth > maxDepth {
		return pos, d.bad(pos, "too deep")
	}
	switch d.at(pos) {
	case 'N':
		p, err := d.null(pos)
		if err == nil {
			rv.SetZero()
		}
		return p, err
	case 'a':
	default:
		return pos, d.bad(pos, "not an array")
	}
	n, p, err := d.open(pos, true)
	if err != nil {
		return pos, err
	}
	if d.at(pos+2) == '0' {
		// `a:0:{}` only
		if n != 0 || d.at(pos+3) != ':' || d.at(p) != '}' {
			return pos, d.bad(pos, "elements in an empty array")
		}
		rv.SetZero()
		return p + 1, nil
	}
	s := reflect.MakeSlice(reflect.SliceOf(rv.Type().Elem()), 0, 0)
	count := int64(0)
	for {
		i, q, err := d.index(p)
		if err != nil {
			return pos, err
		}
		if i >= int64(s.Len()) {
			if i >= MaxIndexAlloc {
				return pos, ErrTooBig
			}
			if int(i) >= s.Cap() {
				g := reflect.MakeSlice(s.Type(), int(i)+1, 2*int(i)+4)
				reflect.Copy(g, s)
				s = g
			} else {
				s = s.Slice(0, int(i)+1)
			}
		}
		if p, err = d.value(q, depth, s.Index(int(i))); err != nil {
			return pos, err
		}
		count++
		if d.at(p) == '}' {
			break
		}
	}
	if count != n {
		d.soft("element count")
	}
	rv.Set(s)
	return p + 1, nil
}

func (d *decState) array(pos, depth int, rv reflect.Value) (int, error) {
	if depth > maxDepth {
		return pos, d.bad(pos, "too deep")
	}
	switch d.at(pos) {
	case 'N':
		return d.null(pos)
	case 'a':
	default:
		return pos, d.bad(pos, "not an array")
	}
	n, p, err := d.open(pos, true)
	if err != nil {
		return pos, err
	}
	rv.SetZero()
	if d.at(pos+2) == '0' {
		if n != 0 || d.at(pos+3) != ':' || d.at(p) != '}' {
			return pos, d.bad(pos, "elements in an empty array")
		}
		return p + 1, nil
	}
	count := int64(0)
	for {
		i, q, err := d.index(p)
		if err != nil {
			return pos, err
		}
		if i < int64(rv.Len()) {
			p, err = d.value(q, depth, rv.Index(int(i)))
		} else {
			p, err = d.skip(q, depth)
		}
		if err != nil {
			return pos, err
		}
		count++
		if d.at(p) == '}' {
			break
		}
	}
	if count != n {
		d.soft("element count")
	}
	return p + 1, nil
}

func (d *decState) dict(pos, depth int, rv reflect.Value) (int, error) {
	if depth > maxDepth {
		return pos, d.bad(pos, "too deep")
	}
	lp := pos
	switch d.at(pos) {
	case 'N':
		p, err := d.null(pos)
		if err == nil {
			rv.SetZero()
		}
		return p, err
	case 'a':
	case 'O':
		p, err := d.class(pos)
		if err != nil {
			return pos, err
		}
		lp = p - 1
	default:
		return pos, d.bad(pos, "not a map")
	}
	n, p, err := d.open(lp, true)
	if err != nil {
		return pos, err
	}
	rt := rv.Type()
	if rv.IsNil() {
		rv.Set(reflect.MakeMap(rt))
	}
	count := int64(0)
	for {
		if d.at(p) == '}' && count == 0 {
			break
		}
		k := reflect.New(rt.Key()).Elem()
		q, err := d.key(p, depth, k)
		if err != nil {
			return pos, err
		}
		v := reflect.New(rt.Elem()).Elem()
		if p, err = d.value(q, depth, v); err != nil {
			return pos, err
		}
		if !k.Comparable() {
			return pos, d.bad(p, "unhashable key")
		}
		rv.SetMapIndex(k, v)
		count++
		if d.at(p) == '}' {
			break
		}
	}
	if count != n {
		d.soft("element count")
	}
	return p + 1, nil
}

func (d *decState) key(pos, depth int, k reflect.Value) (int, error) {
	rt := k.Type()
	if d.at(pos) != 'i' && d.at(pos) != 's' {
		d.soft("key is neither int nor string")
	}
	if reflect.PointerTo(rt).Implements(d.utype) {
		return d.value(pos, depth, k)
	}
	switch rt.Kind() {
	case reflect.String, reflect.Bool, reflect.Interface,
		reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return d.value(pos, depth, k)
	}
	return pos, d.bad(pos, "no map keys of type %s", rt)
}

func (d *decState) object(pos, depth int, rv reflect.Value) (int, error) {
	if depth > maxDepth {
		return pos, d.bad(pos, "too deep")
	}
	lp := pos
	switch d.at(pos) {
	case 'N':
		return d.null(pos)
	case 'a':
	case 'O':
		p, err := d.class(pos)
		if err != nil {
			return pos, err
		}
		lp = p - 1
	default:
		return pos, d.bad(pos, "not an object")
	}
	n, p, err := d.open(lp, false)
	if err != nil {
		return pos, err
	}
	fs := fields(rv.Type())
	count := int64(0)
	for {
		if d.at(p) == '}' && count == 0 {
			break
		}
		name := ""
		q := 0
		if d.at(p) == 'N' {
			d.soft("null key")
			q, err = d.null(p)
		} else if d.at(p) == 's' {
			var s []byte
			s, q, err = d.str(p + 1)
			name = string(s)
		} else {
			return pos, d.bad(p, "key is not a string")
		}
		if err != nil {
			return pos, err
		}
		var f *field
		for i := range fs {
			if fs[i].name == name {
				f = &fs[i]
			}
		}
		switch {
		case f == nil:
			p, err = d.skip(q, depth)
		case f.asString && d.textual(f.typ):
			p, err = d.text(q, rv.Field(f.idx))
		default:
			p, err = d.value(q, depth, rv.Field(f.idx))
		}
		if err != nil {
			return pos, err
		}
		count++
		if d.at(p) == '}' {
			break
		}
	}
	if count != n {
		d.soft("element count")
	}
	return p + 1, nil
}

func (d *decState) textual(rt reflect.Type) bool {
	if reflect.PointerTo(rt).Implements(d.utype) {
		return false
	}
	switch rt.Kind() {
	case reflect.Map, reflect.Slice, reflect.Array, reflect.Struct, reflect.Interface:
		return false
	}
	return true
}

// text is a field with the `string` option.
func (d *decState) text(pos int, rv reflect.Value) (int, error) {
	if rv.Kind() == reflect.Ptr {
		if d.at(pos) == 'N' {
			p, err := d.null(pos)
			if err == nil {
				rv.SetZero()
			}
			return p, err
		}
		if rv.IsNil() {
			rv.Set(reflect.New(rv.Type().Elem()))
		}
		return d.text(pos, rv.Elem())
	}
	if d.at(pos) == 'N' {
		return d.null(pos)
	}
	if d.at(pos) != 's' {
		return pos, d.bad(pos, "not a string")
	}
	s, p, err := d.str(pos + 1)
	if err != nil {
		return pos, err
	}
	t := string(s)
	switch {
	case rv.Kind() == reflect.String:
		rv.SetString(t)
	case rv.Kind() == reflect.Bool:
		b, err := strconv.ParseBool(t)
		if err != nil {
			return pos, d.bad(pos, "bool text %q", t)
		}
		if t != "true" && t != "false" {
			d.soft("bool text")
		}
		rv.SetBool(b)
	case rv.CanInt():
		if n, err := strconv.ParseInt(t, 10, 64); err == nil && strconv.FormatInt(n, 10) != t {
			d.soft("int text")
		}
		if len(t) > 0 && t[0] == '+' {
			return pos, d.bad(pos, "int text %q", t)
		}
		if err := d.setInt(t, pos, rv); err != nil {
			return pos, err
		}
	case rv.CanUint():
		if n, err := strconv.ParseUint(t, 10, 64); err == nil && strconv.FormatUint(n, 10) != t {
			d.soft("uint text")
		}
		if err := d.setUint(t, pos, rv); err != nil {
			return pos, err
		}
	case rv.CanFloat():
		if err := d.setFloat(t, pos, rv); err != nil {
			return pos, err
		}
	default:
		return pos, d.bad(pos, "no text decoder for %s", rv.Type())
	}
	return p, nil
}

func (d *decState) iface(pos, depth int, rv reflect.Value) (int, error) {
	if rv.NumMethod() > 0 {
		if !rv.IsNil() && rv.Elem().Type().Implements(d.utype) {
			end, err := d.skip(pos, depth)
			if err != nil {
				return pos, err
			}
			if string(d.buf[pos:end]) == "N;" {
				rv.SetZero()
				return end, nil
			}
			_, err = d.unm(rv.Elem().Type(), rv.Elem(), d.buf[pos:end])
			if err != nil {
				return pos, err
			}
			return end, nil
		}
		if d.at(pos) == 'N' {
			p, err := d.null(pos)
			if err == nil {
				rv.SetZero()
			}
			return p, err
		}
		return pos, d.bad(pos, "cannot decode into %s", rv.Type())
	}
	var out reflect.Value
	var p int
	var err error
	switch d.at(pos) {
	case 'N':
		if p, err = d.null(pos); err == nil {
			rv.SetZero()
		}
		return p, err
	case 'b':
		var b bool
		b, p, err = d.boolean(pos)
		out = reflect.ValueOf(b)
	case 'i':
		var t string
		if t, p, err = d.integer(pos); err == nil {
			out = reflect.New(reflect.TypeOf(int64(0))).Elem()
			err = d.setInt(t, pos, out)
		}
	case 'd':
		var t string
		if t, p, err = d.float(pos); err == nil {
			out = reflect.New(reflect.TypeOf(float64(0))).Elem()
			err = d.setFloat(t, pos, out)
		}
	case 's':
		var s []byte
		s, p, err = d.str(pos + 1)
		out = reflect.ValueOf(string(s))
	case 'O':
		out = reflect.New(reflect.TypeOf(map[string]any(nil))).Elem()
		p, err = d.dict(pos, depth+1, out)
	case 'a':
		out = reflect.New(reflect.TypeOf(map[any]any(nil))).Elem()
		p, err = d.anyDict(pos, depth+1, out)
	default:
		return pos, d.bad(pos, "no value starts here")
	}
	if err != nil {
		return pos, err
	}
	rv.Set(out)
	return p, nil
}

// anyDict: the keys of an array held in an interface are int64 or string.
func (d *decState) anyDict(pos, depth int, rv reflect.Value) (int, error) {
	if depth > maxDepth {
		return pos, d.bad(pos, "too deep")
	}
	n, p, err := d.open(pos, true)
	if err != nil {
		return pos, err
	}
	m := map[any]any{}
	count := int64(0)
	for {
		if d.at(p) == '}' && count == 0 {
			break
		}
		var k any
		var q int
		switch d.at(p) {
		case 'i':
			t, e, err := d.integer(p)
			if err != nil {
				return pos, err
			}
			v, err := strconv.ParseInt(t, 10, 64)
			if err != nil {
				return pos, d.bad(p, "key out of range")
			}
			k, q = v, e
		case 's':
			s, e, err := d.str(p + 1)
			if err != nil {
				return pos, err
			}
			k, q = string(s), e
		default:
			return pos, d.bad(p, "bad key")
		}
		var v any
		if p, err = d.value(q, depth, reflect.ValueOf(&v).Elem()); err != nil {
			return pos, err
		}
		m[k] = v
		count++
		if d.at(p) == '}' {
			break
		}
	}
	if count != n {
		d.soft("element count")
	}
	rv.Set(reflect.ValueOf(m))
	return p + 1, nil
}
