package ref

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
)

// Node is what a value is expected to be encoded as.
type Node struct {
	Kind      byte // N b i u d s a, R raw bytes of a Marshaler, F float as string
	B         bool
	I         int64
	U         uint64
	F         float64
	F32       bool
	S         string
	Ents      []Ent
	Unordered bool
}

type Ent struct {
	Key *Node // i, u or s
	Val *Node
}

var (
	ErrCycle       = errors.New("ref: value is cyclic")
	ErrUnsupported = errors.New("ref: unsupported type")
)

// MarshalerFunc tells what a value of a type with MarshalPHP produces. The model
// calls it once per occurrence, in traversal order.
type MarshalerFunc func(rv reflect.Value) ([]byte, error)

type encState struct {
	marshaler MarshalerFunc
	mtype     reflect.Type
	path      map[pathKey]bool
	depth     int
	budget    int
}

type pathKey struct {
	t reflect.Type
	p uintptr
	n int
}

// Expect builds the expectation for v. mtype is the Marshaler interface type.
func Expect(v any, mtype reflect.Type, f MarshalerFunc) (n *Node, err error) {
	st := &encState{marshaler: f, mtype: mtype, path: map[pathKey]bool{}, budget: 4_000_000}
	rv := reflect.ValueOf(v)
	if !rv.IsValid() {
		return &Node{Kind: 'N'}, nil
	}
	if err := Encodable(rv.Type(), mtype); err != nil {
		return nil, err
	}
	return st.typed(rv)
}

// Encodable tells whether a static type can be encoded at all.
func Encodable(rt, mtype reflect.Type) error { return encodable(rt, mtype, map[reflect.Type]bool{}) }

func encodable(rt, mtype reflect.Type, seen map[reflect.Type]bool) error {
	if rt.Implements(mtype) || seen[rt] {
		return nil
	}
	seen[rt] = true
	switch rt.Kind() {
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64,
		reflect.Float32, reflect.Float64, reflect.String, reflect.Interface:
		return nil
	case reflect.Slice, reflect.Array:
		return encodable(rt.Elem(), mtype, seen)
	case reflect.Map:
		if !keyKind(rt.Key().Kind()) {
			return fmt.Errorf("%w: map key %s", ErrUnsupported, rt.Key())
		}
		return encodable(rt.Elem(), mtype, seen)
	case reflect.Ptr:
		if rt.Elem().Kind() == reflect.Ptr {
			return fmt.Errorf("%w: nested pointer", ErrUnsupported)
		}
		return encodable(rt.Elem(), mtype, seen)
	case reflect.Struct:
		for _, f := range fields(rt) {
			ft := f.typ
			if f.embedded {
				return fmt.Errorf("%w: embedded struct", ErrUnsupported)
			}
			if ft.Kind() == reflect.Ptr && ft.Elem().Kind() == reflect.Ptr {
				return fmt.Errorf("%w: nested pointer", ErrUnsupported)
			}
			if f.asString {
				if ft.Kind() == reflect.Ptr {
					ft = ft.Elem()
				}
				switch k := ft.Kind(); {
				case k == reflect.Bool || k == reflect.String || k == reflect.Interface,
					k >= reflect.Int && k <= reflect.Uint64, k == reflect.Float32 || k == reflect.Float64:
				default:
					return fmt.Errorf("%w: %s as string", ErrUnsupported, ft)
				}
				continue
			}
			if err := encodable(ft, mtype, seen); err != nil {
				return err
			}
		}
		return nil
	}
	return fmt.Errorf("%w: %s", ErrUnsupported, rt)
}

func keyKind(k reflect.Kind) bool {
	return k == reflect.String || k >= reflect.Int && k <= reflect.Uint64
}

func (st *encState) enter(rv reflect.Value) (func(), error) {
	st.budget--
	if st.budget < 0 {
		return nil, errors.New("ref: value too large for the model")
	}
	k := pathKey{t: rv.Type(), p: rv.Pointer()}
	if rv.Kind() == reflect.Slice {
		k.n = rv.Len()
		if k.n == 0 {
			return func() {}, nil
		}
	}
	if st.path[k] {
		return nil, ErrCycle
	}
	st.path[k] = true
	return func() { delete(st.path, k) }, nil
}

// nilReceiver: a pointer to a type whose MarshalPHP has a value receiver, or an
// interface without value: there is nothing MarshalPHP could be called on.
func (st *encState) nilReceiver(rv reflect.Value) bool {
	for rv.Kind() == reflect.Interface {
		if rv.IsNil() {
			return true
		}
		rv = rv.Elem()
	}
	return rv.Kind() == reflect.Ptr && rv.IsNil() && rv.Type().Elem().Implements(st.mtype)
}

func (st *encState) callback(rv reflect.Value) (*Node, error) {
	if st.nilReceiver(rv) {
		return &Node{Kind: 'N'}, nil
	}
	b, err := st.marshaler(rv)
	if err != nil {
		return nil, err
	}
	return &Node{Kind: 'R', S: string(b)}, nil
}

func (st *encState) typed(rv reflect.Value) (*Node, error) {
	rt := rv.Type()
	if rt.Implements(st.mtype) {
		return st.callback(rv)
	}
	switch rv.Kind() {
	case reflect.Bool:
		return &Node{Kind: 'b', B: rv.Bool()}, nil
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return &Node{Kind: 'i', I: rv.Int()}, nil
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return &Node{Kind: 'u', U: rv.Uint()}, nil
	case reflect.Float32, reflect.Float64:
		return &Node{Kind: 'd', F: rv.Float(), F32: rv.Kind() == reflect.Float32}, nil
	case reflect.String:
		return &Node{Kind: 's', S: rv.String()}, nil
	case reflect.Interface:
		return st.dynamic(rv)
	case reflect.Ptr:
		if rv.IsNil() {
			return &Node{Kind: 'N'}, nil
		}
		leave, err := st.enter(rv)
		if err != nil {
			return nil, err
		}
		defer leave()
		return st.typed(rv.Elem())
	case reflect.Slice:
		if rt == reflect.TypeOf([]byte(nil)) {
			return &Node{Kind: 's', S: string(rv.Bytes())}, nil
		}
		return st.list(rv, st.typed)
	case reflect.Array:
		return st.list(rv, st.typed)
	case reflect.Map:
		return st.dict(rv, st.typed)
	case reflect.Struct:
		n := &Node{Kind: 'a'}
		for _, f := range fields(rt) {
			fv := rv.Field(f.idx)
			if f.omitEmpty && fv.IsZero() {
				continue
			}
			var c *Node
			var err error
			switch {
			case f.asString:
				c, err = st.text(fv)
			case fv.Kind() == reflect.Ptr && fv.IsNil():
				c = &Node{Kind: 'N'}
			default:
				c, err = st.typed(fv)
			}
			if err != nil {
				return nil, err
			}
			n.Ents = append(n.Ents, Ent{&Node{Kind: 's', S: f.name}, c})
		}
		return n, nil
	}
	return nil, fmt.Errorf("%w: %s", ErrUnsupported, rt)
}

func (st *encState) list(rv reflect.Value, elem func(reflect.Value) (*Node, error)) (*Node, error) {
	if rv.Kind() == reflect.Slice {
		if rv.IsNil() {
			return &Node{Kind: 'N'}, nil
		}
		leave, err := st.enter(rv)
		if err != nil {
			return nil, err
		}
		defer leave()
	}
	n := &Node{Kind: 'a'}
	for i := 0; i < rv.Len(); i++ {
		c, err := elem(rv.Index(i))
		if err != nil {
			return nil, err
		}
		n.Ents = append(n.Ents, Ent{&Node{Kind: 'i', I: int64(i)}, c})
	}
	return n, nil
}

func (st *encState) dict(rv reflect.Value, elem func(reflect.Value) (*Node, error)) (*Node, error) {
	if rv.IsNil() {
		return &Node{Kind: 'N'}, nil
	}
	leave, err := st.enter(rv)
	if err != nil {
		return nil, err
	}
	defer leave()
	n := &Node{Kind: 'a', Unordered: true}
	keys := rv.MapKeys()
	sort.Slice(keys, func(i, j int) bool {
		a, b := keys[i], keys[j]
		switch {
		case a.Kind() == reflect.String:
			return a.String() < b.String()
		case a.CanInt():
			return a.Int() < b.Int()
		default:
			return a.Uint() < b.Uint()
		}
	})
	for _, kv := range keys {
		var k *Node
		switch {
		case kv.Kind() == reflect.String:
			k = &Node{Kind: 's', S: kv.String()}
		case kv.CanInt():
			k = &Node{Kind: 'i', I: kv.Int()}
		default:
			k = &Node{Kind: 'u', U: kv.Uint()}
		}
		v := reflect.New(rv.Type().Elem()).Elem()
		v.Set(rv.MapIndex(kv))
		c, err := elem(v)
		if err != nil {
			return nil, err
		}
		n.Ents = append(n.Ents, Ent{k, c})
	}
	return n, nil
}

// dynamic is a value whose type is only known when it is met, in an interface.
func (st *encState) dynamic(rv reflect.Value) (*Node, error) {
	if (rv.Kind() == reflect.Interface || rv.Kind() == reflect.Ptr) && rv.IsNil() {
		return &Node{Kind: 'N'}, nil
	}
	rt := rv.Type()
	if rt.Implements(st.mtype) {
		return st.callback(rv)
	}
	switch rv.Kind() {
	case reflect.Interface:
		return st.dynamic(rv.Elem())
	case reflect.Ptr:
		leave, err := st.enter(rv)
		if err != nil {
			return nil, err
		}
		defer leave()
		return st.dynamic(rv.Elem())
	case reflect.Slice:
		if rt.Elem().Kind() == reflect.Interface {
			return st.list(rv, st.dynamic)
		}
		if err := Encodable(rt, st.mtype); err != nil {
			return nil, err
		}
		return st.typed(rv)
	case reflect.Map:
		if !keyKind(rt.Key().Kind()) {
			return nil, fmt.Errorf("%w: map key %s", ErrUnsupported, rt.Key())
		}
		if rv.Len() > 0 || rv.IsNil() {
			if err := Encodable(rt.Elem(), st.mtype); rv.Len() > 0 && err != nil {
				return nil, err
			}
		}
		return st.dict(rv, st.typed)
	case reflect.Array, reflect.Uintptr, reflect.Complex64, reflect.Complex128, reflect.Chan, reflect.Func, reflect.UnsafePointer:
		return nil, fmt.Errorf("%w: %s in interface", ErrUnsupported, rt)
	}
	if err := Encodable(rt, st.mtype); err != nil {
		return nil, err
	}
	return st.typed(rv)
}

// text is a field with the `string` option.
func (st *encState) text(rv reflect.Value) (*Node, error) {
	if rv.Kind() == reflect.Ptr {
		if rv.IsNil() {
			return &Node{Kind: 'N'}, nil
		}
		rv = rv.Elem()
	}
	if rv.Kind() == reflect.Interface {
		n := 0
		for rv.Kind() == reflect.Interface || rv.Kind() == reflect.Ptr {
			if rv.IsNil() {
				return &Node{Kind: 'N'}, nil
			}
			if n++; n > 100000 {
				return nil, ErrCycle
			}
			rv = rv.Elem()
		}
		switch rv.Interface().(type) {
		case bool, int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64, float32, float64:
		default:
			return nil, fmt.Errorf("%w: %s as string", ErrUnsupported, rv.Type())
		}
	}
	switch {
	case rv.Kind() == reflect.Bool:
		return &Node{Kind: 's', S: strconv.FormatBool(rv.Bool())}, nil
	case rv.CanInt():
		return &Node{Kind: 's', S: strconv.FormatInt(rv.Int(), 10)}, nil
	case rv.CanUint():
		return &Node{Kind: 's', S: strconv.FormatUint(rv.Uint(), 10)}, nil
	case rv.CanFloat():
		return &Node{Kind: 'F', F: rv.Float(), F32: rv.Kind() == reflect.Float32}, nil
	default:
		return &Node{Kind: 's', S: rv.String()}, nil
	}
}

// Match checks that b is exactly one encoding of n.
func Match(n *Node, b []byte) error {
	end, err := match(n, b, 0)
	if err != nil {
		return err
	}
	if end != len(b) {
		return fmt.Errorf("%d bytes after the value at offset %d", len(b)-end, end)
	}
	return nil
}

func lit(b []byte, pos int, want string) (int, error) {
	if pos+len(want) > len(b) || string(b[pos:pos+len(want)]) != want {
		e := pos + len(want) + 8
		if e > len(b) {
			e = len(b)
		}
		return pos, fmt.Errorf("offset %d: want %.40q, got %.60q", pos, want, b[pos:e])
	}
	return pos + len(want), nil
}

func match(n *Node, b []byte, pos int) (int, error) {
	switch n.Kind {
	case 'N':
		return lit(b, pos, "N;")
	case 'b':
		if n.B {
			return lit(b, pos, "b:1;")
		}
		return lit(b, pos, "b:0;")
	case 'i':
		return lit(b, pos, "i:"+strconv.FormatInt(n.I, 10)+";")
	case 'u':
		return lit(b, pos, "i:"+strconv.FormatUint(n.U, 10)+";")
	case 'R':
		return lit(b, pos, n.S)
	case 's':
		return lit(b, pos, "s:"+strconv.Itoa(len(n.S))+":\""+n.S+"\";")
	case 'd':
		p, err := lit(b, pos, "d:")
		if err != nil {
			return pos, err
		}
		end := bytes.IndexByte(b[p:], ';')
		if end < 0 {
			return pos, fmt.Errorf("offset %d: unterminated float", pos)
		}
		return p + end + 1, sameFloat(n, string(b[p:p+end]), pos, true)
	case 'F':
		p, err := lit(b, pos, "s:")
		if err != nil {
			return pos, err
		}
		c := bytes.IndexByte(b[p:], ':')
		if c < 0 {
			return pos, fmt.Errorf("offset %d: no length", pos)
		}
		l, err := strconv.Atoi(string(b[p : p+c]))
		if err != nil || l < 0 {
			return pos, fmt.Errorf("offset %d: bad length", pos)
		}
		p += c + 1
		if p, err = lit(b, p, "\""); err != nil {
			return pos, err
		}
		if p+l > len(b) {
			return pos, fmt.Errorf("offset %d: short", pos)
		}
		if err := sameFloat(n, string(b[p:p+l]), pos, false); err != nil {
			return pos, err
		}
		return lit(b, p+l, "\";")
	case 'a':
		p, err := lit(b, pos, "a:"+strconv.Itoa(len(n.Ents))+":{")
		if err != nil {
			return pos, err
		}
		if !n.Unordered {
			for _, e := range n.Ents {
				if p, err = match(e.Key, b, p); err != nil {
					return pos, err
				}
				if p, err = match(e.Val, b, p); err != nil {
					return pos, err
				}
			}
		} else {
			left := map[string]*Node{}
			for _, e := range n.Ents {
				left[keyText(e.Key)] = e.Val
			}
			for range n.Ents {
				k, q, err := readKey(b, p)
				if err != nil {
					return pos, err
				}
				v, ok := left[k]
				if !ok {
					return pos, fmt.Errorf("offset %d: key %.40q unexpected or repeated", p, k)
				}
				delete(left, k)
				if p, err = match(v, b, q); err != nil {
					return pos, err
				}
			}
		}
		return lit(b, p, "}")
	}
	return pos, fmt.Errorf("ref: bad node %c", n.Kind)
}

func keyText(n *Node) string {
	switch n.Kind {
	case 'i':
		return "i:" + strconv.FormatInt(n.I, 10)
	case 'u':
		return "i:" + strconv.FormatUint(n.U, 10)
	}
	return "s:" + n.S
}

func readKey(b []byte, pos int) (string, int, error) {
	if pos >= len(b) {
		return "", pos, fmt.Errorf("offset %d: no key", pos)
	}
	if b[pos] == 'i' {
		end := bytes.IndexByte(b[pos:], ';')
		if end < 0 {
			return "", pos, fmt.Errorf("offset %d: bad key", pos)
		}
		return string(b[pos : pos+end]), pos + end + 1, nil
	}
	p, err := lit(b, pos, "s:")
	if err != nil {
		return "", pos, err
	}
	c := bytes.IndexByte(b[p:], ':')
	if c < 0 {
		return "", pos, fmt.Errorf("offset %d: bad key", pos)
	}
	l, err := strconv.Atoi(string(b[p : p+c]))
	if err != nil || l < 0 || p+c+2+l+2 > len(b) || b[p+c+1] != '"' {
		return "", pos, fmt.Errorf("offset %d: bad key", pos)
	}
	st := p + c + 2
	q, err := lit(b, st+l, "\";")
	if err != nil {
		return "", pos, err
	}
	return "s:" + string(b[st:st+l]), q, nil
}

func sameFloat(n *Node, s string, pos int, plain bool) error {
	if plain {
		switch {
		case math.IsNaN(n.F):
			if s == "NAN" {
				return nil
			}
			return fmt.Errorf("offset %d: want NAN, got %.40q", pos, s)
		case math.IsInf(n.F, 1):
			if s == "INF" {
				return nil
			}
			return fmt.Errorf("offset %d: want INF, got %.40q", pos, s)
		case math.IsInf(n.F, -1):
			if s == "-INF" {
				return nil
			}
			return fmt.Errorf("offset %d: want -INF, got %.40q", pos, s)
		}
	}
	bits := 64
	if n.F32 {
		bits = 32
	}
	f, err := strconv.ParseFloat(s, bits)
	if err != nil {
		return fmt.Errorf("offset %d: float text %.40q: %v", pos, s, err)
	}
	if math.IsNaN(f) && math.IsNaN(n.F) {
		return nil
	}
	if math.Float64bits(f) != math.Float64bits(n.F) {
		return fmt.Errorf("offset %d: want %v, got %.40q", pos, n.F, s)
	}
	return nil
}

// Render writes one encoding of n; shuffle orders the entries of maps.
func Render(b []byte, n *Node, shuffle func(int) []int) []byte {
	switch n.Kind {
	case 'N':
		return append(b, "N;"...)
	case 'b':
		if n.B {
			return append(b, "b:1;"...)
		}
		return append(b, "b:0;"...)
	case 'i':
		return append(strconv.AppendInt(append(b, "i:"...), n.I, 10), ';')
	case 'u':
		return append(strconv.AppendUint(append(b, "i:"...), n.U, 10), ';')
	case 'R':
		return append(b, n.S...)
	case 's':
		return appendStr(b, n.S)
	case 'd':
		b = append(b, "d:"...)
		switch {
		case math.IsNaN(n.F):
			b = append(b, "NAN"...)
		case math.IsInf(n.F, 1):
			b = append(b, "INF"...)
		case math.IsInf(n.F, -1):
			b = append(b, "-INF"...)
		default:
			b = strconv.AppendFloat(b, n.F, 'G', -1, bits(n))
		}
		return append(b, ';')
	case 'F':
		return appendStr(b, strconv.FormatFloat(n.F, 'g', -1, bits(n)))
	case 'a':
		b = append(b, "a:"...)
		b = strconv.AppendInt(b, int64(len(n.Ents)), 10)
		b = append(b, ":{"...)
		if n.Unordered && shuffle != nil {
			for _, i := range shuffle(len(n.Ents)) {
				b = Render(b, n.Ents[i].Key, shuffle)
				b = Render(b, n.Ents[i].Val, shuffle)
			}
		} else {
			for _, e := range n.Ents {
				b = Render(b, e.Key, shuffle)
				b = Render(b, e.Val, shuffle)
			}
		}
		return append(b, '}')
	}
	return b
}

func bits(n *Node) int {
	if n.F32 {
		return 32
	}
	return 64
}

func appendStr(b []byte, s string) []byte {
	b = append(b, "s:"...)
	b = strconv.AppendInt(b, int64(len(s)), 10)
	b = append(b, ":\""...)
	b = append(b, s...)
	return append(b, "\";"...)
}
