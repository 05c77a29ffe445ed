package world

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"

	php "github.com/trim21/go-phpserialize"
	"github.com/trim21/go-phpserialize/internal/verifsim/simrt"
)

type Named struct{ S string }

func (n Named) String() string { return n.S }

// gen makes values of a type from a seed: the same seed, the same value.
type gen struct {
	r     simrt.Rng
	left  int             // nodes
	id    int             // next callback id
	extra []reflect.Value // slices with their spare capacity
	spare bool
	wild  bool // may use unsupported dynamic types
	noCB  bool
	seen  []string // strings so far
	keys  []string // the map keys of all levels, if they are few
}

func newGen(seed uint64, size int) *gen {
	g := &gen{left: size}
	g.r.S = seed
	// ids differ from one value to another, so that mixed up results show
	g.id = int(simrt.Hash(seed, 5, 5)%9000)*100 + 1
	if h := simrt.Hash(seed, 6, 6); h%5 == 0 {
		g.keys = [][]string{{"a", "b", "c"}, {"id", "name", "tags", "meta"}, {"0", "1", "2", "-1", "01"}, {"", "a", "aa", "A"}, {"items", "total", "name", "value", "key"}}[h/5%5]
	}
	return g
}

// key is a key of a map.
func (g *gen) key(t reflect.Type) reflect.Value {
	if g.keys == nil || g.r.P(1, 10) {
		return g.val(t, 1)
	}
	k := reflect.New(t).Elem()
	i := g.r.N(len(g.keys) + 1)
	switch {
	case k.Kind() == reflect.String && i < len(g.keys):
		k.SetString(g.keys[i])
	case k.CanInt():
		k.SetInt(int64(i))
	case k.CanUint():
		k.SetUint(uint64(i))
	default:
		return g.val(t, 1)
	}
	return k
}

func (g *gen) nextID() int { g.id++; return g.id }

var smallInts = []int64{0, 1, -1, 2, 7, 9, 10, 42, 99, 100, 127, 128, 255, 256, -128, -129, 32767, 65535, 65536, 1 << 31, 1<<31 - 1, -1 << 31, 1<<53 + 1, math.MaxInt64, math.MinInt64}

func (g *gen) int(bits int) int64 {
	var n int64
	switch g.r.N(4) {
	case 0:
		n = smallInts[g.r.N(len(smallInts))]
	case 1:
		n = int64(g.r.U64())
	default:
		n = int64(g.r.N(2000)) - 500
	}
	if g.r.P(1, 8) {
		n = int64(g.nearTen())
		if g.r.P(1, 2) {
			n = -n
		}
	}
	s := 64 - bits
	return n << s >> s
}

// nearTen is a number about a power of ten, or of two.
func (g *gen) nearTen() uint64 {
	p := uint64(1)
	if g.r.P(1, 4) {
		p <<= g.r.N(64)
	} else {
		for i := g.r.N(20); i > 0; i-- {
			p *= 10
		}
	}
	switch g.r.N(5) {
	case 0:
		return p
	case 1:
		return p + 1
	case 2:
		return p + uint64(g.r.N(10)) - 5
	case 3:
		return p * uint64(1+g.r.N(9))
	}
	return p - 1
}

func (g *gen) uint(bits int) uint64 {
	var n uint64
	switch g.r.N(4) {
	case 0:
		n = uint64(smallInts[g.r.N(len(smallInts))])
	case 1:
		n = g.r.U64()
	default:
		n = uint64(g.r.N(2000))
	}
	if g.r.P(1, 8) {
		n = g.nearTen()
	}
	s := 64 - bits
	return n << s >> s
}

var floats = []float64{0, math.Copysign(0, -1), 1, -1, 0.5, 3.14, 1e21, 1e-7, 1e20, 123456789.125, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN(), math.Pi, 1e100, 2.5e-310, 16777216, 0.1}

func (g *gen) float() float64 {
	switch g.r.N(5) {
	case 0:
		return floats[g.r.N(len(floats))]
	case 1:
		return float64(g.r.N(100000)) / 16
	case 2: // as people write them
		return float64(int64(g.r.U64()>>(1+g.r.N(60)))) / math.Pow10(g.r.N(20))
	case 3:
		return float64(g.r.U64()>>11) / (1 << 53) * math.Pow10(g.r.N(8)-3)
	}
	f := math.Float64frombits(g.r.U64())
	if math.IsNaN(f) {
		return 1.25
	}
	return f
}

var pieces = []string{"a", "hello", `"`, `";`, ";", "}", "{", ":", "\x00", "\xff\xfe", "é", "日本", "s:1:\"x\";", "N;", "i:0;", "\n", "\\", "a:1:{", "0", "-"}

func (g *gen) str() string {
	if len(g.seen) > 0 && g.r.P(1, 8) {
		return g.seen[g.r.N(len(g.seen))] // again
	}
	s := g.str1()
	if len(g.seen) < 40 && len(s) < 200 {
		g.seen = append(g.seen, s)
	}
	return s
}

func (g *gen) str1() string {
	switch g.r.N(14) {
	case 0:
		return ""
	case 1:
		n := []int{9, 10, 11, 31, 99, 100, 101}[g.r.N(7)]
		return fmt.Sprintf("%-*x", n, g.r.U64())[:n]
	case 2:
		if g.r.P(1, 3) {
			n := []int{990, 1000, 1024, 1025, 2040, 4096, 5000}[g.r.N(7)]
			return strings.Repeat(fmt.Sprintf("%08x", g.r.U64()&0xffffffff), n/8+1)[:n]
		}
	case 3, 4, 5:
		var sb strings.Builder
		for i := 1 + g.r.N(5); i > 0; i-- {
			sb.WriteString(pieces[g.r.N(len(pieces))])
		}
		return sb.String()
	}
	return fmt.Sprintf("%016x", g.r.U64())[:1+g.r.N(12)]
}

var anyTypes = []string{"bool", "int", "int8", "uint64", "float32", "float64", "string", "string", "bytes",
	"[]any", "[]any", "map[string]any", "map[string]any", "map[int]int", "[]string", "Small", "*Small", "Scalars", "Tags",
	"Ints", "Str", "Node", "*Node", "Both", "MVal", "*MPtr", "*MVal", "MInt", "MMap", "*int", "*string", "Lists", "*Ptrs", "map[string]string",
	"dyn1", "dyn2", "dyn3", "Empty", "Maps", "SelfSlice", "CBStruct", "*any", "map[string]MVal", "Shared1", "Blob", "Dict", "*map[string]int", "*[]int", "*[]any", "[]MVal",
	"Pay", "KeysAll", "Hidden", "twin1", "twin2", "twin3", "twin4", "twin5", "twin6", "twin7", "twin8", "twin9", "twin10", "Gen[any]", "[]B8", "CBOdd", "MFunc", "MStr", "EmbV", "EmbP", "map[MInt]MStr", "MArr", "[]Any", "MNone", "*MNoneP", "CBNone", "Opt", "*Opt", "*MStr", "*MInt", "*MArr", "[]*MStr", "map[string]*MMap", "map[MStr]any", "map[MStr]int", "map[MInt]any", "CBPtrs", "CBKeys"}

func (g *gen) any() reflect.Value {
	g.left--
	if g.left < 0 || g.r.P(1, 12) {
		return reflect.Value{}
	}
	if g.wild && g.r.P(1, 40-g.r.N(36)) {
		switch g.r.N(14) {
		case 0:
			return reflect.ValueOf([2]int{1, 2})
		case 1:
			return reflect.ValueOf(make(chan int))
		case 2:
			return reflect.ValueOf(complex(1, 2))
		case 3:
			return reflect.ValueOf(uintptr(7))
		case 4:
			return reflect.ValueOf(map[float64]int{1.5: 1})
		case 5:
			return reflect.ValueOf(BadChan{A: 1})
		case 6:
			return reflect.ValueOf(func() {})
		case 7:
			return reflect.ValueOf([]chan int{nil})
		case 8:
			return reflect.ValueOf([3]any{1, "a"})
		case 9:
			return reflect.ValueOf(complex64(3))
		case 10:
			return reflect.ValueOf(map[bool]string{true: "t"})
		case 11:
			return reflect.ValueOf(map[string]uintptr{"a": 1})
		case 12:
			return reflect.ValueOf([]map[Small]int{{Small{}: 1}})
		case 13:
			return reflect.ValueOf(&BadFunc{S: "b"})
		}
	}
	if g.keys != nil && g.r.P(2, 3) {
		// maps in maps
		t := byN[[]string{"map[string]any", "map[string]any", "map[int]any", "[]any", "map[string]string", "map[int]int", "string"}[g.r.N(7)]]
		return g.val(t.T, 3)
	}
	if g.r.P(1, 3) {
		n := anyTypes[g.r.N(8)]
		return g.val(byN[n].T, 3)
	}
	if g.r.P(1, 7) {
		n := g.r.N(maxComp)
		if t := comps[n]; t.Kind() != reflect.Array && !(g.noCB && compCB[n]) {
			return g.val(t, 3)
		}
	}
	t := byN[anyTypes[g.r.N(len(anyTypes))]]
	if g.noCB && t.MCB && !t.Any {
		t = byN["string"]
	}
	return g.val(t.T, 3)
}

func (g *gen) count() int {
	if g.left <= 0 {
		return 0
	}
	n := g.r.N(4)
	switch g.r.N(12) {
	case 0:
		n = 9 + g.r.N(5)
	case 1:
		n = 0
	case 2, 3:
		if g.left > 120 {
			n = 15 + g.r.N(50)
		}
	}
	if n > g.left {
		n = g.left
	}
	return n
}

var (
	tMVal     = reflect.TypeOf(MVal{})
	tMPtr     = reflect.TypeOf(MPtr{})
	tMInt     = reflect.TypeOf(MInt(0))
	tMPInt    = reflect.TypeOf(MPInt(0))
	tMMap     = reflect.TypeOf(MMap(nil))
	tMSlice   = reflect.TypeOf(MSlice(nil))
	tBoth     = reflect.TypeOf(Both{})
	tUCopy    = reflect.TypeOf(UCopy{})
	tUKeep    = reflect.TypeOf(UKeep{})
	tUAcc     = reflect.TypeOf(UAcc{})
	tUInt     = reflect.TypeOf(UInt(0))
	tUFlag    = reflect.TypeOf(UFlag(false))
	tUStr     = reflect.TypeOf(UStr(""))
	tStringer = reflect.TypeOf((*fmt.Stringer)(nil)).Elem()
	tUnm      = reflect.TypeOf((*php.Unmarshaler)(nil)).Elem()
	tBytes    = reflect.TypeOf([]byte(nil))
)

func (g *gen) val(t reflect.Type, depth int) reflect.Value {
	v := reflect.New(t).Elem()
	g.left--
	switch t {
	case tMVal:
		v.Set(reflect.ValueOf(MVal{g.nextID()}))
		return v
	case tMPtr:
		v.Set(reflect.ValueOf(MPtr{g.nextID()}))
		return v
	case tBoth:
		v.Set(reflect.ValueOf(Both{g.nextID()}))
		return v
	case tMInt:
		v.SetInt(int64(g.nextID()))
		return v
	case tMPInt:
		v.SetInt(int64(g.nextID()))
		return v
	case tMMap:
		if g.r.P(7, 8) {
			v.Set(reflect.ValueOf(MMap{"id": g.nextID()}))
		}
		return v
	case tMSlice:
		if g.r.P(7, 8) {
			v.Set(reflect.ValueOf(MSlice{g.nextID(), 1, 2}))
		}
		return v
	}
	if g.odd(v) {
		return v
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(g.r.P(1, 2))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if g.r.P(6, 7) {
			v.SetInt(g.int(t.Bits()))
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if g.r.P(6, 7) {
			v.SetUint(g.uint(t.Bits()))
		}
	case reflect.Float32:
		f := g.float()
		if math.Abs(f) > math.MaxFloat32 && !math.IsInf(f, 0) {
			f = 2.5
		}
		v.SetFloat(float64(float32(f)))
	case reflect.Float64:
		v.SetFloat(g.float())
	case reflect.String:
		v.SetString(g.str())
	case reflect.Ptr:
		if depth <= 0 || g.r.P(1, 4) || g.left < 0 {
			return v
		}
		p := reflect.New(t.Elem())
		p.Elem().Set(g.val(t.Elem(), depth-1))
		v.Set(p)
	case reflect.Slice:
		if g.r.P(1, 10) {
			return v
		}
		if t.Elem().Kind() == reflect.Uint8 {
			s := g.str()
			b := reflect.MakeSlice(t, len(s), len(s)+g.spareCap())
			for i := 0; i < len(s); i++ {
				b.Index(i).SetUint(uint64(s[i]))
			}
			g.keep(b)
			v.Set(b)
			return v
		}
		n := g.count()
		if depth <= 0 {
			n = 0
		}
		s := reflect.MakeSlice(t, n, n+g.spareCap())
		for i := 0; i < n; i++ {
			s.Index(i).Set(g.val(t.Elem(), depth-1))
		}
		g.keep(s)
		v.Set(s)
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			v.Index(i).Set(g.val(t.Elem(), depth-1))
		}
	case reflect.Map:
		if g.r.P(1, 10) {
			return v
		}
		n := g.count()
		if g.keys != nil && g.left > 0 {
			n = min(g.r.N(6), g.left)
		}
		if depth <= 0 {
			n = 0
		}
		m := reflect.MakeMap(t)
		for i := 0; i < n; i++ {
			var k reflect.Value
			if t.Key().Kind() == reflect.Interface {
				k = reflect.New(t.Key()).Elem()
				if g.r.P(1, 2) {
					k.Set(reflect.ValueOf(g.str()))
				} else {
					k.Set(reflect.ValueOf(g.int(64)))
				}
			} else {
				k = g.key(t.Key())
				if k.CanFloat() && math.IsNaN(k.Float()) {
					k.SetFloat(1)
				}
			}
			m.SetMapIndex(k, g.val(t.Elem(), depth-1))
		}
		v.Set(m)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if !f.IsExported() {
				continue
			}
			tag := f.Tag.Get("php")
			if strings.Contains(tag, "omitempty") && g.r.P(1, 3) {
				continue
			}
			if f.Type.Kind() == reflect.Interface && strings.Contains(tag, ",string") {
				v.Field(i).Set(g.scalarAny())
				continue
			}
			v.Field(i).Set(g.val(f.Type, depth-1))
		}
	case reflect.Interface:
		var x reflect.Value
		switch {
		case t.NumMethod() == 0:
			x = g.any()
		case t == tStringer:
			if g.r.P(1, 3) {
				x = reflect.ValueOf(Named{g.str()})
			}
		case t == mtype:
			switch g.r.N(9) {
			case 0:
			case 1:
				x = reflect.ValueOf((*MVal)(nil))
			case 2:
				x = reflect.ValueOf(MInt(g.nextID()))
			case 3:
				x = reflect.ValueOf(&MPtr{g.nextID()})
			case 4:
				x = reflect.ValueOf(MMap{"id": g.nextID()})
			case 5:
				x = reflect.ValueOf(&MVal{g.nextID()})
			case 6:
				x = reflect.ValueOf(MSlice{g.nextID()})
			default:
				x = reflect.ValueOf(MVal{g.nextID()})
			}
		case t == tUnm:
			switch g.r.N(5) {
			case 0:
			case 1:
				x = reflect.ValueOf(&UKeep{[]byte(g.str())})
			case 2:
				x = reflect.ValueOf(&UAcc{g.r.N(9), g.str()})
			default:
				x = reflect.ValueOf(&UCopy{g.str()})
			}
		}
		if x.IsValid() {
			v.Set(x)
		}
	}
	return v
}

func (g *gen) scalarAny() reflect.Value {
	v := reflect.New(reflect.TypeOf((*any)(nil)).Elem()).Elem()
	var x any
	switch g.r.N(8) {
	case 0:
		return v
	case 1:
		x = int(g.int(64))
	case 2:
		x = g.r.P(1, 2)
	case 3:
		x = float64(g.r.N(1000)) / 8
	case 4:
		x = uint8(g.uint(8))
	case 5:
		n := int16(g.int(16))
		x = &n
	case 6:
		x = uint64(g.uint(64))
	default:
		x = float32(g.r.N(1000)) / 4
	}
	v.Set(reflect.ValueOf(x))
	return v
}

func (g *gen) spareCap() int {
	if !g.spare || g.r.P(1, 2) {
		return 0
	}
	return 1 + g.r.N(8)
}

// keep remembers a slice up to its capacity, filling the spare part.
func (g *gen) keep(s reflect.Value) {
	if s.Cap() == s.Len() {
		return
	}
	full := s.Slice(0, s.Cap())
	for i := s.Len(); i < s.Cap(); i++ {
		e := full.Index(i)
		switch {
		case e.CanInt():
			e.SetInt(77)
		case e.CanUint():
			e.SetUint(77)
		case e.Kind() == reflect.String:
			e.SetString("spare")
		}
	}
	g.extra = append(g.extra, full)
}

// cyclic builds values which refer to themselves, or which look as if.
func cyclic(kind string, n int, seed uint64) any {
	r := simrt.NewRng(seed)
	if n < 1 {
		n = 1
	}
	ring := func(open bool) *Ring {
		head := &Ring{Name: "0"}
		cur := head
		for i := 1; i < n; i++ {
			x := &Ring{Name: fmt.Sprint(i)}
			switch r.N(12) {
			case 5:
				cur.ArrS[0] = []*Ring{x}
			case 6:
				cur.SArr = [][1]*Ring{{}, {x}}
			case 7:
				cur.MS = map[string][]*Ring{"l": {x, nil}}
			case 8:
				cur.PS = &[]*Ring{x}
			case 9:
				cur.AL = []any{1, x}
			case 10:
				cur.MA = map[string]any{"m": []any{map[string]any{"x": x}}}
			case 11:
				l := make([]Ring, 1+r.N(2))
				x = &l[len(l)-1]
				x.Name = fmt.Sprint(i)
				cur.Vals = l
			case 0:
				cur.Any = x
			case 1:
				cur.List = []*Ring{nil, x}
			case 2:
				cur.Map = map[string]*Ring{"k": x}
			case 3:
				cur.Arr[0] = x
			default:
				cur.Next = x
			}
			cur = x
		}
		if !open {
			switch r.N(11) {
			case 5:
				cur.ArrS[0] = []*Ring{head}
			case 6:
				cur.SArr = [][1]*Ring{{head}}
			case 7:
				cur.MS = map[string][]*Ring{"l": {head}}
			case 8:
				cur.PS = &[]*Ring{head}
			case 9:
				cur.AL = []any{head}
			case 10:
				cur.MA = map[string]any{"m": head}
			case 0:
				cur.Any = head
			case 1:
				cur.List = []*Ring{head}
			case 2:
				cur.Map = map[string]*Ring{"c": head}
			case 3:
				cur.Arr[0] = head
			default:
				cur.Next = head
			}
		}
		return head
	}
	switch kind {
	case "ring":
		return ring(false)
	case "ringval":
		x := ring(false)
		return *x
	case "chain": // deep, not cyclic
		return ring(true)
	case "next":
		h := &Node{Val: 1}
		c := h
		for i := 1; i < n; i++ {
			c.Next = &Node{Val: i}
			c = c.Next
		}
		c.Next = h
		return h
	case "nextopen":
		h := &Node{Val: 1}
		c := h
		for i := 1; i < n; i++ {
			c.Next = &Node{Val: i}
			c = c.Next
		}
		return h
	case "nextbig":
		// does not fit into a new buffer well before the end
		h := &Ring{Name: strings.Repeat("n", 40)}
		c := h
		for i := 1; i < n; i++ {
			c.Next = &Ring{Name: strings.Repeat("n", 40)}
			c = c.Next
		}
		return h
	case "kids": // cycle through a slice of structs
		l := make([]Node, 1)
		l[0].Val = 5
		cur := l
		for i := 1; i < n; i++ {
			nx := make([]Node, 1)
			cur[0].Kids = nx
			cur = nx
		}
		cur[0].Kids = l
		return l
	case "anyslice":
		l := make([]any, 1+r.N(3))
		cur := l
		for i := 1; i < n; i++ {
			nx := make([]any, 1+r.N(2))
			cur[len(cur)-1] = nx
			cur = nx
		}
		cur[len(cur)-1] = l
		return l
	case "anysliceopen":
		l := make([]any, 1)
		cur := l
		for i := 1; i < n; i++ {
			nx := make([]any, 1)
			cur[0] = nx
			cur = nx
		}
		cur[0] = "end"
		return l
	case "anymap":
		m := map[string]any{"a": 1}
		cur := m
		for i := 1; i < n; i++ {
			nx := map[string]any{"b": i}
			cur["n"] = nx
			cur = nx
		}
		cur["self"] = m
		return m
	case "anymapopen":
		m := map[string]any{}
		cur := m
		for i := 1; i < n; i++ {
			nx := map[string]any{}
			cur["n"] = nx
			cur = nx
		}
		return m
	case "selfslice":
		s := make(SelfSlice, 1)
		cur := s
		for i := 1; i < n; i++ {
			nx := make(SelfSlice, 1)
			cur[0] = nx
			cur = nx
		}
		cur[0] = s
		return s
	case "selfsliceopen":
		s := make(SelfSlice, 1)
		cur := s
		for i := 1; i < n; i++ {
			nx := make(SelfSlice, 1)
			cur[0] = nx
			cur = nx
		}
		return s
	case "selfmap":
		m := SelfMap{}
		cur := m
		for i := 1; i < n; i++ {
			nx := SelfMap{}
			cur["x"] = nx
			cur = nx
		}
		cur["x"] = m
		return m
	case "selfptr":
		p := &SelfPtr{}
		cur := p
		for i := 1; i < n; i++ {
			cur.P = &SelfPtr{}
			cur = cur.P
		}
		cur.P = p
		return p
	case "ptrarr":
		p := &PtrArr{}
		cur := p
		for i := 1; i < n; i++ {
			cur[0] = &PtrArr{}
			cur = cur[0]
		}
		cur[0] = p
		return p
	case "arrslice", "arrsliceopen":
		s := make(ArrSlice, 1+r.N(2))
		cur := s
		for i := 1; i < n; i++ {
			nx := make(ArrSlice, 1+r.N(2))
			cur[len(cur)-1][0] = nx
			cur = nx
		}
		if kind == "arrslice" {
			cur[len(cur)-1][0] = s
		}
		return s
	case "arrmap", "arrmapopen":
		m := ArrMap{}
		cur := m
		for i := 1; i < n; i++ {
			nx := ArrMap{}
			cur["k"] = [2]ArrMap{nil, nx}
			cur = nx
		}
		if kind == "arrmap" {
			cur["k"] = [2]ArrMap{m, nil}
		}
		return m
	case "strslice", "strsliceopen":
		s := make(StrSlice, 1)
		cur := s
		for i := 1; i < n; i++ {
			nx := make(StrSlice, 1)
			cur[0].L = nx
			cur = nx
		}
		if kind == "strslice" {
			cur[0].L = s
		}
		return s
	case "strmap", "strmapopen":
		m := StrMap{}
		cur := m
		for i := 1; i < n; i++ {
			nx := StrMap{}
			cur["k"] = struct{ M StrMap }{nx}
			cur = nx
		}
		if kind == "strmap" {
			cur["k"] = struct{ M StrMap }{m}
		}
		return m
	case "ptrslice", "ptrsliceopen":
		s := make(PtrSlice, 1)
		head := &s
		cur := head
		for i := 1; i < n; i++ {
			nx := make(PtrSlice, 1)
			(*cur)[0] = &nx
			cur = &nx
		}
		if kind == "ptrslice" {
			(*cur)[0] = head
		}
		return head
	case "ptrmap", "ptrmapopen":
		head := &PtrMap{}
		cur := head
		for i := 1; i < n; i++ {
			nx := &PtrMap{}
			(*cur)["p"] = nx
			cur = nx
		}
		if kind == "ptrmap" {
			(*cur)["p"] = head
		}
		return head
	case "anymix", "anymixopen":
		// containers of several kinds in interfaces
		type box = AnyBox
		head := &box{}
		cur := head
		for i := 1; i < n; i++ {
			nx := &box{}
			var x any = nx
			for k := r.N(4); k > 0; k-- {
				switch r.N(5) {
				case 0:
					x = []any{x}
				case 1:
					x = map[string]any{"k": x}
				case 2:
					y := x
					x = &y
				case 3:
					x = map[int]any{7: x}
				default:
					x = &[]any{nil, x}
				}
			}
			cur.V = x
			if r.N(3) == 0 {
				cur.V, cur.L = nil, []any{x}
			} else if r.N(3) == 0 {
				cur.V, cur.M = nil, map[string]any{"m": x}
			}
			cur = nx
		}
		if kind == "anymix" {
			cur.P = new(any)
			*cur.P = []any{head}
		}
		return head
	case "anyptr":
		var x any
		x = &x
		return x
	case "anyptrs":
		head := new(any)
		cur := head
		for i := 1; i < n; i++ {
			nx := new(any)
			*cur = nx
			cur = nx
		}
		*cur = head
		return head
	case "mapslice":
		m := MapSlice{}
		m["a"] = []MapSlice{{}, m}
		return m
	case "dag": // shared, not cyclic
		leaf := &Node{Val: 7}
		l := make([]*Node, 0, n)
		for i := 0; i < n%200+2; i++ {
			l = append(l, leaf)
		}
		return map[string]any{"l": l, "m": leaf, "n": []any{leaf, leaf}, "o": map[string]*Node{"a": leaf, "b": leaf}}
	case "dagslice":
		s := []any{1, "x"}
		m := map[string]any{"k": s}
		return []any{s, s, m, m, []any{m, s, m}, s[:1], s[:0]}
	case "diamond": // sharing at every level, below a deep chain
		var leaf any = &Small{ID: 1, Name: "leaf"}
		for i := 0; i < 5; i++ {
			leaf = []any{leaf, leaf}
		}
		for i := 0; i < n; i++ {
			leaf = []any{leaf}
		}
		return leaf
	case "deepshare": // the same pointers met again below depth 1000
		sh := &Node{Val: 3, Next: &Node{Val: 4}, Kids: []Node{{Val: 1}, {Val: 2}}, ByN: map[string]*Node{"q": {Val: 8}}}
		end := &Node{Val: 9, Kids: []Node{{Next: sh}, {Next: sh}}, ByN: map[string]*Node{"a": sh, "b": sh}}
		h := end
		for i := 0; i < n; i++ {
			h = &Node{Val: i, Next: h}
		}
		return h
	case "cbslice", "cbmap", "cbring", "cbmix":
		// callbacks at the end of nested containers
		leaf := any([]any{MVal{int(seed % 900000)}, &MPtr{int(seed%900000) + 1}, 1})
		if kind == "cbring" {
			h := &Ring{Name: "end", Any: leaf}
			for i := 0; i < n; i++ {
				x := &Ring{Name: "x"}
				switch r.N(4) {
				case 0:
					x.Next = h
				case 1:
					x.List = []*Ring{h}
				case 2:
					x.Map = map[string]*Ring{"k": h}
				default:
					x.Any = h
				}
				h = x
			}
			return h
		}
		for i := 0; i < n; i++ {
			k := 0
			if kind == "cbmap" {
				k = 1
			} else if kind == "cbmix" {
				k = r.N(4)
			}
			switch k {
			case 1:
				leaf = map[string]any{"k": leaf}
			case 2:
				leaf = &AnyBox{V: leaf}
			case 3:
				x := leaf
				leaf = &x
			default:
				leaf = []any{leaf}
			}
		}
		return leaf
	case "uchain":
		h := &URec{U: UKeep{[]byte("end")}, A: 7}
		for i := 0; i < n; i++ {
			x := &URec{A: i}
			switch r.N(6) {
			case 0:
				x.L = []URec{*h, {A: 1}}
			case 1:
				x.M = map[string]URec{"k": *h}
			case 2:
				x.P = [1]*URec{h}
			case 3:
				x.U.Raw = []byte(strconv.Itoa(i))
				x.Next = h
			default:
				x.Next = h
			}
			h = x
		}
		return h
	case "self", "selfopen":
		return self(n, seed, kind == "self")
	case "huge":
		return huge(n, seed)
	case "composed":
		g := newGen(seed, 4)
		return g.val(compType(n), 3).Interface()
	case "large":
		return large(seed)
	case "sized":
		// lengths decide everything here
		var l []any
		if seed%3 == 0 {
			k := n % 151 * 6
			return []any{make([]int, k), make([]any, k+1), make([]Small, k/3), make([]bool, k+3), make([]string, k+4), make([]*int, k+5)}
		}
		for i := 1 + r.N(2); i > 0; i-- {
			switch r.N(7) {
			case 0:
				l = append(l, make([]int, n))
			case 1:
				l = append(l, strings.Repeat("s", n))
			case 2:
				m := make(map[int]int, n)
				for k := 0; k < n; k++ {
					m[k] = k
				}
				l = append(l, m)
			case 3:
				l = append(l, make([]any, n))
			case 4:
				l = append(l, make([]Small, n))
			case 5:
				m := make(map[string]any, n)
				for k := 0; k < n; k++ {
					m[strconv.Itoa(k)+"k"] = nil
				}
				l = append(l, m)
			default:
				l = append(l, make([]string, n))
			}
		}
		return l
	case "numset":
		m := make(map[int]uint64, n)
		for i := 0; i < n; i++ {
			m[int(r.U64())] = r.U64()
		}
		return m
	case "floats":
		l := make([]float64, n)
		for i := range l {
			l[i] = float64(r.U64()) / float64(1+r.N(1<<30))
		}
		return l
	case "names", "nameset", "namelist":
		// strings which no other call has seen
		name := func() string {
			return strconv.FormatUint(r.U64()|1<<63, 36)[:3+r.N(9)]
		}
		if kind == "namelist" {
			l := make([]string, n)
			for i := range l {
				l[i] = name()
			}
			return l
		}
		if kind == "nameset" {
			m := make(map[string]int, n)
			for i := 0; i < n; i++ {
				m[name()] = i
			}
			return m
		}
		m := make(map[string]string, n)
		for i := 0; i < n; i++ {
			m[name()] = name()
		}
		return m
	case "subslice":
		// elements which contain a part of the list they are in; ends
		l := make([]Node, 4)
		l[0].Kids = l[1:]
		l[1].Kids = l[2:]
		l[2].Kids = l[3:]
		h := &Node{Kids: l}
		for i := 0; i < n; i++ {
			h = &Node{Val: i, Next: h}
		}
		return h
	case "prefix", "prefixcyc", "selfprefix", "nodeprefix":
		// lists which contain shorter lists of the same address; with "cyc"
		// one of them contains itself
		k := 2 + r.N(4)
		var v any
		switch kind {
		case "selfprefix":
			l := make(SelfSlice, k)
			for i := 1; i < k; i++ {
				l[i] = l[:r.N(i+1)]
			}
			v = l
		case "nodeprefix":
			l := make([]Node, k)
			for i := 1; i < k; i++ {
				l[i].Kids = l[:r.N(i+1)]
				l[i].Val = i
			}
			v = l
		default:
			l := make([]any, k)
			for i := 0; i < k; i++ {
				p := l[:r.N(i+1)]
				l[i] = p
				switch r.N(6) {
				case 0:
					l[i] = i
				case 1:
					l[i] = map[string]any{"p": p, "q": p}
				case 2:
					l[i] = []any{p, p}
				case 3:
					l[i] = AnyBox{V: p}
				case 4:
					l[i] = &AnyBox{V: &p}
				}
			}
			if kind == "prefixcyc" {
				i := r.N(k)
				l[i] = l[:i+1+r.N(k-i)]
			}
			v = l
		}
		for i := 0; i < n-1; i++ {
			if r.N(3) == 0 {
				v = map[string]any{"n": v}
			} else {
				v = []any{v}
			}
		}
		return v
	}
	panic("world: cyclic kind " + kind)
}

var cyclicKinds = []string{"ring", "ringval", "next", "kids", "anyslice", "anymap", "selfslice", "selfmap", "selfptr", "ptrarr", "anyptr", "anyptrs", "mapslice", "ring", "ringval", "arrslice", "arrmap", "strslice", "strmap", "ptrslice", "ptrmap", "anymix", "prefixcyc", "self", "self", "self", "self", "self"}
var acyclicKinds = []string{"chain", "nextopen", "nextbig", "anysliceopen", "anymapopen", "selfsliceopen", "dag", "dagslice", "diamond", "deepshare", "subslice", "chain", "arrsliceopen", "arrmapopen", "strsliceopen", "strmapopen", "ptrsliceopen", "ptrmapopen", "anymixopen", "selfopen", "selfopen", "selfopen", "prefix", "prefix", "selfprefix", "nodeprefix"}

// linearKinds take time in proportion to their depth.
var linearKinds = []string{"anysliceopen", "anymapopen", "selfsliceopen", "anysliceopen", "selfsliceopen"}
var variedKinds = []string{"sized", "names", "nameset", "namelist", "numset", "floats"}
var cbKinds = []string{"cbslice", "cbmap", "cbring", "cbmix"}
