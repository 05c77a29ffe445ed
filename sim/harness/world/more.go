package world

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"

	php "github.com/trim21/go-phpserialize"
	"github.com/trim21/go-phpserialize/internal/verifsim/simrt"
)

// Types of unusual make: names of bytes and of interfaces, types which share
// their name, generic types, callbacks on every kind and by promotion.

type (
	B8  byte
	Any any
	SP  *Small
	Pay struct {
		A []B8 `php:"a"`
		B map[string][]B8
		C [4]byte
		D *[3]B8
		E Any
		F []Any
		G map[string]Any
		H SP
		I struct {
			X int
			Y struct{ Z []string }
		}
		J []*[]int
		K []*map[string]int
		L map[string]*string
		M *[]*int
		N []byte `php:"n,omitempty"`
		O map[B8]B8
		P map[string]struct{}
		Q []struct{}
		R *struct{}
		S [0]string
		T []*[]byte
		V map[int][2][]byte
		W *[]byte
	}
	unexported struct{ X int }
	Hidden     struct {
		unexported
		a int
		B *Hidden
		c []Hidden
		D string `php:"-,"`
		E string `php:"e é,omitempty,string"`
		F int    `php:"a\"b"`
		G int    `php:",unknown"`
		H int8   `php:"h, omitempty"`
	}
	Gen[T any] struct {
		V T
		L []T `php:"l"`
		M map[string]T
		P *Gen[T]
	}
	EmbPtr struct {
		*Small
		X int
	}
	KeysAll struct {
		A map[int8]int
		B map[int16]string
		C map[int32]int
		D map[int64]bool
		E map[uint]int
		F map[uint8]int
		G map[uint16]int
		H map[uint32]int
		I map[uint64]string
		J map[Int]int
		K map[B8]int
		L map[U16]any
		M map[Str]any
	}
)

func twin1() reflect.Type {
	type Twin struct {
		A int
		B string `php:"b"`
	}
	return reflect.TypeOf(Twin{})
}

func twin2() reflect.Type {
	type Twin struct {
		A int
		B string `php:"c"`
	}
	return reflect.TypeOf(Twin{})
}

func twin3() reflect.Type {
	type Twin struct {
		A string
		B []Twin `php:"b"`
	}
	return reflect.TypeOf(Twin{})
}

func twin4() reflect.Type {
	type Twin []int
	return reflect.TypeOf(Twin{})
}

func twin5() reflect.Type {
	type Twin map[string]uint8
	return reflect.TypeOf(Twin{})
}

func twin6() reflect.Type {
	type Twin uint16
	return reflect.TypeOf(Twin(0))
}

func twin7() reflect.Type {
	type Twin struct {
		A int
		B string `php:"b,omitempty"`
		C *Twin
	}
	return reflect.TypeOf(Twin{})
}

func twin8() reflect.Type {
	type Twin struct {
		A int `php:"a"`
		B string
		C bool
		D string `php:"d"`
	}
	return reflect.TypeOf(Twin{})
}

func twin9() reflect.Type {
	type Twin struct {
		A int    `php:"a"`
		B string `php:"b"`
		C bool   `php:"c"`
		D string `php:"d"`
	}
	return reflect.TypeOf(Twin{})
}

func twin10() reflect.Type {
	type Twin struct {
		A int    `php:"a"`
		B []byte `php:"b,omitempty"`
		D string `php:"d"`
	}
	return reflect.TypeOf(Twin{})
}

func twin11() reflect.Type {
	type Twin struct {
		A int    `php:"a"`
		B []int  `php:"b"`
		D string `php:"d"`
	}
	return reflect.TypeOf(Twin{})
}

var twins = []func() reflect.Type{twin1, twin2, twin3, twin4, twin5, twin6, twin7, twin8, twin9, twin10, twin11}

var twinNames = []string{"twin1", "twin2", "twin3", "twin4", "twin5", "twin6", "twin7", "twin8", "twin9", "twin10", "twin11"}

// typeText names a type; the twins all have the same String.
func typeText(t reflect.Type) string {
	b := t
	for b.Kind() == reflect.Ptr {
		b = b.Elem()
	}
	if b.Name() == "Twin" {
		for _, n := range twinNames {
			if byN[n].T == b {
				return t.String() + " " + n
			}
		}
	}
	return t.String()
}

// ---- callbacks ------------------------------------------------------------

// MArr, MFunc, MChan, MBool, MStr: receivers of other kinds.
type MArr [2]int

func (m MArr) MarshalPHP() ([]byte, error) { return cbMarshal(m.cbID()) }
func (m MArr) cbID() int                   { return m[1] }

type MFunc func() int

func (m MFunc) MarshalPHP() ([]byte, error) { return cbMarshal(m.cbID()) }
func (m MFunc) cbID() int {
	if m == nil {
		return -6
	}
	return m()
}

type MChan chan int

func (m MChan) MarshalPHP() ([]byte, error) { return cbMarshal(m.cbID()) }
func (m MChan) cbID() int {
	if m == nil {
		return -7
	}
	return 1000 + cap(m)
}

type MStr string

func (m MStr) MarshalPHP() ([]byte, error) { return cbMarshal(m.cbID()) }
func (m MStr) cbID() int                   { return int(simhash(string(m)) % 30_000_000) }

type MBytes []byte

func (m MBytes) MarshalPHP() ([]byte, error) { return cbMarshal(m.cbID()) }
func (m MBytes) cbID() int {
	if m == nil {
		return -8
	}
	return int(simhash(string(m)) % 30_000_000)
}

func simhash(s string) uint64 {
	var h uint64 = 14695981039346656037
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// EmbV and EmbP have their method from a field.
type EmbV struct {
	MVal
	X int
}

type EmbP struct {
	*MPtr
	X string
}

type CBOdd struct {
	A MArr
	F MFunc
	C MChan
	S MStr
	Y MBytes
	E EmbV
	P EmbP
	Q *EmbV
	G *MFunc `php:"g"`
	L []MFunc
	M map[string]MChan
	N map[MStr]MArr
	O map[MInt]MStr
	R []MBytes
	T [2]MBool `php:"t"`
	V any
	U MArr   `php:"u,omitempty"`
	W *MStr  `php:"w,omitempty"`
	X MFunc  `php:"x,omitempty"`
	Z []MArr `php:"z"`
}

type MBool bool

func (m MBool) MarshalPHP() ([]byte, error) { return cbMarshal(m.cbID()) }
func (m MBool) cbID() int {
	if m {
		return 1
	}
	return 0
}

// Opt has optional fields of all kinds.
type Opt struct {
	A *bool             `php:"a,omitempty"`
	B *int              `php:"b,omitempty"`
	C *string           `php:"c,omitempty"`
	D *float64          `php:"d,omitempty"`
	E *[]byte           `php:"e,omitempty"`
	F *Small            `php:"f,omitempty"`
	G *[]int            `php:"g,omitempty"`
	H *map[string]int   `php:"h,omitempty"`
	I *[2]bool          `php:"i,omitempty"`
	J any               `php:"j,omitempty"`
	K *uint8            `php:"k,omitempty"`
	L *Str              `php:"l,omitempty"`
	M map[string]*bool  `php:"m,omitempty"`
	N []*bool           `php:"n,omitempty"`
	O [2]*int           `php:"o,omitempty"`
	P Small             `php:"p,omitempty"`
	Q [2]string         `php:"q,omitempty"`
	R bool              `php:"r,omitempty"`
	S float32           `php:"s,omitempty"`
	T []byte            `php:"t,omitempty"`
	U *Empty            `php:"u,omitempty"`
	V *any              `php:"v,omitempty"`
	W *Opt              `php:"w,omitempty"`
	X struct{ A *bool } `php:"x,omitempty"`
}

// CBPtrs points at receivers which are no structs.
type CBPtrs struct {
	A *MInt
	B *MStr `php:"b"`
	C *MArr
	D []*MStr `php:"d"`
	E [2]*MInt
	F map[string]*MMap
	G *MFunc `php:"g,omitempty"`
	H []*MSlice
	I map[int]*MFunc
	J any
	K php.Marshaler
	L map[MStr]*MStr
}

// CBKeys has keys which have a MarshalPHP of their own, which keys never use.
type CBKeys struct {
	A map[MStr]any
	B map[MInt]int
	C any
	D []any
	E map[MStr]map[MInt]any
	F any `php:"f,omitempty"`
}

// MNone, MNoneP, MZero, UNone: receivers without any state of their own. What they
// produce or take is a matter of the call alone.
type MNone struct{}

func (m MNone) MarshalPHP() ([]byte, error) { return cbMarshal(m.cbID()) }
func (m MNone) cbID() int                   { return -21 }

type MNoneP struct{}

func (m *MNoneP) MarshalPHP() ([]byte, error) { return cbMarshal(m.cbID()) }
func (m *MNoneP) cbID() int {
	if m == nil {
		return -23
	}
	return -22
}

type MZero [0]string

func (m MZero) MarshalPHP() ([]byte, error) { return cbMarshal(m.cbID()) }
func (m MZero) cbID() int                   { return -24 }

type UNone struct{}

func (u *UNone) UnmarshalPHP(b []byte) error {
	_, err := cbUnmarshal(b, false)
	return err
}

type CBNone struct {
	A MNone
	B []MNone
	C map[string]MNone
	D any
	E *MNone
	F []*MNone
	P MNoneP
	Q *MNoneP
	L []MNoneP
	R []*MNoneP
	Z [3]MZero `php:"z"`
	Y MZero    `php:"y,omitempty"`
	M []any
}

type UNones struct {
	A UNone
	B []UNone
	C map[string]UNone
	D *UNone
	E map[int]*UNone
	F [3]UNone `php:"f"`
	G []*UNone
}

// UBytes, UMap, UList, UArr, UFloat: receivers of other kinds.
type UBytes []byte

func (u *UBytes) UnmarshalPHP(b []byte) error {
	s, err := cbUnmarshal(b, false)
	if err == nil {
		*u = append((*u)[:0], s...)
	}
	return err
}

type UMap map[string]string

func (u *UMap) UnmarshalPHP(b []byte) error {
	s, err := cbUnmarshal(b, false)
	if err == nil {
		if *u == nil {
			*u = UMap{}
		}
		(*u)["raw"] += s
	}
	return err
}

type UList []string

func (u *UList) UnmarshalPHP(b []byte) error {
	s, err := cbUnmarshal(b, false)
	if err == nil {
		*u = append(*u, s)
	}
	return err
}

type UArr [2]string

func (u *UArr) UnmarshalPHP(b []byte) error {
	s, err := cbUnmarshal(b, false)
	if err == nil {
		u[0], u[1] = u[0]+s, "set"
	}
	return err
}

type UFloat float64

func (u *UFloat) UnmarshalPHP(b []byte) error {
	s, err := cbUnmarshal(b, false)
	if err == nil {
		*u += UFloat(simhash(s) % 1e9)
	}
	return err
}

type UEmb struct {
	UCopy
	X int
}

type UOdd struct {
	A UBytes
	B UMap
	C UList
	D UArr
	E UFloat
	F *UBytes
	G []UMap
	H map[string]UList
	I []*UArr
	J map[UArr]UFloat
	K [2]UList
	L map[string]*UMap
	M *UFloat `php:"m"`
	N UEmb
	O *UEmb
	Z []byte
}

var (
	tMArr   = reflect.TypeOf(MArr{})
	tMFunc  = reflect.TypeOf(MFunc(nil))
	tMChan  = reflect.TypeOf(MChan(nil))
	tMBool  = reflect.TypeOf(MBool(false))
	tEmbV   = reflect.TypeOf(EmbV{})
	tEmbP   = reflect.TypeOf(EmbP{})
	tUBytes = reflect.TypeOf(UBytes(nil))
	tUMap   = reflect.TypeOf(UMap(nil))
	tUList  = reflect.TypeOf(UList(nil))
	tUArr   = reflect.TypeOf(UArr{})
	tUFloat = reflect.TypeOf(UFloat(0))
	tUEmb   = reflect.TypeOf(UEmb{})
	tUNone  = reflect.TypeOf(UNone{})
)

// odd makes values of those types which need it.
func (g *gen) odd(v reflect.Value) bool {
	switch v.Type() {
	case tMArr:
		v.Set(reflect.ValueOf(MArr{7, g.nextID()}))
	case tMFunc:
		if g.r.P(3, 4) {
			v.Set(reflect.ValueOf(funcFor(g.nextID())))
		}
	case tMChan:
		if g.r.P(3, 4) {
			v.Set(reflect.ValueOf(chanFor(g.nextID() % 500)))
		}
	case tEmbV:
		v.Set(reflect.ValueOf(EmbV{MVal{g.nextID()}, 5}))
	case tEmbP:
		if g.r.P(3, 4) {
			v.Set(reflect.ValueOf(EmbP{&MPtr{g.nextID()}, "x"}))
		}
	default:
		return false
	}
	return true
}

func funcFor(id int) MFunc { return func() int { return id } }

func chanFor(n int) MChan { return make(MChan, n) }

// unmarshaledOdd is the model of the UnmarshalPHP methods above.
func unmarshaledOdd(rt reflect.Type, raw []byte) reflect.Value {
	s := string(raw)
	switch rt {
	case tUBytes:
		return reflect.ValueOf(UBytes(append([]byte{}, s...)))
	case tUMap:
		return reflect.ValueOf(UMap{"raw": s})
	case tUList:
		return reflect.ValueOf(UList{s})
	case tUArr:
		return reflect.ValueOf(UArr{s, "set"})
	case tUFloat:
		return reflect.ValueOf(UFloat(simhash(s) % 1e9))
	case tUNone:
		return reflect.ValueOf(UNone{})
	case tUEmb:
		return reflect.ValueOf(UEmb{UCopy: UCopy{s}})
	}
	return reflect.Value{}
}

// ---- composed types -------------------------------------------------------

const (
	numComp = 96  // in the catalogue
	maxComp = 400 // which interfaces may hold
)

var (
	comps  [maxComp]reflect.Type
	compCB [maxComp]bool // has callbacks
)

// compType is some combination of maps, slices, arrays, pointers and structs.
func compType(n int) reflect.Type {
	if n %= maxComp; comps[n] != nil {
		return comps[n]
	}
	r := simrt.NewRng(uint64(n)*104729 + 7)
	leaf := []reflect.Type{
		reflect.TypeOf(false), reflect.TypeOf(0), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
		reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
		reflect.TypeOf(float32(0)), reflect.TypeOf(0.5), reflect.TypeOf(""), reflect.TypeOf([]byte(nil)), reflect.TypeOf(Str("")), reflect.TypeOf(Int(0)),
		reflect.TypeOf(B8(0)), reflect.TypeOf(Small{}), reflect.TypeOf(Empty{}), reflect.TypeOf(Both{}), reflect.TypeOf(Blob(nil)),
		reflect.TypeOf((*any)(nil)).Elem(), reflect.TypeOf((*any)(nil)).Elem(), reflect.TypeOf((*any)(nil)).Elem(), reflect.TypeOf(Node{}), reflect.TypeOf(F32(0)), reflect.TypeOf(Bool(false)),
	}
	keys := append(append([]reflect.Type{}, leaf[1:11]...), reflect.TypeOf(""), reflect.TypeOf(""), reflect.TypeOf(""), reflect.TypeOf(Str("")), reflect.TypeOf(Int(0)), reflect.TypeOf(B8(0)), reflect.TypeOf(U16(0)))
	var mk func(depth int) reflect.Type
	mk = func(depth int) reflect.Type {
		if depth == 0 {
			t := leaf[r.N(len(leaf))]
			compCB[n] = compCB[n] || t.NumMethod() > 0
			return t
		}
		switch r.N(9) {
		case 0, 1, 2:
			return reflect.MapOf(keys[r.N(len(keys))], mk(depth-1))
		case 3, 4:
			return reflect.SliceOf(mk(depth - 1))
		case 5:
			t := mk(depth - 1)
			if t.Kind() == reflect.Ptr {
				return t
			}
			return reflect.PointerTo(t)
		case 6:
			return reflect.ArrayOf(r.N(4), mk(depth-1))
		case 7:
			var fs []reflect.StructField
			for i := 0; i <= r.N(3); i++ {
				f := reflect.StructField{Name: fmt.Sprintf("G%d", i), Type: mk(r.N(depth))}
				f.Tag = reflect.StructTag([]string{"", "", `php:",omitempty"`, `php:"x` + strconv.Itoa(i) + `"`, `php:"` + strconv.Itoa(i) + `,omitempty"`}[r.N(5)])
				if k := f.Type.Kind(); k <= reflect.Float64 && k != reflect.Uintptr && r.P(1, 4) {
					f.Tag = reflect.StructTag(`php:"t` + strconv.Itoa(i) + `,string"`)
				}
				fs = append(fs, f)
			}
			return reflect.StructOf(fs)
		}
		return mk(depth - 1)
	}
	comps[n] = mk(1 + r.N(4))
	return comps[n]
}

// ---- large values ---------------------------------------------------------

var largeTypes = []string{"map[int]int", "map[string]any", "map[string]string", "[]any", "[]int", "[]string", "Maps", "KeysAll", "map[int]any", "AnyBox", "Lists", "map[B8][]byte", "[]map[int]any", "Dict"}

func largeType(seed uint64) string { return largeTypes[seed%uint64(len(largeTypes))] }

// large has containers of some hundreds or thousands of entries.
func large(seed uint64) any {
	r := simrt.NewRng(seed)
	n := []int{255, 256, 257, 300, 511, 512, 513, 640, 999, 1000, 1001, 1023, 1024, 1025, 1500, 2000, 2047, 2048, 2049, 3000, 4096, 4100}[r.N(22)]
	if r.P(1, 3) {
		n = 200 + r.N(2500)
	}
	g := newGen(seed, 1<<30)
	g.noCB = true
	key := func(t reflect.Type, i int) reflect.Value {
		k := reflect.New(t).Elem()
		switch {
		case t.Kind() == reflect.String:
			k.SetString(strconv.Itoa(i) + "k")
			if i%7 == 0 {
				k.SetString(strings.Repeat("k", i%100) + strconv.Itoa(i))
			}
		case k.CanInt():
			k.SetInt(int64(i) - int64(n/2))
			if i < 4 {
				k.SetInt([]int64{math.MinInt64, math.MaxInt64, -1, math.MinInt64 + 1}[i])
			}
		case k.CanUint():
			k.SetUint(uint64(i))
			if i == 0 {
				k.SetUint(math.MaxUint64)
			}
		}
		return k
	}
	var fill func(v reflect.Value, n int)
	elem := func(v reflect.Value, i int) {
		switch {
		case v.Kind() == reflect.Interface && v.NumMethod() == 0:
			v.Set(reflect.ValueOf([]any{i, strconv.Itoa(i), i%2 == 0, float64(i) / 4}[i%4]))
		case v.Kind() == reflect.String:
			v.SetString(strconv.Itoa(i))
		case v.CanInt():
			v.SetInt(int64(i))
		case v.CanUint():
			v.SetUint(uint64(i))
		case v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Uint8:
			v.SetBytes([]byte(strconv.Itoa(i)))
		default:
			g.left = 3
			v.Set(g.val(v.Type(), 2))
		}
	}
	fill = func(v reflect.Value, n int) {
		switch v.Kind() {
		case reflect.Map:
			m := reflect.MakeMapWithSize(v.Type(), n)
			for i := 0; i < n; i++ {
				e := reflect.New(v.Type().Elem()).Elem()
				elem(e, i)
				m.SetMapIndex(key(v.Type().Key(), i), e)
			}
			v.Set(m)
		case reflect.Slice:
			if v.Type().Elem().Kind() == reflect.Map {
				n = 3
			}
			s := reflect.MakeSlice(v.Type(), n, n)
			for i := 0; i < n; i++ {
				if s.Index(i).Kind() == reflect.Map {
					fill(s.Index(i), 700)
				} else {
					elem(s.Index(i), i)
				}
			}
			v.Set(s)
		case reflect.Struct:
			// one or two fields are large
			var l []int
			for i := 0; i < v.NumField(); i++ {
				if k := v.Field(i).Kind(); k == reflect.Map || k == reflect.Slice {
					l = append(l, i)
				}
			}
			for i := 1 + r.N(2); i > 0; i-- {
				fill(v.Field(l[r.N(len(l))]), n)
			}
		}
	}
	v := reflect.New(byN[largeType(seed)].T).Elem()
	fill(v, n)
	if r.P(1, 3) {
		return []any{v.Interface(), "end"}
	}
	return v.Interface()
}

// ---- types which contain themselves, by every way ---------------------------

type (
	RArrF struct {
		V int
		P *[2]RArrF
	}
	RSlF struct {
		P *[]RSlF
		V string
	}
	RMpF struct{ P *map[string]RMpF }
	RAnF struct {
		P *any
		Q *[1]any
	}
	RArA struct{ A [2]*RArA }
	RMpA map[string]*[1]RMpA
	RSlA []*[1]RSlA
	RSlM []map[int]RSlM
	RStM struct {
		M map[int]*RStM
		L [][]*RStM
	}
	RPtS []*struct{ X RPtS }
	RMmm map[string]map[int]map[string]RMmm
	RTag struct {
		N *RTag            `php:"n,omitempty"`
		S []RTag           `php:"s,omitempty"`
		M map[string]*RTag `php:"m,omitempty"`
		A *[1]*RTag        `php:"a,omitempty"`
	}
	RDeepA struct {
		A [1][1]struct{ B *[1][1]RDeepA }
	}
	RXa   struct{ B *RXb }
	RXb   struct{ C []RXc }
	RXc   struct{ D map[string]RXa }
	RBoth struct {
		A *RBothB
		B []RBothB
	}
	RBothB struct {
		A *RBoth
		M map[string]RBoth
	}
)

var selfTypes = []string{"RArrF", "RSlF", "RMpF", "RAnF", "RArA", "RMpA", "RSlA", "RSlM", "RStM", "RPtS", "RMmm", "RTag", "RDeepA", "RXa", "RXb", "RXc", "RBoth", "RBothB", "Node", "Ring", "MutA", "MutB", "SelfSlice", "SelfMap", "SelfPtr", "MapSlice", "ArrSlice", "StrMap", "AnyBox", "[]any", "map[string]any", "Ring", "RArrF", "RTag"}

func leads(from, to reflect.Type, seen map[reflect.Type]bool) bool {
	if from == to || from.Kind() == reflect.Interface && from.NumMethod() == 0 {
		return true
	}
	if seen[from] {
		return false
	}
	seen[from] = true
	switch from.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Array, reflect.Map:
		return leads(from.Elem(), to, seen)
	case reflect.Struct:
		for i := 0; i < from.NumField(); i++ {
			if from.Field(i).IsExported() && leads(from.Field(i).Type, to, seen) {
				return true
			}
		}
	}
	return false
}

// hook makes v contain one value of type t, somewhere, and returns what sets it.
func hook(r *simrt.Rng, v reflect.Value, t reflect.Type, top bool) func(reflect.Value) {
	if !top && v.Type() == t {
		return func(c reflect.Value) { v.Set(c) }
	}
	switch v.Kind() {
	case reflect.Interface:
		return func(c reflect.Value) {
			switch r.N(6) {
			case 0:
				l := reflect.MakeSlice(reflect.SliceOf(t), 1, 2)
				l.Index(0).Set(c)
				c = l
			case 1:
				m := reflect.MakeMap(reflect.MapOf(reflect.TypeFor[string](), t))
				m.SetMapIndex(reflect.ValueOf("h"), c)
				c = m
			case 2:
				if t.Kind() != reflect.Ptr && t.Kind() != reflect.Interface {
					p := reflect.New(t)
					p.Elem().Set(c)
					c = p
				}
			case 3:
				p := reflect.New(reflect.ArrayOf(1, t))
				p.Elem().Index(0).Set(c)
				if t.Kind() == reflect.Struct || t.Kind() == reflect.Ptr {
					// arrays are not encoded inside of interfaces, lists of pointers to them are
					l := reflect.MakeSlice(reflect.SliceOf(p.Type()), 1, 1)
					l.Index(0).Set(p)
					c = l
				}
			}
			v.Set(c)
		}
	case reflect.Ptr:
		v.Set(reflect.New(v.Type().Elem()))
		return hook(r, v.Elem(), t, false)
	case reflect.Slice:
		n := 1 + r.N(2)
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		return hook(r, v.Index(n-1), t, false)
	case reflect.Array:
		return hook(r, v.Index(r.N(v.Len())), t, false)
	case reflect.Map:
		m := reflect.MakeMap(v.Type())
		v.Set(m)
		k := reflect.New(v.Type().Key()).Elem()
		if k.Kind() == reflect.String {
			k.SetString("k")
		}
		return func(c reflect.Value) {
			e := reflect.New(v.Type().Elem()).Elem()
			hook(r, e, t, false)(c)
			m.SetMapIndex(k, e)
		}
	case reflect.Struct:
		var l []int
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.IsExported() && leads(f.Type, t, map[reflect.Type]bool{}) {
				l = append(l, i)
			}
		}
		return hook(r, v.Field(l[r.N(len(l))]), t, false)
	}
	panic("world: no way from " + v.Type().String() + " to " + t.String())
}

// self is a chain of n values of one type, each held by the one before; if it is
// closed the last one holds the first again.
func self(n int, seed uint64, closed bool) any {
	r := simrt.NewRng(seed)
	t := byN[selfTypes[seed%uint64(len(selfTypes))]].T
	vs := make([]reflect.Value, max(n, 1))
	sets := make([]func(reflect.Value), len(vs))
	for i := range vs {
		vs[i] = reflect.New(t).Elem()
		sets[i] = hook(r, vs[i], t, true)
	}
	for i := len(vs) - 2; i >= 0; i-- {
		sets[i](vs[i+1])
	}
	if closed {
		sets[len(vs)-1](vs[0])
		// those which were copied before hold the one which is closed
	} else if r.N(2) == 0 {
		sets[len(vs)-1](reflect.Zero(t))
	}
	switch r.N(4) {
	case 0:
		return vs[0].Addr().Interface()
	case 1:
		return []any{1, vs[0].Interface()}
	}
	return vs[0].Interface()
}

// hugeTypes are the types of values with a part of tens of thousands of entries,
// or bytes.
var hugeTypes = []string{"string", "bytes", "[]int", "map[int]int", "map[string]any", "[]any", "[]string", "map[string]string", "[]bool", "any", "Scalars", "Dict", "[][]byte", "AnyText", "UCopy"}

// huge has a part whose length, or whose encoding, needs more than 16 bits.
func huge(kind int, seed uint64) any {
	r := simrt.NewRng(seed)
	n := []int{65535, 65536, 65537, 65530 + r.N(12), 99999, 100000, 131072, 66000 + r.N(70000), 10000, 9999, 32767, 32768, 16384, 20000 + r.N(45000)}[r.N(14)]
	text := func(n int) string {
		b := make([]byte, n)
		c := simrt.Hash(seed, 3, 0)
		for i := range b {
			if i%8 == 0 {
				c = simrt.Hash(c, uint64(i), 1)
			}
			b[i] = byte(c >> (i % 8 * 8))
		}
		return string(b)
	}
	switch kind % len(hugeTypes) {
	case 0, 1, 4, 6, 12:
		if r.P(1, 5) {
			// beyond a mebibyte
			n = 1<<20 + []int{-20, -1, 0, 1, 100, r.N(1 << 20), 1 << 20}[r.N(7)]
		}
	}
	m := min(n, 4000+r.N(9000))
	if r.P(1, 4) {
		m = min(n, 70000)
	}
	var v any
	switch hugeTypes[kind%len(hugeTypes)] {
	case "string":
		return text(n)
	case "bytes":
		return []byte(text(n))
	case "[]int":
		l := make([]int, m)
		for i := range l {
			l[i] = i - m/2
		}
		return l
	case "map[int]int":
		l := make(map[int]int, m)
		for i := 0; i < m; i++ {
			l[i*3-m] = i
		}
		return l
	case "map[string]any":
		l := make(map[string]any, m)
		for i := 0; i < m; i++ {
			l[strconv.Itoa(i)+"k"] = i
		}
		l["t"] = text(n)
		return l
	case "[]any":
		l := make([]any, m/2)
		for i := range l {
			l[i] = []any{i, strconv.Itoa(i), i%2 == 0, nil}[i%4]
		}
		return append(l, text(n), "end")
	case "[]string":
		return []string{"a", text(n), "", text(n + 1)}
	case "map[string]string":
		t := text(n)
		return map[string]string{t: "v", "k": t, t[1:]: t[2:]}
	case "[]bool":
		return make([]bool, m)
	case "Scalars":
		x := reflect.New(byN["Scalars"].T).Elem()
		for i := 0; i < x.NumField(); i++ {
			if x.Field(i).Kind() == reflect.String {
				x.Field(i).SetString(text(n + i))
			}
		}
		return x.Interface()
	case "Dict":
		x := reflect.New(byN["Dict"].T).Elem()
		x.Set(reflect.MakeMap(x.Type()))
		g := newGen(seed, 20)
		g.noCB = true
		for i := 0; i < 3; i++ {
			x.SetMapIndex(reflect.ValueOf(text(n+i)).Convert(x.Type().Key()), g.val(x.Type().Elem(), 2))
		}
		return x.Interface()
	case "[][]byte":
		return [][]byte{[]byte(text(n)), {}, []byte(text(5)), []byte(text(n + 3))}
	case "any":
		v = map[string]any{"a": []any{text(n), text(n / 2)}, "b": []byte(text(n)), "c": map[int]string{1: text(n)}}
	default:
		v = []any{text(n), map[string]any{text(100): []any{text(n)}}}
	}
	return v
}

func regMore() {
	reg[RArrF]("RArrF")
	reg[*RArrF]("*RArrF")
	reg[RSlF]("RSlF")
	reg[RMpF]("RMpF")
	reg[RAnF]("RAnF")
	reg[RArA]("RArA")
	reg[RMpA]("RMpA")
	reg[RSlA]("RSlA")
	reg[RSlM]("RSlM")
	reg[RStM]("RStM")
	reg[RPtS]("RPtS")
	reg[RMmm]("RMmm")
	reg[RTag]("RTag")
	reg[*RTag]("*RTag")
	reg[RDeepA]("RDeepA")
	reg[RXa]("RXa")
	reg[RXb]("RXb")
	reg[*RXc]("*RXc")
	reg[RXc]("RXc")
	reg[RBoth]("RBoth")
	reg[*RBothB]("*RBothB")
	reg[RBothB]("RBothB")
	reg[[]bool]("[]bool")
	reg[[]float64]("[]float64")
	reg[[]uint16]("[]uint16")
	reg[[][]byte]("[][]byte")
	reg[map[string]int]("map[string]int")
	reg[map[int]string]("map[int]string")
	reg[map[string]bool]("map[string]bool")
	reg[map[string]float64]("map[string]float64")
	reg[map[string][]string]("map[string][]string")
	reg[[]map[string]string]("[]map[string]string")
	reg[map[int]any]("map[int]any")
	reg[[]B8]("[]B8")
	reg[Any]("Any")
	reg[[]Any]("[]Any")
	reg[Pay]("Pay")
	reg[*Pay]("*Pay")
	reg[Hidden]("Hidden")
	reg[Gen[int]]("Gen[int]")
	reg[Gen[string]]("Gen[string]")
	reg[*Gen[Small]]("*Gen[Small]")
	reg[Gen[Gen[bool]]]("Gen[Gen[bool]]")
	reg[Gen[any]]("Gen[any]")
	reg[KeysAll]("KeysAll")
	reg[EmbPtr]("EmbPtr")
	reg[[4]byte]("[4]byte")
	reg[map[string]*string]("map[string]*string")
	reg[[]*[]int]("[]*[]int")
	reg[map[B8][]byte]("map[B8][]byte")
	for i, f := range twins {
		add(twinNames[i], f())
	}
	reg[MArr]("MArr")
	reg[MFunc]("MFunc")
	reg[MChan]("MChan")
	reg[MStr]("MStr")
	reg[MBytes]("MBytes")
	reg[EmbV]("EmbV")
	reg[*EmbV]("*EmbV")
	reg[EmbP]("EmbP")
	reg[CBOdd]("CBOdd")
	reg[*CBOdd]("*CBOdd")
	reg[map[MInt]MStr]("map[MInt]MStr")
	reg[*MInt]("*MInt")
	reg[*MStr]("*MStr")
	reg[*MArr]("*MArr")
	reg[*MMap]("*MMap")
	reg[*MFunc]("*MFunc")
	reg[[]*MStr]("[]*MStr")
	reg[[2]*MInt]("[2]*MInt")
	reg[map[string]*MMap]("map[string]*MMap")
	reg[[]*MSlice]("[]*MSlice")
	reg[map[int]*MFunc]("map[int]*MFunc")
	reg[map[MStr]any]("map[MStr]any")
	reg[map[MStr]int]("map[MStr]int")
	reg[map[MInt]any]("map[MInt]any")
	reg[CBPtrs]("CBPtrs")
	reg[*CBPtrs]("*CBPtrs")
	reg[CBKeys]("CBKeys")
	reg[UBytes]("UBytes")
	reg[UMap]("UMap")
	reg[UList]("UList")
	reg[[]UArr]("[]UArr")
	reg[UEmb]("UEmb")
	reg[map[string]UMap]("map[string]UMap")
	reg[UOdd]("UOdd")
	reg[*UOdd]("*UOdd")
	reg[Opt]("Opt")
	reg[*Opt]("*Opt")
	reg[[]Opt]("[]Opt")
	reg[MNone]("MNone")
	reg[*MNoneP]("*MNoneP")
	reg[[]MNone]("[]MNone")
	reg[CBNone]("CBNone")
	reg[*CBNone]("*CBNone")
	reg[UNone]("UNone")
	reg[[]UNone]("[]UNone")
	reg[UNones]("UNones")
	for i := 0; i < maxComp; i++ {
		t := compType(i)
		if i < numComp {
			add("comp"+strconv.Itoa(i), t)
		}
	}
}
