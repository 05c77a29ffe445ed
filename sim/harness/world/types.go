package world

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	php "github.com/trim21/go-phpserialize"
	"github.com/trim21/go-phpserialize/internal/verifsim/ref"
	"github.com/trim21/go-phpserialize/internal/verifsim/simrt"
)

// The types the simulated applications work with.

type (
	Str  string
	Int  int
	I8   int8
	U16  uint16
	F32  float32
	Bool bool
	Blob []byte
	Ints []int
	Dict map[string]int
	Pair [2]string
)

type Scalars struct {
	B   bool
	I   int
	I8  int8
	I16 int16
	I32 int32
	I64 int64
	U   uint
	U8  uint8
	U16 uint16
	U32 uint32
	U64 uint64
	F32 float32
	F64 float64
	S   string `php:"s"`
	Y   []byte `php:"bytes"`
}

type Ptrs struct {
	B *bool
	I *int64
	U *uint8 `php:"u"`
	F *float64
	S *string
	P *Small
	L *[]int
	M *map[string]string
}

type Small struct {
	ID   int    `php:"id"`
	Name string `php:"name,omitempty"`
}

type Tags struct {
	A    int          `php:"a,omitempty"`
	B    string       `php:"b,string"`
	C    bool         `php:",string"`
	D    *int         `php:"d,string,omitempty"`
	E    float64      `php:"e,string"`
	Skip int          `php:"-"`
	F    any          `php:"f,omitempty"`
	G    uint16       `php:"g,string"`
	H    []string     `php:"h,omitempty"`
	I    *Small       `php:"i,omitempty"`
	J    Small        `php:"j,omitempty"`
	K    [2]int8      `php:"k,omitempty"`
	L    map[int]bool `php:"l,omitempty"`
	M    *bool        `php:"m,string"`
	N    *string      `php:"n,string"`
	O    int8         `php:"o,string"`
	priv int
}

type AnyText struct {
	V any `php:"v,string"`
	W int `php:"w"`
}

type Lists struct {
	I  []int
	S  []string
	B  [][]byte
	M  []map[string]int
	P  []*Small
	V  []Small
	LL [][]int
	F  []float32
	N  Ints
	Bl []Blob
	Bo []bool
}

type Arrays struct {
	A [3]int
	B [2][2]string
	C [1]*Small
	D [0]int
	E [2]Small
	F [2]any
}

type Maps struct {
	SI map[string]int
	IS map[int]string
	UB map[uint8]bool
	SM map[string]map[string]string
	IV map[int64]Small
	NK map[Str]Int
	SA map[string]any
	SL map[string][]int
	SP map[string]*Small
	UU map[uint64]uint64
}

type AnyBox struct {
	V any
	L []any
	M map[string]any
	P *any
	E fmt.Stringer
}

type Node struct {
	Val  int              `php:"v"`
	Next *Node            `php:"next"`
	Kids []Node           `php:"kids,omitempty"`
	ByN  map[string]*Node `php:"by,omitempty"`
}

type MutA struct {
	X int
	B *MutB
}

type MutB struct {
	Y string
	A []MutA
	C map[string]MutA
}

type ArrRec struct {
	N int
	C [2]*ArrRec
}

type (
	SelfSlice []SelfSlice
	SelfMap   map[string]SelfMap
	SelfPtr   struct{ P *SelfPtr }
	PtrArr    [1]*PtrArr
	MapSlice  map[string][]MapSlice
)

type Ring struct {
	Name string
	Any  any
	Next *Ring
	List []*Ring
	Map  map[string]*Ring
	Arr  [1]*Ring
	ArrS [1][]*Ring
	SArr [][1]*Ring
	MS   map[string][]*Ring
	PS   *[]*Ring
	AL   []any
	MA   map[string]any
	Vals []Ring
}

// other ways for a type to contain itself
type (
	ArrSlice [][1]ArrSlice
	ArrMap   map[string][2]ArrMap
	StrSlice []struct{ L StrSlice }
	StrMap   map[string]struct{ M StrMap }
	PtrSlice []*PtrSlice
	PtrMap   map[string]*PtrMap
)

// structs whose types other structs share, so that compiling one meets another
type Shared1 struct {
	S *Shared2
	L []Small
	T Tags
}
type Shared2 struct {
	A *Shared1
	N []*Node
	M map[string]Scalars
}

type Wide struct {
	F00, F01, F02, F03, F04, F05, F06, F07, F08, F09 int
	F10, F11, F12, F13, F14, F15, F16, F17, F18, F19 string
	F20, F21, F22, F23, F24, F25, F26, F27, F28, F29 *int
	F30, F31, F32, F33, F34, F35, F36, F37, F38, F39 bool
}

type Empty struct{}

type Embedded struct {
	Small
	X int
}

type BadChan struct {
	A int
	C chan int
}
type BadFunc struct {
	S string
	F func()
}
type BadKey struct {
	M map[float64]int
}
type BadPP struct {
	A int
	P **int
}
type BadCplx struct{ C complex128 }

// Good1 has fields of the names of those of the following.
type Good1 struct {
	A int
	C string
	F []int
	P *Small
	M map[string]int
	X float64
	Y bool
}
type BadChan2 struct {
	X float64
	C chan int
	Y bool
}
type BadMany struct {
	M map[complex128]int
	A chan int
	F func()
	X **int
	C complex128
}
type BadFunc2 struct {
	L []BadFunc2
	X func()
	F func()
}
type BadKey2 struct {
	A int
	M map[float64]int
	P *map[float64]int
}
type BadMix struct {
	A int
	Y uintptr
	C BadCplx
	P *BadChan2
	M map[string]chan int
	F []complex128
}
type BadPair [2]BadChan2

// Stringer is a method interface which no decoder can fill.
type Stringer struct {
	A int
	E fmt.Stringer
	Z int
}

// ---- callback types -------------------------------------------------------

type ider interface{ cbID() int }

type MVal struct{ ID int }

func (m MVal) MarshalPHP() ([]byte, error) { return cbMarshal(m.ID) }
func (m MVal) cbID() int                   { return m.ID }

type MPtr struct{ ID int }

func (m *MPtr) MarshalPHP() ([]byte, error) { return cbMarshal(m.cbID()) }
func (m *MPtr) cbID() int {
	if m == nil {
		return -1
	}
	return m.ID
}

type MInt int

func (m MInt) MarshalPHP() ([]byte, error) { return cbMarshal(int(m)) }
func (m MInt) cbID() int                   { return int(m) }

type MMap map[string]int

func (m MMap) MarshalPHP() ([]byte, error) { return cbMarshal(m.cbID()) }
func (m MMap) cbID() int {
	if m == nil {
		return -2
	}
	return m["id"]
}

type MSlice []int

func (m MSlice) MarshalPHP() ([]byte, error) { return cbMarshal(m.cbID()) }
func (m MSlice) cbID() int {
	if len(m) == 0 {
		return -3
	}
	return m[0]
}

type MPInt int

func (m *MPInt) MarshalPHP() ([]byte, error) { return cbMarshal(m.cbID()) }
func (m *MPInt) cbID() int {
	if m == nil {
		return -4
	}
	return int(*m)
}

// UCopy takes a copy of what it is given, UKeep keeps the slice itself.
type UCopy struct{ Raw string }

func (u *UCopy) UnmarshalPHP(b []byte) error {
	s, err := cbUnmarshal(b, false)
	if err == nil {
		u.Raw = s
	}
	return err
}

type UKeep struct{ Raw []byte }

func (u *UKeep) UnmarshalPHP(b []byte) error {
	_, err := cbUnmarshal(b, true)
	if err == nil {
		u.Raw = b
	}
	return err
}

type UInt int64

func (u *UInt) UnmarshalPHP(b []byte) error {
	s, err := cbUnmarshal(b, false)
	if err == nil {
		*u = uintOf(s)
	}
	return err
}

func uintOf(s string) UInt {
	var h uint64 = 14695981039346656037
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return UInt(h >> 1)
}

type UStr string

func (u *UStr) UnmarshalPHP(b []byte) error {
	s, err := cbUnmarshal(b, false)
	if err == nil {
		*u = UStr(s)
	}
	return err
}

// UAcc adds to what its receiver holds: only a receiver which is not what it
// should be shows.
type UAcc struct {
	N   int
	Raw string
}

func (u *UAcc) UnmarshalPHP(b []byte) error {
	s, err := cbUnmarshal(b, false)
	u.N++
	if err == nil {
		u.Raw += s
	}
	return err
}

type UAccs struct {
	A UAcc
	P *UAcc
	L []UAcc
	M map[string]UAcc
	R []*UAcc
	Q [2]UAcc
	S map[int]*UAcc
	Z string
}

// UFlag's methods set the zero value for most inputs.
type UFlag bool

func (u *UFlag) UnmarshalPHP(b []byte) error {
	s, err := cbUnmarshal(b, false)
	if err == nil {
		*u = s == "b:1;"
	}
	return err
}

// UFlat has no field which could alias the input.
type UFlat struct {
	A int
	N UInt
	F UFlag
	T UStr
	B bool
	S string
	G UFlag
	D float64
}

// URec has callbacks at any depth.
type URec struct {
	A    int
	Next *URec
	L    []URec
	M    map[string]URec
	P    [1]*URec
	U    UKeep
	V    []UCopy
}

type UKeys struct {
	A int
	M map[UStr]int
	N map[UFlag]string
	P map[UInt]UFlag
	F UFlag
	L []UFlag
	Q *UFlag
	R [3]UFlag
	Z string
}

type (
	EmbInt struct {
		Int
		Str
		X int
		y int
	}
	DupTags struct {
		A int `php:"a"`
		B int `php:"a"`
	}
	DeepArr struct {
		A [2][3]map[string][2]int
		B map[string]map[int][1]any
		C *[2]string
		D map[string]*[]*int
		E [][][]int
		F [2]*Small
		G map[string][]any
		H *[1]any
	}
)

// Both has both directions and survives the round trip.
type Both struct{ ID int }

func (m Both) MarshalPHP() ([]byte, error) { return cbMarshal(m.ID) }
func (m Both) cbID() int                   { return m.ID }
func (m *Both) UnmarshalPHP(b []byte) error {
	s, err := cbUnmarshal(b, false)
	if err == nil {
		m.ID = idOf(s)
	}
	return err
}

type CBStruct struct {
	A int
	V MVal
	P *MPtr
	Q *MVal
	I MInt
	L []MVal
	R []*MPtr
	M map[string]MVal
	N map[string]*MPtr
	X any
	D MMap
	E MSlice
	F php.Marshaler
	G [2]MVal
	H *MPInt
	Z string
}

type UStruct struct {
	A int
	C UCopy
	P *UCopy
	K UKeep
	L []UCopy
	M map[string]UCopy
	N UInt
	B Both
	Y []byte
	S string
	R []*UKeep
	T UStr
	Z []byte
}

type BothList struct {
	A []Both
	M map[string]Both
	P *Both
	X []byte
	S string
}

type IfU struct {
	A int
	U php.Unmarshaler
	Z string
}

type ByteMix struct {
	A []byte
	S string
	B [][]byte
	M map[string][]byte
	C Blob
	T []string
	D []uint8
}

type KeyMix struct {
	A map[any]any
	B map[bool]int
	I map[int8]string
	U map[uint32]any
	S map[Str]string
}

// ---- catalogue ------------------------------------------------------------

type TypeInfo struct {
	Name  string
	T     reflect.Type
	Enc   bool // Marshal supports the type
	Dec   bool
	MCB   bool // meets MarshalPHP
	UCB   bool // meets UnmarshalPHP
	Recur bool
	Maps  bool
	Any   bool
	Bytes bool
}

var (
	mtype = reflect.TypeOf((*php.Marshaler)(nil)).Elem()
	utype = reflect.TypeOf((*php.Unmarshaler)(nil)).Elem()
	cat   []*TypeInfo
	byN   = map[string]*TypeInfo{}
)

func reg[T any](name string) {
	add(name, reflect.TypeOf((*T)(nil)).Elem())
}

func add(name string, t reflect.Type) {
	ti := &TypeInfo{Name: name, T: t}
	ti.Enc = ref.Encodable(t, mtype) == nil
	ti.Dec = ref.Decodable(t, utype) == nil
	scan(t, ti, map[reflect.Type]int{})
	cat = append(cat, ti)
	byN[name] = ti
}

func scan(t reflect.Type, ti *TypeInfo, seen map[reflect.Type]int) {
	if seen[t] != 0 {
		if seen[t] == 1 {
			ti.Recur = true
		}
		return
	}
	seen[t] = 1
	defer func() { seen[t] = 2 }()
	if t.Implements(mtype) || reflect.PointerTo(t).Implements(mtype) {
		ti.MCB = true
	}
	if t.Implements(utype) || reflect.PointerTo(t).Implements(utype) {
		ti.UCB = true
	}
	switch t.Kind() {
	case reflect.Map:
		ti.Maps = true
		scan(t.Elem(), ti, seen)
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			ti.Bytes = true
		}
		scan(t.Elem(), ti, seen)
	case reflect.Ptr, reflect.Array:
		scan(t.Elem(), ti, seen)
	case reflect.Interface:
		ti.Any = true
		if t.NumMethod() == 0 {
			ti.MCB = true
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).IsExported() {
				scan(t.Field(i).Type, ti, seen)
			}
		}
	}
}

const numDyn = 48

func init() {
	reg[bool]("bool")
	reg[int]("int")
	reg[int8]("int8")
	reg[uint64]("uint64")
	reg[float32]("float32")
	reg[float64]("float64")
	reg[string]("string")
	reg[[]byte]("bytes")
	reg[any]("any")
	reg[Str]("Str")
	reg[Int]("Int")
	reg[U16]("U16")
	reg[F32]("F32")
	reg[Bool]("Bool")
	reg[Blob]("Blob")
	reg[Ints]("Ints")
	reg[Dict]("Dict")
	reg[Pair]("Pair")
	reg[[]int]("[]int")
	reg[[]string]("[]string")
	reg[[]any]("[]any")
	reg[map[string]any]("map[string]any")
	reg[map[string]string]("map[string]string")
	reg[map[int]int]("map[int]int")
	reg[map[string][]map[string]int]("map[string][]map[string]int")
	reg[[4]int]("[4]int")
	reg[[][]string]("[][]string")
	reg[[]map[int]any]("[]map[int]any")
	reg[*int]("*int")
	reg[*string]("*string")
	reg[*Small]("*Small")
	reg[*[]int]("*[]int")
	reg[*map[string]int]("*map[string]int")
	reg[*any]("*any")
	reg[*[]any]("*[]any")
	reg[Scalars]("Scalars")
	reg[Ptrs]("Ptrs")
	reg[*Ptrs]("*Ptrs")
	reg[Small]("Small")
	reg[Tags]("Tags")
	reg[AnyText]("AnyText")
	reg[Lists]("Lists")
	reg[*Lists]("*Lists")
	reg[Arrays]("Arrays")
	reg[Maps]("Maps")
	reg[*Maps]("*Maps")
	reg[AnyBox]("AnyBox")
	reg[Node]("Node")
	reg[*Node]("*Node")
	reg[MutA]("MutA")
	reg[MutB]("MutB")
	reg[ArrRec]("ArrRec")
	reg[SelfSlice]("SelfSlice")
	reg[SelfMap]("SelfMap")
	reg[SelfPtr]("SelfPtr")
	reg[PtrArr]("PtrArr")
	reg[MapSlice]("MapSlice")
	reg[Ring]("Ring")
	reg[ArrSlice]("ArrSlice")
	reg[ArrMap]("ArrMap")
	reg[StrSlice]("StrSlice")
	reg[StrMap]("StrMap")
	reg[PtrSlice]("PtrSlice")
	reg[*PtrMap]("*PtrMap")
	reg[UAcc]("UAcc")
	reg[[]UAcc]("[]UAcc")
	reg[UAccs]("UAccs")
	reg[map[string]UAcc]("map[string]UAcc")
	reg[UFlag]("UFlag")
	reg[UFlat]("UFlat")
	reg[*UFlat]("*UFlat")
	reg[UKeys]("UKeys")
	reg[URec]("URec")
	reg[*URec]("*URec")
	reg[map[UStr]UFlag]("map[UStr]UFlag")
	reg[EmbInt]("EmbInt")
	reg[DupTags]("DupTags")
	reg[DeepArr]("DeepArr")
	reg[*DeepArr]("*DeepArr")
	reg[Shared1]("Shared1")
	reg[*Shared2]("*Shared2")
	reg[Wide]("Wide")
	reg[Empty]("Empty")
	reg[Embedded]("Embedded")
	reg[BadChan]("BadChan")
	reg[BadFunc]("BadFunc")
	reg[BadKey]("BadKey")
	reg[BadPP]("BadPP")
	reg[BadCplx]("BadCplx")
	reg[Good1]("Good1")
	reg[BadChan2]("BadChan2")
	reg[*BadMany]("*BadMany")
	reg[BadFunc2]("BadFunc2")
	reg[BadKey2]("BadKey2")
	reg[BadMix]("BadMix")
	reg[map[string]BadMix]("map[string]BadMix")
	reg[BadPair]("BadPair")
	reg[Stringer]("Stringer")
	reg[MVal]("MVal")
	reg[*MVal]("*MVal")
	reg[*MPtr]("*MPtr")
	reg[MInt]("MInt")
	reg[MMap]("MMap")
	reg[MSlice]("MSlice")
	reg[[]MVal]("[]MVal")
	reg[[]*MPtr]("[]*MPtr")
	reg[map[string]MVal]("map[string]MVal")
	reg[CBStruct]("CBStruct")
	reg[*CBStruct]("*CBStruct")
	reg[[]php.Marshaler]("[]Marshaler")
	reg[UCopy]("UCopy")
	reg[UKeep]("UKeep")
	reg[UInt]("UInt")
	reg[[]UCopy]("[]UCopy")
	reg[[]*UKeep]("[]*UKeep")
	reg[map[string]UKeep]("map[string]UKeep")
	reg[UStruct]("UStruct")
	reg[*UStruct]("*UStruct")
	reg[Both]("Both")
	reg[[]Both]("[]Both")
	reg[BothList]("BothList")
	reg[map[int]Both]("map[int]Both")
	reg[IfU]("IfU")
	reg[ByteMix]("ByteMix")
	reg[KeyMix]("KeyMix")
	reg[map[string]CBStruct]("map[string]CBStruct")
	regMore()
	regTexts()
	for i := 0; i < numDyn; i++ {
		add("dyn"+strconv.Itoa(i), dynType(uint64(i)))
	}
	initLists()
}

// dynType builds struct types at run time, as applications which map database
// rows do.
func dynType(seed uint64) reflect.Type {
	r := simrt.NewRng(seed*7919 + 13)
	base := []reflect.Type{
		reflect.TypeOf(0), reflect.TypeOf(""), reflect.TypeOf(false), reflect.TypeOf(1.5),
		reflect.TypeOf(uint16(0)), reflect.TypeOf([]byte(nil)), reflect.TypeOf([]int(nil)),
		reflect.TypeOf(map[string]int(nil)), reflect.TypeOf(Small{}), reflect.TypeOf((*Small)(nil)),
		reflect.TypeOf((*any)(nil)).Elem(), reflect.TypeOf([]string(nil)), reflect.TypeOf((*int)(nil)),
		reflect.TypeOf(Both{}), reflect.TypeOf(map[string]Small(nil)), reflect.TypeOf([2]int{}),
		reflect.TypeOf([]*Node(nil)),
	}
	var mk func(depth int) reflect.Type
	mk = func(depth int) reflect.Type {
		n := 1 + r.N(5)
		var fs []reflect.StructField
		for i := 0; i < n; i++ {
			t := base[r.N(len(base))]
			if depth > 0 && r.P(1, 3) {
				t = mk(depth - 1)
				switch r.N(4) {
				case 0:
					t = reflect.PointerTo(t)
				case 1:
					t = reflect.SliceOf(t)
				case 2:
					t = reflect.MapOf(reflect.TypeOf(""), t)
				}
			}
			f := reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: t}
			switch r.N(4) {
			case 0:
				f.Tag = reflect.StructTag(fmt.Sprintf(`php:"k%d_%d"`, seed, i))
			case 1:
				f.Tag = `php:",omitempty"`
			}
			fs = append(fs, f)
		}
		return reflect.StructOf(fs)
	}
	return mk(2)
}

// names lists the catalogue entries for which ok holds, in a fixed order.
func names(ok func(*TypeInfo) bool) []string {
	var l []string
	for _, t := range cat {
		if ok(t) {
			l = append(l, t.Name)
		}
	}
	sort.Strings(l)
	return l
}

// ---- callbacks' contents --------------------------------------------------

// cbBytes is what the Marshaler with this id produces.
func cbBytes(id int) []byte {
	switch {
	case id >= oddID:
		return oddBytes(id)
	case id < 0:
		return []byte(fmt.Sprintf("s:%d:\"nil%d\";", len(fmt.Sprintf("nil%d", id)), id))
	case id%5 == 0:
		return []byte(fmt.Sprintf("i:%d;", id))
	case id%5 == 1:
		return []byte(fmt.Sprintf("a:1:{s:2:\"id\";i:%d;}", id))
	case id%5 == 2:
		s := fmt.Sprintf("%d|%s", id, strings.Repeat(string(rune('a'+id%26)), id%40))
		return []byte(fmt.Sprintf("s:%d:\"%s\";", len(s), s))
	case id%35 == 3:
		s := fmt.Sprintf("%d|%s", id, strings.Repeat("long"+strconv.Itoa(id), 200+id%300))
		return []byte(fmt.Sprintf("s:%d:\"%s\";", len(s), s))
	case id%5 == 3:
		return []byte(fmt.Sprintf("a:2:{i:0;i:%d;i:1;N;}", id))
	}
	s := strconv.Itoa(id)
	return []byte(fmt.Sprintf("s:%d:\"%s\";", len(s), s))
}

const oddID = 50_000_000

// oddBytes are what a MarshalPHP should not return, but may.
func oddBytes(id int) []byte {
	switch id % 12 {
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2:
		return []byte("}")
	case 3:
		return []byte("a:5:{")
	case 4:
		return []byte(strings.Repeat("\x00\"", 600+id%3000))
	case 5:
		return []byte(strings.Repeat(strconv.Itoa(id), 3000+id%6000))
	case 6:
		return []byte("N;")
	case 7:
		return []byte("s:99:\"" + strconv.Itoa(id))
	case 8:
		return []byte("i:" + strconv.Itoa(id) + ";\n")
	case 9:
		return []byte(" " + strconv.Itoa(id))
	case 10:
		return []byte(";")
	}
	return []byte(strconv.Itoa(id))
}

// idOf reads the id back: the first number after the leading length fields.
func idOf(s string) int {
	var rest string
	switch {
	case strings.HasPrefix(s, "i:"):
		rest = s[2:]
	case strings.HasPrefix(s, "a:1:{s:2:\"id\";i:"):
		rest = s[len("a:1:{s:2:\"id\";i:"):]
	case strings.HasPrefix(s, "a:2:{i:0;i:"):
		rest = s[len("a:2:{i:0;i:"):]
	case strings.HasPrefix(s, "s:"):
		if i := strings.IndexByte(s, '"'); i >= 0 {
			rest = s[i+1:]
		}
	}
	n, neg := 0, false
	for i := 0; i < len(rest); i++ {
		if i == 0 && rest[i] == '-' {
			neg = true
			continue
		}
		if rest[i] < '0' || rest[i] > '9' || n > 1<<40 {
			break
		}
		n = n*10 + int(rest[i]-'0')
	}
	if neg {
		n = -n
	}
	return n
}
