package world

import (
	"reflect"
	"strconv"

	"github.com/trim21/go-phpserialize/internal/verifsim/ref"
	"github.com/trim21/go-phpserialize/internal/verifsim/simrt"
)

// WideRow takes a lot of memory for the few bytes its encoding needs.
type WideRow struct {
	A [24]string
	B [24]any
	N int `php:"n"`
}

type WideBox struct {
	Rows []WideRow
	More map[string][]WideRow
	Arr  [3][]WideRow
	Any  any
}

// claimTypes are what lists whose stated lengths are no more than claims are
// decoded into.
var claimTypes = []string{"[][]int", "[][]any", "[][]string", "[][]WideRow", "[]WideRow", "map[int][]WideRow", "WideBox", "any", "[]any", "SelfSlice", "MapSlice", "[]map[string]string", "map[string][]string", "[][]byte", "[]int", "[]string", "[]bool", "[][]*WideRow", "Node", "ArrSlice"}

// claims is a list, or a list of lists, which says of itself to be much longer, or
// much shorter, than it is.
func claims(n int, seed uint64) []byte {
	r := simrt.NewRng(seed)
	size := []int{300, 3000, 12000, 30000, 60000}[n%5]
	claim := func(have int) string {
		return strconv.FormatInt([]int64{1000, 100000, 1000000, 1 << 31, 1<<31 - 1, 1 << 40, 1<<63 - 1, 300000000, int64(size / 6), int64(have), 1, 0, int64(have) + 1}[r.N(13)], 10)
	}
	val := func() string {
		return []string{"i:1;", "i:2;", "N;", `s:1:"a";`, "b:1;", "a:0:{}", "a:1000000:{}", "a:99999:{i:0;N;}"}[r.N(8)]
	}
	var b []byte
	mixed := r.N(4) == 0
	v := []string{"i:1;", "N;", `s:1:"a";`, "a:0:{}"}[r.N(4)]
	switch n / 5 % 4 {
	case 0: // rows, each with a claim
		for i := 0; len(b) < size; i++ {
			if mixed && r.N(30) == 0 {
				v = val()
			}
			b = append(b, "i:"+strconv.Itoa(i)+";"...)
			k := r.N(3)
			b = append(b, "a:"+claim(k)+":{"...)
			for j := 0; j < k; j++ {
				b = append(b, "i:"+strconv.Itoa(j)+";"+v...)
			}
			b = append(b, '}')
		}
		return append(append([]byte("a:"+claim(len(b)/12)+":{"), b...), '}')
	case 1: // each inside of the one before
		c := claim(1)
		k := 0
		for ; len(b) < size; k++ {
			if r.N(50) == 0 {
				c = claim(1)
			}
			b = append(b, "a:"+c+":{i:0;"...)
		}
		b = append(b, val()...)
		for ; k > 0; k-- {
			b = append(b, '}')
		}
		return b
	case 2: // one, with many entries
		if mixed {
			v = val()
		}
		k := 0
		for ; len(b) < size; k++ {
			b = append(b, "i:"+strconv.Itoa(k)+";"+v...)
		}
		return append(append([]byte("a:"+claim(k)+":{"), b...), '}')
	}
	// fields
	b = append(b, "a:3:{"...)
	for i := 0; len(b) < size; i++ {
		switch r.N(4) {
		case 0:
			b = append(b, `s:4:"Rows";a:`+claim(1)+":{i:0;a:0:{}}"...)
		case 1:
			b = append(b, `s:4:"More";a:`+claim(1)+`:{s:1:"k";a:`+claim(1)+":{}}"...)
		case 2:
			b = append(b, `s:3:"Arr";a:`+claim(1)+":{i:0;a:"+claim(1)+":{i:0;a:0:{}}}"...)
		default:
			b = append(b, `s:4:"kids";a:`+claim(1)+":{}"...)
		}
	}
	return append(b, '}')
}

// walkTypes are the types which texts of any depth can be decoded into.
var walkTypes = append([]string{"any", "any", "[]any", "map[string]any", "Node", "*Node"}, selfTypes...)

var depths = []int{1, 2, 3, 5, 10, 60, 500, 999, 1000, 1001, 3000, 4998, 4999, 5000, 5001, 5002, 7000, 9000, 9990, 9995, 9996, 9997, 9998, 9999, 10000, 10001, 10002, 10003, 10010, 12000, 19999, 20001, 33000}

// walk is a text which goes n levels down a recursive type.
func walk(name string, n int, seed uint64) []byte {
	r := simrt.NewRng(seed)
	var b, end []byte
	t := byN[name].T
	obj := r.N(3) == 0
	memo := map[reflect.Type]bool{}
	deep := func(t reflect.Type) bool {
		ok, seen := memo[t]
		if !seen {
			ok = endless(t)
			memo[t] = ok
		}
		return ok
	}
	paths := map[reflect.Type][]ref.FieldInfo{}
	type2 := reflect.TypeOf([]any(nil))
	for i := 0; i < n; {
		switch t.Kind() {
		case reflect.Ptr:
			t = t.Elem()
			continue
		case reflect.Interface:
			t = type2
			if r.N(3) == 0 {
				t = reflect.TypeOf(map[string]any(nil))
			}
			continue
		case reflect.Slice, reflect.Array:
			b = append(b, "a:1:{i:0;"...)
			t = t.Elem()
		case reflect.Map:
			k := `s:1:"k";`
			if kk := t.Key().Kind(); kk != reflect.String && kk != reflect.Interface {
				k = "i:7;"
			}
			b = append(b, "a:1:{"+k...)
			t = t.Elem()
		case reflect.Struct:
			l, ok := paths[t]
			if !ok {
				for _, f := range ref.Fields(t) {
					if deep(f.Typ) && !f.Embedded {
						l = append(l, f)
					}
				}
				paths[t] = l
			}
			if len(l) == 0 {
				i = n
				continue
			}
			f := l[r.N(len(l))]
			head, pre := "a:1:{", ""
			if r.N(16) == 0 {
				head, pre = "a:2:{", `s:3:"zzz";`+[]string{"i:1;", "N;", "a:1:{i:0;a:0:{}}", `s:2:"{}";`}[r.N(4)]
			}
			if obj {
				head = `O:1:"C":` + head[2:]
			}
			b = append(b, head+pre+"s:"+strconv.Itoa(len(f.Name))+":\""+f.Name+"\";"...)
			t = f.Typ
		default:
			i = n
			continue
		}
		end = append(end, '}')
		i++
	}
	b = append(b, []string{"N;", "N;", "a:0:{}", "i:3;", `s:1:"x";`}[r.N(5)]...)
	return append(b, end...)
}

// endless tells whether values of the type can be nested without end.
func endless(t reflect.Type) bool {
	seen := map[reflect.Type]int{}
	var f func(t reflect.Type) bool
	f = func(t reflect.Type) bool {
		if t.Kind() == reflect.Interface {
			return t.NumMethod() == 0
		}
		if seen[t] == 1 {
			return true
		}
		if seen[t] == 2 {
			return false
		}
		seen[t] = 1
		ok := false
		switch t.Kind() {
		case reflect.Ptr, reflect.Slice, reflect.Array, reflect.Map:
			ok = f(t.Elem())
		case reflect.Struct:
			for _, x := range ref.Fields(t) {
				ok = ok || f(x.Typ)
			}
		}
		seen[t] = 2
		return ok
	}
	return f(t)
}

var isText = map[string]bool{"walk": true, "claims": true, "classes": true, "garble": true}

// variedText is one which no other call has seen: a list of objects of classes with
// all kinds of names, or something which is no encoding, each in its own way.
func variedText(kind string, n int, seed uint64) []byte {
	r := simrt.NewRng(seed)
	word := func() string { return strconv.FormatUint(r.U64()|1<<63, 36)[:2+r.N(9)] }
	str := func(s string) string { return "s:" + strconv.Itoa(len(s)) + ":\"" + s + "\";" }
	if kind == "garble" {
		switch r.N(8) {
		case 0:
			return []byte(word())
		case 1:
			return []byte("i:" + word() + ";")
		case 2:
			return []byte("a:1:{" + str(word()) + word() + "}")
		case 3:
			return []byte("a:1:{i:0;d:" + word() + ";}")
		case 4:
			return []byte("a:1:{i:0;s:" + strconv.Itoa(r.N(1<<30)) + ":\"" + word() + "\";}")
		case 5:
			return []byte("a:1:{i:" + strconv.Itoa(2+r.N(1<<40)) + "99999;i:0;}")
		case 6:
			return []byte("a:1:{i:0;O:3:\"" + word() + "\":0:{}}")
		}
		return []byte("a:1:{i:0;" + str(word()) + word())
	}
	b := []byte("a:" + strconv.Itoa(n) + ":{")
	for i := 0; i < n; i++ {
		c := word()
		b = append(b, "i:"+strconv.Itoa(i)+";O:"+strconv.Itoa(len(c))+":\""+c+"\":1:{"+str(word())+str(word())+"}"...)
	}
	return append(b, '}')
}

func (g *pg) textOp() Op {
	op := Op{K: "unmarshal"}
	if g.p1(2) {
		op.In.Cyc, op.In.N, op.In.V = "claims", g.r.N(20), g.r.U64()
		op.D = g.of(claimTypes)
		if op.In.N/5 == 2 {
			op.D = g.of([]string{"[]int", "[]string", "[]any", "[][]int", "[]WideRow", "any", "SelfSlice"})
		}
		if g.p1(8) {
			op.In.Unk, op.D = true, g.of([]string{"Small", "Node", "WideBox", "UCopy"})
		}
	} else {
		op.In.Cyc, op.In.N, op.In.V = "walk", depths[g.r.N(len(depths))], g.r.U64()
		op.In.T = g.of(walkTypes)
		op.D = op.In.T
		switch g.r.N(10) {
		case 0:
			op.D = "any"
		case 1:
			op.In.Unk, op.D = true, g.of([]string{"Small", "Node", "Scalars", "UCopy"})
		case 2:
			op.D = g.of([]string{"UCopy", "Both", "Small", "int"})
		}
	}
	if g.p1(6) {
		op.In.Dm = g.dm(damageKinds, 1)
	}
	if g.p1(6) {
		op.Dst = 1 + g.r.N(3)
	}
	return op
}

func regTexts() {
	reg[[][]int]("[][]int")
	reg[[][]any]("[][]any")
	reg[[]Small]("[]Small")
	reg[WideRow]("WideRow")
	reg[[]WideRow]("[]WideRow")
	reg[[][]WideRow]("[][]WideRow")
	reg[[][]*WideRow]("[][]*WideRow")
	reg[map[int][]WideRow]("map[int][]WideRow")
	reg[WideBox]("WideBox")
}
