package world

import (
	"github.com/trim21/go-phpserialize/internal/verifsim/simreset"
	"github.com/trim21/go-phpserialize/internal/verifsim/simrt"
	"slices"
)

// Props are the properties which have a profile here.
var Props = []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18"}

var (
	encTypes, decTypes, bothTypes, mcbTypes, ucbTypes, recTypes, mapTypes, allTypes, bytesTypes, badTypes, rtTypes, dynTypes, containerTypes []string
)

func initLists() {
	encTypes = names(func(t *TypeInfo) bool { return t.Enc })
	decTypes = names(func(t *TypeInfo) bool { return t.Dec })
	bothTypes = names(func(t *TypeInfo) bool { return t.Enc && t.Dec })
	mcbTypes = []string{"MVal", "*MVal", "*MPtr", "MInt", "MMap", "MSlice", "[]MVal", "[]*MPtr", "map[string]MVal", "CBStruct", "*CBStruct", "[]Marshaler", "Both", "[]Both", "BothList", "map[int]Both", "map[string]CBStruct", "CBStruct", "*CBStruct", "[]*MPtr", "CBOdd", "CBOdd", "*CBOdd", "MArr", "MFunc", "MChan", "MStr", "MBytes", "EmbV", "*EmbV", "EmbP", "map[MInt]MStr", "CBNone", "CBNone", "*CBNone", "MNone", "*MNoneP", "[]MNone",
		"*MInt", "*MStr", "*MArr", "*MMap", "*MFunc", "[]*MStr", "[2]*MInt", "map[string]*MMap", "[]*MSlice", "map[int]*MFunc", "CBPtrs", "CBPtrs", "*CBPtrs", "map[MStr]any", "map[MStr]int", "map[MInt]any", "CBKeys", "CBKeys"}
	ucbTypes = []string{"UCopy", "UKeep", "UInt", "[]UCopy", "[]*UKeep", "map[string]UKeep", "UStruct", "*UStruct", "Both", "[]Both", "BothList", "map[int]Both", "IfU", "UStruct", "*UStruct", "BothList", "UAccs", "UAccs", "[]UAcc", "UAcc", "map[string]UAcc", "UFlag", "UFlat", "UFlat", "*UFlat", "UKeys", "UKeys", "map[UStr]UFlag", "UOdd", "UOdd", "*UOdd", "UBytes", "UMap", "UList", "[]UArr", "UEmb", "map[string]UMap", "UNone", "[]UNone", "UNones", "UNones"}
	recTypes = []string{"Node", "*Node", "MutA", "MutB", "ArrRec", "SelfSlice", "SelfMap", "SelfPtr", "PtrArr", "MapSlice", "Ring", "Shared1", "*Shared2", "Node", "MutA", "Shared1", "ArrSlice", "ArrMap", "StrSlice", "StrMap", "PtrSlice", "*PtrMap", "Ring", "RArrF", "RSlF", "RMpF", "RAnF", "RArA", "RMpA", "RSlA", "RSlM", "RStM", "RPtS", "RMmm", "RTag", "*RTag", "RDeepA", "RXa", "RXb", "*RXc", "RBoth", "*RBothB"}
	mapTypes = []string{"Dict", "map[string]any", "map[string]string", "map[int]int", "map[string][]map[string]int", "[]map[int]any", "*map[string]int", "Maps", "*Maps", "SelfMap", "MapSlice", "map[string]MVal", "map[int]Both", "map[string]CBStruct", "Maps", "map[string]any", "AnyBox", "Node", "KeysAll", "KeysAll", "map[MInt]MStr", "map[B8][]byte", "Gen[any]", "Pay", "map[string]*string", "twin5", "map[string]UMap", "map[UStr]UFlag", "map[int]any", "map[MStr]any", "map[MInt]any", "map[MStr]int", "CBKeys"}
	bytesTypes = names(func(t *TypeInfo) bool { return t.Bytes && t.Dec })
	badTypes = names(func(t *TypeInfo) bool { return !t.Enc || !t.Dec })
	allTypes = names(func(t *TypeInfo) bool { return true })
	dynTypes = names(func(t *TypeInfo) bool { return len(t.Name) > 3 && t.Name[:3] == "dyn" })
	containerTypes = names(func(t *TypeInfo) bool {
		switch t.T.Kind().String() {
		case "struct", "slice", "map", "ptr", "array", "interface":
			return t.Enc && t.Dec
		}
		return false
	})
}

type pg struct {
	r    simrt.Rng
	p    *Plan
	prop string
	deep bool
	gc   bool // garbage collections at arbitrary points
}

func (g *pg) of(l []string) string { return l[g.r.N(len(l))] }
func (g *pg) p1(n int) bool        { return g.r.P(1, n) }

// New makes the plan of one run. Everything follows from the seed.
func New(prop string, seed uint64) *Plan {
	g := &pg{prop: prop, p: &Plan{Prop: prop, Seed: seed}}
	g.r.S = simrt.Hash(seed, 1, 2)
	p := g.p
	p.PoolS, p.MapS = g.r.U64(), g.r.U64()
	p.Pool = []string{"lifo", "lifo", "fifo", "random", "random", "new", "drop"}[g.r.N(7)]
	p.Sector = []int{8, 16, 16, 32, 64}[g.r.N(5)]
	g.gc = prop != "C18" && prop != "C14" && g.p1(12)
	switch prop {
	case "C01":
		g.c01()
	case "C02":
		g.c02()
	case "C03":
		g.c03()
	case "C04":
		g.c04()
	case "C05":
		g.c05()
	case "C06":
		g.c06()
	case "C07":
		g.c07()
	case "C08":
		g.c08()
	case "C09":
		g.c09()
	case "C10":
		g.c10()
	case "C11":
		g.c11()
	case "C12":
		g.damaged([]string{"cut"}, 1)
	case "C13":
		g.damaged([]string{"tail", "double", "tail"}, 1)
	case "C14":
		g.damaged(damageKinds, 3)
	case "C15":
		g.c15()
	case "C16":
		g.c16()
	case "C17":
		g.c17()
	case "C18":
		g.c18()
	default:
		return nil
	}
	return p
}

func (g *pg) strat() simrt.Strategy {
	st := simrt.Strategy{}
	switch g.r.N(10) {
	case 0:
		st.Kind = "serial"
	case 1, 2:
		st.Kind = "pct"
		st.Depth = 1 + g.r.N(4)
		st.Est = int64(100 + g.r.N(6000))
	case 3, 4, 5:
		st.Kind = "hot"
		st.HotP = []int{20, 50, 100}[g.r.N(3)]
		if g.p1(2) {
			base := g.r.N(simreset.NumSites + 1)
			for i := 0; i < 30; i++ {
				st.Hot = append(st.Hot, uint32(base+i))
			}
		} else {
			for i := 10 + g.r.N(60); i > 0; i-- {
				st.Hot = append(st.Hot, uint32(g.r.N(simreset.NumSites+1)))
			}
		}
		if g.p1(2) {
			for i := 8; i < 19; i++ {
				st.Hot = append(st.Hot, uint32(1<<13-64+i))
			}
		}
	default:
		st.Kind = "geom"
		st.Mean = []int{1, 2, 4, 8, 20, 60, 200}[g.r.N(7)]
	}
	return st
}

func serial() simrt.Strategy { return simrt.Strategy{Kind: "serial"} }

func (g *pg) size() int {
	if g.p1(80) {
		return 400
	}
	return []int{3, 8, 8, 15, 15, 30, 60}[g.r.N(7)]
}

func (g *pg) spec(l []string) Spec {
	return Spec{T: g.of(l), V: g.r.U64() >> 16, Z: g.size(), Wild: g.p1(6), Sp: g.p1(2), Ptr: g.p1(6)}
}

func (g *pg) mOp(l []string) Op {
	op := Op{K: "marshal", In: Input{Spec: g.spec(l)}}
	op.In.Odd = g.p1(8)
	return op
}

func (g *pg) uOp(l []string) Op {
	op := Op{K: "unmarshal", In: Input{Spec: g.spec(l)}}
	op.In.Wild = false
	op.In.Ptr = false
	if g.p1(3) {
		op.In.Twist = g.r.U64() | 1
	} else {
		op.In.Shuf = g.r.U64()
	}
	op.D = op.In.T
	switch g.r.N(8) {
	case 0:
		op.D = "any"
	case 1:
		if g.p1(2) {
			op.D = g.of(decTypes)
		}
	case 2:
		op.Pre = g.r.U64() | 1
	}
	return op
}

// fail is an operation which fails, one way or another.
func (g *pg) fail() Op {
	switch g.r.N(10) {
	case 9:
		return g.noDest()
	case 0, 1:
		op := g.mOp(mcbTypes)
		op.CB = CB{Mode: []string{"err", "errbytes", "panic", "goexit"}[g.r.N(4)], At: 1 + g.r.N(4), V: g.r.N(30)}
		return op
	case 2:
		op := g.uOp(ucbTypes)
		op.D, op.Pre = op.In.T, 0
		op.CB = CB{Mode: []string{"err", "panic", "goexit"}[g.r.N(3)], At: 1 + g.r.N(4), V: g.r.N(30)}
		return op
	case 3:
		op := g.mOp([]string{"any", "[]any", "map[string]any", "AnyBox", "Arrays"})
		op.In.Wild = true
		op.In.Z = 30
		return op
	case 4:
		return g.mOp(badTypes)
	case 5, 6:
		op := g.uOp(bothTypes)
		op.In.Dm = g.dm(damageKinds, 2)
		return op
	case 7:
		if g.prop != "C11" && !g.p1(3) {
			return g.mOp(badTypes)
		}
		return Op{K: "marshal", In: Input{Spec: Spec{Cyc: g.of(cyclicKinds), N: g.cycLen(), V: g.r.U64()}}}
	}
	return g.badDest()
}

// badDest is a call whose destination cannot hold some of the input.
func (g *pg) badDest() Op {
	op := g.uOp(badTypes)
	if g.p1(2) {
		op = g.uOp([]string{"Good1", "Good1", "Small", "Dict"})
		op.In.Ptr = false
	}
	op.D = g.of(badTypes)
	return op
}

// noDest is a call whose destination is no destination.
func (g *pg) noDest() Op {
	op := g.uOp(bothTypes)
	op.M = "nodest"
	if g.p1(4) {
		op.In.Dm = g.dm(damageKinds, 1)
	}
	return op
}

// large marshals, or unmarshals, some thousand entries.
func (g *pg) large() Op {
	op := Op{K: "marshal", In: Input{Spec: Spec{Cyc: "large", N: 1, V: g.r.U64()}}}
	if g.p1(4) {
		op = g.largeIn()
		if g.p1(2) {
			op.K, op.D, op.In.Shuf = "marshal", "", 0
		}
		return op
	}
	if g.p1(3) {
		op.K, op.D = "unmarshal", "any"
		op.In.Shuf = g.r.U64()
	}
	return op
}

// largeIn unmarshals something of tens of thousands of bytes.
func (g *pg) largeIn() Op {
	k := g.r.N(len(hugeTypes))
	op := Op{K: "unmarshal", D: hugeTypes[k], In: Input{Spec: Spec{Cyc: "huge", N: k, T: hugeTypes[k], V: g.r.U64()}, Shuf: g.r.U64()}}
	if g.p1(3) {
		op.D = "any"
	}
	return op
}

func (g *pg) cycLen() int {
	if g.p1(8) {
		return []int{400, 998, 999, 1000, 1001, 1002, 1100, 1500}[g.r.N(8)]
	}
	return 1 + g.r.N(6)
}

func (g *pg) dm(kinds []string, max int) []Damage {
	var l []Damage
	for i := 1 + g.r.N(max); i > 0; i-- {
		l = append(l, Damage{K: g.of(kinds), A: g.r.U64() >> 20, B: g.r.U64() >> 20})
	}
	return l
}

func (g *pg) clients(n, ops int, f func() Op) [][]Op {
	var cs [][]Op
	for i := 0; i < n; i++ {
		var l []Op
		for j := 0; j < ops; j++ {
			l = append(l, f())
		}
		cs = append(cs, l)
	}
	return cs
}

func (g *pg) phase(st simrt.Strategy, cs [][]Op) *Phase {
	g.p.Phases = append(g.p.Phases, Phase{Strat: st, Clients: cs})
	if g.p1(8) {
		d := []int64{1000, 1e6, 60e6, 3600e6, 86400e6, 400 * 86400e6}[g.r.N(6)]
		if g.p1(3) {
			d = -d
		}
		g.p.Phases[len(g.p.Phases)-1].Skew = d
	}
	if g.gc {
		ph := &g.p.Phases[len(g.p.Phases)-1]
		for i := 1 + g.r.N(3); i > 0; i-- {
			ph.GCAt = append(ph.GCAt, int64(1+g.r.N(10<<g.r.N(12))))
		}
		slices.Sort(ph.GCAt)
	}
	return &g.p.Phases[len(g.p.Phases)-1]
}

// manyTypes are calls for most types there are, twice in all.
func (g *pg) manyTypes(both bool) []Op {
	var l []Op
	for _, t := range allTypes {
		op := Op{K: "marshal", In: Input{Spec: Spec{T: t, V: g.r.U64() >> 16, Z: 2, Ptr: g.p1(3)}}}
		if both && g.p1(2) && byN[t].Enc && byN[t].Dec {
			op.K, op.D, op.In.Ptr = "unmarshal", t, false
		}
		l = append(l, op)
	}
	for i := 0; i < maxComp; i++ {
		l = append(l, Op{K: "marshal", In: Input{Spec: Spec{Cyc: "composed", N: i, V: g.r.U64()}}})
	}
	for k := 0; k < 2; k++ {
		for i := len(l) - 1; i > 0; i-- {
			j := g.r.N(i + 1)
			l[i], l[j] = l[j], l[i]
		}
		if k == 0 {
			l = l[:100+g.r.N(len(l)-100)]
			l = append(l, l...)
		}
	}
	return l
}

// cheap is a call with little to do.
func (g *pg) cheap() Op {
	op := g.mOp([]string{"int", "string", "Small", "[]any", "any", "[]string", "MVal", "map[string]int", "map[string]any", "Both", "bytes"})
	if g.p1(2) {
		op = g.uOp([]string{"int", "string", "Small", "[]any", "any", "[]string", "UCopy", "UFlag", "map[string]any", "Both", "bytes", "Dict", "[]int"})
		op.Pre, op.In.Deep = 0, 0
	}
	op.In.Z, op.In.Wild = 3, false
	return op
}

// crowd: many calls in progress at once, or some which many others overtake.
func (g *pg) crowd(f func() Op) {
	small := func() Op {
		op := f()
		if op.In.Cyc != "" || op.In.Deep > 0 || op.K != "marshal" && op.K != "unmarshal" {
			return g.cheap()
		}
		op.In.Z = min(op.In.Z, 6)
		return op
	}
	if g.p1(2) {
		g.phase(g.strat(), g.clients(12+g.r.N(90), 1, small))
		return
	}
	var cs [][]Op
	for i := 1 + g.r.N(3); i > 0; i-- {
		op := g.mOp([]string{"CBStruct", "*CBStruct", "[]MVal", "[]any", "map[string]MVal", "CBOdd", "CBPtrs", "AnyBox"})
		if g.p1(2) {
			op = g.uOp([]string{"UStruct", "[]UCopy", "BothList", "UAccs", "UOdd", "UNones", "map[string]UKeep"})
			op.D, op.Pre = op.In.T, 0
		}
		op.In.Z = 8 + g.r.N(20)
		op.CB = CB{Mode: "stall", At: 1 + g.r.N(3), N: -1}
		cs = append(cs, []Op{op})
	}
	n := []int{20, 40, 80, 150, 300}[g.r.N(5)]
	for i := 1 + g.r.N(3); i > 0; i-- {
		var l []Op
		for j := 0; j < n; j++ {
			l = append(l, g.cheap())
		}
		l = append(l, small(), small())
		cs = append(cs, l)
	}
	g.phase(g.strat(), cs)
}

// C01: concurrent Marshal calls.
func (g *pg) c01() {
	// few types, so that calls meet in the same places
	ts := []string{g.of(encTypes), g.of(encTypes), g.of(encTypes), g.of(recTypes), g.of(mcbTypes), g.of(mapTypes)}
	if g.p1(16) {
		ts = twinNames
	}
	f := func() Op {
		if g.p1(12) {
			return g.fail()
		}
		op := g.mOp(ts)
		if g.p1(6) {
			op = g.mOp(encTypes)
		}
		if g.p1(10) {
			op.CB.Buf = []string{"reuse", "spare"}[g.r.N(2)]
		}
		if g.p1(60) {
			return g.large()
		}
		return op
	}
	if g.p1(30) {
		g.crowd(f)
		return
	}
	if g.p1(600) {
		l := g.manyTypes(false)
		g.phase(g.strat(), [][]Op{l, append([]Op(nil), l[:len(l)/4]...)})
		return
	}
	if g.p1(3) {
		g.phase(serial(), g.clients(1, 3, f)) // warmed up
	}
	g.phase(g.strat(), g.clients(2+g.r.N(3), 1+g.r.N(6), f))
}

// C02: concurrent Unmarshal calls.
func (g *pg) c02() {
	ts := []string{g.of(bothTypes), g.of(bothTypes), g.of(recTypes), g.of(ucbTypes), g.of(mapTypes), g.of(bytesTypes)}
	if g.p1(16) {
		ts = twinNames
	}
	f := func() Op {
		if g.p1(12) {
			return g.fail()
		}
		if g.p1(200) {
			return g.largeIn()
		}
		op := g.uOp(ts)
		if g.p1(8) {
			op.In.Dm = g.dm(damageKinds, 1)
		}
		if g.p1(6) {
			op.M = "scribble"
		}
		if g.p1(5) {
			op.Dst = 1 + g.r.N(2)
		}
		return op
	}
	if g.p1(30) {
		g.crowd(f)
		return
	}
	if g.p1(3) {
		g.phase(serial(), g.clients(1, 3, f))
	}
	g.phase(g.strat(), g.clients(2+g.r.N(3), 1+g.r.N(6), f))
}

// C03: many goroutines use types nobody used before.
func (g *pg) c03() {
	if g.p1(400) {
		l := g.manyTypes(true)
		n := len(l) / 3
		ph := g.phase(g.strat(), [][]Op{l[:n*2], l[n:]})
		ph.Restart = true
		return
	}
	for i := 1 + g.r.N(3); i > 0; i-- {
		var ts []string
		for j := 1 + g.r.N(3); j > 0; j-- {
			ts = append(ts, g.of([][]string{recTypes, dynTypes, bothTypes, mcbTypes, ucbTypes, badTypes, containerTypes}[g.r.N(7)]))
		}
		if g.p1(10) {
			ts = []string{g.of(twinNames), g.of(twinNames), g.of(twinNames)}
		}
		n := 2 + g.r.N(4)
		cs := g.clients(n, 1+g.r.N(4), func() Op {
			if g.p1(2) {
				return g.mOp(ts)
			}
			op := g.uOp(ts)
			op.Pre = 0
			if g.p1(4) {
				op.D = "any"
				op.In.Twist = g.r.U64() | 1
			}
			return op
		})
		ph := g.phase(g.strat(), cs)
		ph.Restart = true
		if g.p1(8) {
			ph.KillAt = int64(50 + g.r.N(3000))
		}
	}
}

// C04: the same arguments in many calls at once.
func (g *pg) c04() {
	for i := 2 + g.r.N(3); i > 0; i-- {
		s := g.spec(encTypes)
		if g.p1(2) {
			s.Sp = true
		}
		if g.p1(5) {
			s = g.cbSpec()
		}
		if g.p1(6) {
			s = Spec{Cyc: g.of(append(append([]string{}, acyclicKinds...), cyclicKinds...)), N: 1 + g.r.N(5), V: g.r.U64()}
		}
		g.p.Shared = append(g.p.Shared, s)
	}
	for i := 2 + g.r.N(2); i > 0; i-- {
		op := g.uOp([]string{g.of(bothTypes), g.of(ucbTypes), g.of(bytesTypes)})
		if g.p1(5) {
			op.In.Dm = g.dm(damageKinds, 1)
		}
		g.p.Inputs = append(g.p.Inputs, op.In)
	}
	g.p.Arena = g.p1(2)
	f := func() Op {
		if g.p1(2) {
			k := g.r.N(len(g.p.Shared))
			op := Op{K: "marshal", Sh: 1 + k}
			op.In.T = g.p.Shared[k].T
			if g.p1(8) {
				op.CB = CB{Mode: []string{"err", "panic", "goexit", "stall"}[g.r.N(4)], At: 1 + g.r.N(3), V: g.r.N(30), N: int64(g.r.N(300))}
			}
			return op
		}
		k := g.r.N(len(g.p.Inputs))
		op := Op{K: "unmarshal", Sh: 1 + k, D: g.p.Inputs[k].T}
		op.In.T = g.p.Inputs[k].T
		op.In.V = g.r.U64()
		if g.p1(6) {
			op.D = "any"
		}
		if g.p1(3) {
			op.M = "scribble"
		}
		if g.p1(4) {
			op.CB.Buf = []string{"scribble", "append", "retain"}[g.r.N(3)]
		}
		return op
	}
	if g.p1(30) {
		g.phase(g.strat(), g.clients(12+g.r.N(60), 1, f))
		return
	}
	g.phase(g.strat(), g.clients(2+g.r.N(4), 2+g.r.N(5), f))
}

// cbSpec is a value with callbacks in containers of every kind.
func (g *pg) cbSpec() Spec {
	if g.p1(3) {
		n := 1 + g.r.N(6)
		if g.p1(3) {
			n = []int{300, 990, 999, 1001, 1010, 1200}[g.r.N(6)]
		}
		return Spec{Cyc: g.of(cbKinds), N: n, V: g.r.U64()}
	}
	return g.spec([]string{"any", "[]any", "map[string]any", "AnyBox", "CBStruct", "*CBStruct", "map[string]CBStruct", "[]*MPtr", "BothList", "[]Marshaler"})
}

// C05: any history of failures, then calls which must not notice.
func (g *pg) c05() {
	if g.p1(400) {
		g.phase(serial(), [][]Op{g.manyTypes(true)})
		return
	}
	if g.p1(60) {
		// what failed does well later, after so many other calls
		var l []Op
		for i := 1 + g.r.N(3); i > 0; i-- {
			op := Op{K: "later", R: g.r.N(8)}
			op.In.V = g.r.U64()
			op.In.N = []int{140, 300, 300, 700, 2000}[g.r.N(5)]
			if g.p1(60) {
				op.In.N = 33000
			}
			l = append(l, op)
		}
		g.phase(serial(), [][]Op{l})
		return
	}
	if g.p1(6) {
		g.oneByOne()
		return
	}
	if g.p1(3) {
		// many small failures, of every sort
		small := func() Op {
			op := g.fail()
			op.In.Z, op.In.N = min(op.In.Z, 10), min(op.In.N, 5)
			if op.In.Cyc == "" && op.K == "marshal" && g.p1(4) {
				op.In.T, op.In.Wild = g.of([]string{"any", "[]any", "map[string]any", "AnyBox"}), true
			}
			return op
		}
		st := serial()
		if g.p1(3) {
			st = g.strat()
		}
		g.phase(st, g.clients(1+g.r.N(2), 6+g.r.N(14), small))
		g.phase(serial(), g.clients(1, 2, func() Op { return g.uOp(bothTypes) }))
		return
	}
	good := func() Op {
		if len(g.p.Shared) > 0 && g.p1(3) {
			k := g.r.N(len(g.p.Shared))
			op := Op{K: "marshal", Sh: 1 + k}
			op.In.T = g.p.Shared[k].T
			return op
		}
		if g.p1(6) {
			k := g.of(acyclicKinds)
			return Op{K: "marshal", In: Input{Spec: Spec{Cyc: k, N: []int{3, 10, 30, 60, 3, 10, 30, 60, 300, 990, 1005, 1200}[g.r.N(12)], V: g.r.U64()}}}
		}
		if g.p1(2) {
			return g.mOp(encTypes)
		}
		return g.uOp(bothTypes)
	}
	// values which are encoded again after a call with them failed
	for i := 1 + g.r.N(3); i > 0; i-- {
		g.p.Shared = append(g.p.Shared, g.cbSpec())
	}
	again := func() Op {
		k := g.r.N(len(g.p.Shared))
		op := Op{K: "marshal", Sh: 1 + k}
		op.In.T = g.p.Shared[k].T
		return op
	}
	mixed := func() Op {
		switch g.r.N(6) {
		case 0:
			return good()
		case 1:
			return again()
		case 2:
			op := again()
			op.CB = CB{Mode: []string{"err", "errbytes", "panic", "goexit"}[g.r.N(4)], At: 1 + g.r.N(4), V: g.r.N(30)}
			return op
		}
		return g.fail()
	}
	long := g.p1(30)
	hist := g.clients(1+g.r.N(2), 4+g.r.N(10), mixed)
	if long {
		// the same failure very often
		op := g.fail()
		for op.CB.Mode == "goexit" || op.In.N > 20 {
			op = g.fail()
		}
		op.In.Z = 8
		op.Rep = []int{130, 1100, 1300, 2600}[g.r.N(4)]
		if op.In.Cyc != "" && !g.p1(8) {
			op.Rep = []int{20, 60, 130}[g.r.N(3)]
		}
		hist[0] = append(hist[0], op)
		if g.p1(2) {
			op2 := Op{K: "marshal", In: Input{Spec: Spec{Cyc: g.of(cyclicKinds), N: 1 + g.r.N(4), V: g.r.U64()}}, Rep: 1 + g.r.N(40)}
			hist[0] = append(hist[0], op2)
		}
	}
	if g.p1(2) {
		hist[0] = append(hist[0], g.relapse()...)
	}
	if g.p1(60) {
		hist[0] = append(hist[0], g.gaps()...)
	}
	st := serial()
	if g.p1(3) {
		st = g.strat()
	}
	// some of the same calls again, later and at the same time
	for i := range hist {
		for k := g.r.N(4); k > 0; k-- {
			l := hist[g.r.N(len(hist))]
			op := l[g.r.N(len(l))]
			if op.Rep == 0 {
				hist[i] = append(hist[i], op)
			}
		}
	}
	if g.p1(12) {
		// inputs and values which are deep as well as wrong
		hist[0] = append(hist[0], g.deepFails()...)
	}
	g.phase(st, hist)
	if g.p1(4) {
		ph := g.phase(serial(), [][]Op{hist[0][:min(4, len(hist[0]))]})
		ph.Restart = true
	}
	if g.p1(5) {
		g.phase(g.strat(), g.clients(2, 3, good))
	} else {
		g.phase(serial(), g.clients(1, 6, good))
	}
}

// gaps are lists with large gaps between their indices, one after the other.
func (g *pg) gaps() []Op {
	var l []Op
	n := []int{100_000, 600_000, 1_500_000, 3_000_000, 5_000_000, 9_000_000}[g.r.N(6)]
	ds := []string{"[]int", "[]int", "[][]int", "[]string", "[]any"}
	d := g.of(ds)
	for i := 2 + min(40, 12_000_000/n); i > 0; i-- {
		op := Op{K: "gap", D: d}
		op.In.N = n
		if g.p1(5) {
			op.In.N, op.D = []int{100_000, 3_000_000, 7_000_000, 30_000_000}[g.r.N(4)], g.of(ds)
		}
		l = append(l, op)
	}
	return l
}

// relapse are calls for one type: some whose callbacks fail, each in another way,
// and then the same without faults.
func (g *pg) relapse() []Op {
	var l []Op
	op := g.uOp(ucbTypes)
	op.D, op.Pre, op.In.Twist = op.In.T, 0, 0
	if g.p1(4) {
		op = g.mOp(mcbTypes)
	}
	op.In.Z = 10 + g.r.N(20)
	for i := 2 + g.r.N(5); i > 0; i-- {
		bad := op
		bad.CB = CB{Mode: []string{"err", "err", "err", "panic"}[g.r.N(4)], At: 1 + g.r.N(3), V: g.r.N(30)}
		if g.p1(2) {
			bad.CB.V = []int{2, 4}[g.r.N(2)]
		}
		if g.p1(3) {
			bad.In.V = g.r.U64() >> 16
		}
		l = append(l, bad)
	}
	return append(l, op)
}

// deepFails are calls which fail deep inside what they work on, several times,
// and others which go as deep and succeed.
func (g *pg) deepFails() []Op {
	n := []int{200, 1100, 3000, 5000, 9900}[g.r.N(5)]
	var l []Op
	for i := 2 + g.r.N(4); i > 0; i-- {
		switch g.r.N(4) {
		case 0:
			op := Op{K: "marshal", In: Input{Spec: Spec{Cyc: g.of(cbKinds[:2]), N: min(n, 3000), V: g.r.U64()}}}
			op.CB = CB{Mode: []string{"err", "panic", "goexit"}[g.r.N(3)], At: 1, V: g.r.N(30)}
			l = append(l, op, op)
		case 1:
			l = append(l, Op{K: "marshal", In: Input{Spec: Spec{Cyc: g.of(cyclicKinds), N: min(n, 1500), V: g.r.U64()}}})
		default:
			op := g.uOp([]string{"int", "string", "Small", "UCopy"})
			op.In.Deep, op.In.Obj, op.Pre, op.In.Z, op.In.Ptr = n, g.p1(3), 0, 3, false
			op.D = g.of([]string{"any", "SelfSlice", "[]any", "MapSlice", "SelfMap"})
			op.In.Dm = []Damage{{K: g.of([]string{"cut", "flip", "cut"}), A: g.r.U64() >> 20, B: g.r.U64() >> 20}}
			op.Rep = 1 + g.r.N(4)
			l = append(l, op)
		}
	}
	for i := 0; i < 3; i++ {
		op := g.uOp([]string{"int", "string", "Small"})
		op.In.Deep, op.Pre, op.In.Z, op.In.Ptr = n-g.r.N(3), 0, 3, false
		op.D = "any"
		if i == 1 {
			op.In.T, op.D = "[]int", "SelfSlice"
			op.In.Z = -1
		}
		l = append(l, op)
	}
	l = append(l, Op{K: "marshal", In: Input{Spec: Spec{Cyc: g.of(linearKinds), N: n, V: g.r.U64()}}})
	return l
}

// oneByOne has calls which fail, on few types, in one process and then again
// in another order in new ones: what went before decides nothing.
var narrowTypes = []string{"[]string", "[]string", "map[string]string", "[]int", "[]bool", "[]float64", "map[string]int", "map[int]string", "[][]byte",
	"map[string]bool", "map[string]float64", "[]map[string]string", "[][]string", "[]uint16", "map[int]int", "Small", "map[string][]string", "[4]int", "Scalars"}

func (g *pg) oneByOne() {
	ts := []string{g.of(bothTypes), g.of(containerTypes), g.of(ucbTypes)}
	if g.p1(2) {
		ts = []string{g.of(containerTypes)}
	}
	var l []Op
	// one destination, and records which do not fit it for different reasons
	tight, narrow := g.p1(2), g.of(narrowTypes)
	for i := 4 + g.r.N(10); i > 0; i-- {
		var op Op
		if tight {
			op = g.uOp([]string{"[]any", "map[string]any", "[]any", "any", "Maps", "[]string", narrow})
			op.D, op.Pre, op.Rep = narrow, 0, 0
			op.In.Z = []int{4, 10, 40}[g.r.N(3)]
			l = append(l, op)
			continue
		}
		switch g.r.N(6) {
		case 0:
			op = g.mOp(badTypes)
		case 1:
			op = g.fail()
		case 2:
			op = g.uOp(ts)
			op.D = g.of(ts)
		case 3:
			op = g.badDest()
		default:
			op = g.uOp(ts)
			op.D = op.In.T
			op.In.Dm = g.dm(damageKinds, 2)
		}
		if op.CB.Mode == "goexit" {
			op.CB.Mode = "err"
		}
		op.Pre, op.Rep = 0, 0
		l = append(l, op)
	}
	g.phase(serial(), [][]Op{l})
	for k := 1 + g.r.N(3); k > 0; k-- {
		m := append([]Op(nil), l...)
		for i := len(m) - 1; i > 0; i-- {
			j := g.r.N(i + 1)
			m[i], m[j] = m[j], m[i]
		}
		ph := g.phase(serial(), [][]Op{m[:1+g.r.N(len(m))]})
		ph.Restart = true
	}
}

// C06: what Marshal returned belongs to the caller.
func (g *pg) c06() {
	if g.p1(4) {
		// several clients encode the same values
		for i := 1 + g.r.N(2); i > 0; i-- {
			s := g.spec(containerTypes)
			s.Wild, s.Ptr = false, g.p1(2)
			g.p.Shared = append(g.p.Shared, s)
		}
	}
	f := func() Op {
		if n := len(g.p.Shared); n > 0 && g.p1(2) {
			k := g.r.N(n)
			op := Op{K: "marshal", Sh: 1 + k}
			op.In.T = g.p.Shared[k].T
			op.M = []string{"", "", "scribble", "append"}[g.r.N(4)]
			return op
		}
		switch g.r.N(10) {
		case 0:
			return Op{K: "own", In: Input{Spec: Spec{V: g.r.U64()}}}
		case 1:
			return Op{K: "check"}
		case 2:
			return g.fail()
		case 3:
			return g.uOp(bothTypes)
		}
		op := g.mOp(encTypes)
		if g.p1(100) {
			op = g.large()
			if g.p1(2) {
				// and the next one gets the same buffer
				k := []int{0, 1, 6, 12}[g.r.N(4)]
				op = Op{K: "marshal", In: Input{Spec: Spec{Cyc: "huge", N: k, V: g.r.U64()}}}
			}
		}
		if g.p1(4) {
			// results which fit in one pooled buffer after another
			op = g.mOp([]string{"string", "bytes", "[]string", "Small", "any", "MVal", "Lists"})
		}
		op.M = []string{"", "", "scribble", "append"}[g.r.N(4)]
		if g.p1(5) {
			op.CB.Buf = []string{"reuse", "spare"}[g.r.N(2)]
		}
		return op
	}
	if g.p1(60) {
		g.crowd(f)
		return
	}
	st := g.strat()
	if g.p1(2) {
		st = serial()
	}
	n := 1 + g.r.N(3)
	if g.p.Shared != nil {
		st, n = g.strat(), 2+g.r.N(3)
	}
	g.phase(st, g.clients(n, 6+g.r.N(12), f))
	if g.p1(3) {
		ph := g.phase(serial(), g.clients(1, 4, f))
		ph.GC = true
	}
}

// C07: what Unmarshal decoded belongs to the caller.
func (g *pg) c07() {
	// what several clients decode
	var same []Op
	if g.p1(4) {
		for i := 1 + g.r.N(2); i > 0; i-- {
			op := g.uOp([][]string{bothTypes, bytesTypes, mapTypes}[g.r.N(3)])
			if g.p1(2) {
				op.D, op.Pre = "any", 0
			}
			same = append(same, op)
		}
	}
	f := func() Op {
		if same != nil && g.p1(2) {
			op := same[g.r.N(len(same))]
			op.M = []string{"", "scribble"}[g.r.N(2)]
			return op
		}
		switch g.r.N(10) {
		case 0:
			return Op{K: "check"}
		case 1:
			return g.fail()
		case 2:
			return g.mOp(encTypes)
		}
		if g.p1(200) {
			op := g.largeIn()
			op.M = "scribble"
			return op
		}
		op := g.uOp([][]string{bothTypes, bytesTypes, ucbTypes, {"ByteMix", "UStruct", "BothList", "Lists", "Scalars", "bytes", "Blob"}}[g.r.N(4)])
		if g.p1(12) {
			// the same again and again
			op.In.T = g.of([]string{"Small", "Dict", "any", "map[string]any", "[]int", "[]string", "Lists", "Node", "bytes", "string", "map[int]int", "ByteMix"})
			op.In.Long, op.In.Ptr, op.In.Z = 2+g.r.N(4), false, 3+g.r.N(8)
			op.D = g.of([]string{"any", "any", "[]any", "map[int]any", "MapSlice", "SelfSlice"})
			op.Pre = op.Pre * uint64(g.r.N(2))
		}
		if g.p1(2) {
			op.M = "scribble"
		}
		if g.p1(4) {
			op.CB.Buf = []string{"scribble", "append", "retain"}[g.r.N(3)]
		}
		return op
	}
	if g.p1(60) {
		g.crowd(f)
		return
	}
	st := g.strat()
	if g.p1(2) {
		st = serial()
	}
	n := 1 + g.r.N(3)
	if same != nil {
		st, n = g.strat(), 2+g.r.N(3)
	}
	g.phase(st, g.clients(n, 5+g.r.N(10), f))
}

func (g *pg) mcb(nest bool) CB {
	c := CB{At: 1 + g.r.N(5), V: g.r.N(30)}
	switch g.r.N(8) {
	case 0:
	case 1:
		c.Mode = "err"
	case 2:
		c.Mode = "errbytes"
	case 3:
		c.Mode = "panic"
	case 4:
		c.Mode = "goexit"
		if nest {
			c.Mode = "panic"
		}
	case 5:
		c.Mode = "stall"
		c.N = int64(1 + g.r.N(500))
	case 6:
		c.Mode = "reenter"
		c.At = g.r.N(3)
		op := g.nested()
		c.Nest = &op
	}
	return c
}

func (g *pg) nested() Op {
	var op Op
	switch g.r.N(6) {
	case 0:
		op = g.mOp(mcbTypes)
		op.CB = CB{Mode: []string{"", "err", "panic"}[g.r.N(3)], At: 1 + g.r.N(3), V: g.r.N(30)}
	case 1:
		op = g.uOp(ucbTypes)
		op.D, op.Pre = op.In.T, 0
		op.CB = CB{Mode: []string{"", "err", "panic"}[g.r.N(3)], At: 1 + g.r.N(3), V: g.r.N(30)}
	case 2, 3:
		op = g.mOp(encTypes)
	default:
		op = g.uOp(bothTypes)
	}
	op.In.Z = 12
	return op
}

// C08: MarshalPHP methods which fail in every way.
func (g *pg) c08() {
	f := func() Op {
		if g.p1(6) {
			return g.mOp(encTypes)
		}
		op := g.mOp(mcbTypes)
		if g.p1(5) {
			op = g.mOp([]string{"any", "[]any", "map[string]any", "AnyBox"})
			op.In.Wild = false
		}
		if g.p1(10) {
			// deep down
			op = Op{K: "marshal", In: Input{Spec: Spec{Cyc: g.of(cbKinds), N: 1 + g.r.N(20), V: g.r.U64()}}}
			if g.p1(25) {
				op.In.N = []int{100, 300, 510, 990, 1005, 1500}[g.r.N(6)]
			}
		}
		op.CB = g.mcb(false)
		if op.In.Cyc != "" && op.CB.Mode != "reenter" {
			op.CB.At = 1
		}
		if g.p1(3) {
			op.CB.Buf = []string{"reuse", "spare"}[g.r.N(2)]
		}
		return op
	}
	if g.p1(60) {
		g.crowd(f)
		return
	}
	st := g.strat()
	if g.p1(2) {
		st = serial()
	}
	g.phase(st, g.clients(1+g.r.N(3), 4+g.r.N(6), f))
}

// C09: UnmarshalPHP methods which fail in every way.
func (g *pg) c09() {
	f := func() Op {
		if g.p1(6) {
			return g.uOp(bothTypes)
		}
		op := g.uOp(ucbTypes)
		op.D = op.In.T
		if g.p1(10) {
			op = Op{K: "unmarshal", D: g.of([]string{"URec", "*URec"})}
			op.In.T, op.In.Cyc, op.In.N, op.In.V = op.D, "uchain", 1+g.r.N(12), g.r.U64()
			if g.p1(20) {
				op.In.N = []int{50, 120, 300, 600, 1005}[g.r.N(5)]
			}
		}
		op.CB = g.mcb(false)
		if op.In.Cyc != "" && op.CB.Mode != "reenter" {
			op.CB.At = 1 + g.r.N(2)
		}
		if op.CB.Mode == "errbytes" {
			op.CB.Mode = "err"
		}
		if g.p1(2) {
			op.CB.Buf = []string{"scribble", "append", "retain"}[g.r.N(3)]
		}
		if g.p1(6) {
			op.In.Dm = g.dm(damageKinds, 1)
		}
		if g.p1(4) {
			op.Dst = 1 + g.r.N(2)
		}
		return op
	}
	if g.p1(60) {
		g.crowd(f)
		return
	}
	st := g.strat()
	if g.p1(2) {
		st = serial()
	}
	g.phase(st, g.clients(1+g.r.N(3), 4+g.r.N(6), f))
}

// C10: callbacks which call back into the library, or do not return.
func (g *pg) c10() {
	f := func() Op {
		nest := func(c *CB) {
			c.At = g.r.N(3)
			if g.p1(2) {
				c.Mode = "reenter"
				op := g.nested()
				if g.p1(3) {
					in := g.nested()
					op.CB = CB{Mode: "reenter", Nest: &in}
				}
				c.Nest = &op
			} else {
				c.Mode = "stall"
				c.N = -1
				if g.p1(3) {
					c.N = int64(1 + g.r.N(2000))
				}
			}
		}
		switch g.r.N(6) {
		case 0, 1:
			op := g.mOp(mcbTypes)
			nest(&op.CB)
			return op
		case 2, 3:
			op := g.uOp(ucbTypes)
			op.D = op.In.T
			nest(&op.CB)
			return op
		case 4:
			return g.mOp(encTypes)
		}
		return g.uOp(bothTypes)
	}
	if g.p1(24) {
		g.crowd(f)
		return
	}
	var cs [][]Op
	switch {
	case g.p1(24): // very many calls in progress at once
		cs = g.clients(10+g.r.N(120), 1, func() Op {
			op := g.mOp([]string{"MVal", "*MPtr", "CBStruct", "[]MVal", "map[string]MVal"})
			if g.p1(2) {
				op = g.uOp([]string{"UCopy", "UStruct", "[]UCopy", "Both"})
				op.D = op.In.T
			}
			op.In.Z = 6
			op.CB = CB{Mode: "stall", At: 1, N: -1}
			return op
		})
		cs = append(cs, g.clients(2, 2, f)...)
	case g.p1(16): // very deeply nested
		l := []Op{g.mOp([]string{"MVal", "*MPtr", "CBStruct", "[]MVal", "map[string]MVal"}), g.uOp([]string{"UCopy", "UStruct", "[]UCopy", "Both"})}
		for i := range l {
			l[i].D = ""
			l[i].Pre = 0
			l[i].In.Z = 6
			l[i].CB = CB{Mode: "reenter", At: 1, N: []int64{5, 20, 70, 140}[g.r.N(4)]}
		}
		cs = [][]Op{l, g.clients(1, 2, f)[0]}
	default:
		cs = g.clients(2+g.r.N(4), 1+g.r.N(4), f)
	}
	ph := g.phase(g.strat(), cs)
	ph.Restart = g.p1(2)
}

// C11: values which refer to themselves, values which only look as if.
func (g *pg) c11() {
	f := func() Op {
		var s Spec
		if g.p1(2) {
			s = Spec{Cyc: g.of(cyclicKinds), N: g.cycLen(), V: g.r.U64()}
			if g.p1(5) {
				s.N = []int{100, 300, 997, 1000, 1003, 2100}[g.r.N(6)]
			}
		} else {
			s = Spec{Cyc: g.of(acyclicKinds), N: 1 + g.r.N(60), V: g.r.U64()}
			if g.p1(5) {
				s.N = []int{990, 998, 1000, 1001, 1010, 1300, 2500}[g.r.N(7)]
			}
			if g.p1(30) {
				s.Cyc = g.of(linearKinds)
				s.N = []int{5000, 9990, 10001, 12000, 16000, 30000}[g.r.N(6)]
			}
		}
		op := Op{K: "marshal", In: Input{Spec: s}}
		if g.p1(8) {
			op = g.mOp(recTypes)
		}
		return op
	}
	st := serial()
	if g.p1(3) {
		st = g.strat()
	}
	g.phase(st, g.clients(1+g.r.N(2), 2+g.r.N(6), f))
}

// C12, C13, C14: records as a failing disk or network returns them.
// sweep damages one small record at every place, one place at a time.
func (g *pg) sweep() {
	op := g.uOp([][]string{bothTypes, decTypes, containerTypes, ucbTypes, narrowTypes}[g.r.N(5)])
	op.Pre, op.In.Z = 0, 1+g.r.N(7)
	if g.p1(3) {
		op.In.Unk = true
		op.D = g.of([]string{"Small", "Node", "Scalars", "UCopy"})
	}
	var l []Op
	n := 60 + g.r.N(100)
	b := g.r.U64() >> 20
	for i := 0; i < n; i++ {
		o := op
		d := Damage{A: uint64(i), B: g.r.U64() >> 20}
		switch g.prop {
		case "C12":
			d.K = "cut"
		case "C13":
			d.K = "tail"
			if i%2 == 0 {
				d.A = uint64(i) * 4
			} else {
				d.A = uint64(i)*4 + 1
			}
		default:
			d.K = []string{"set", "set", "set", "set", "lose", "dup", "num", "flip", "cut", "type"}[b%10]
			if d.K == "lose" || d.K == "dup" {
				d.B = 0
				if g.p1(4) {
					d.B = 1
				}
			}
			if b/10%3 == 0 && (d.K == "set" || d.K == "num") {
				d.B = b / 30
			}
		}
		o.In.Dm = []Damage{d}
		l = append(l, o)
	}
	g.phase(serial(), [][]Op{l})
}

func (g *pg) damaged(kinds []string, max int) {
	if g.p1(3) {
		g.sweep()
		return
	}
	f := func() Op {
		if g.prop == "C14" && g.p1(25) {
			return g.noDest()
		}
		op := g.uOp([][]string{bothTypes, containerTypes, ucbTypes, bytesTypes}[g.r.N(4)])
		if g.p1(12) {
			op.In.T = g.of(decTypes)
			op.D = op.In.T
		}
		if g.p1(30) {
			op.In.Deep = []int{3, 5, 20, 60, 200, 500}[g.r.N(6)]
			if g.p1(25) {
				op.In.Deep = []int{3000, 9000, 12000, 12000, 60000}[g.r.N(5)]
			}
			op.D = g.of([]string{"any", "any", "SelfSlice", "[]any"})
			op.In.Obj = g.p1(3)
			if g.p1(2) {
				op.In.Obj, op.In.Open = false, g.r.N(7)
				op.D = g.of([]string{"any", "any", "any", "map[string]any", "SelfMap", "map[int]any"})
			}
			if g.p1(3) {
				op.In.Unk = true
				op.D = g.of([]string{"Small", "Node", "Scalars", "UCopy"})
			}
		}
		if g.p1(250) {
			op = g.largeIn()
		}
		if g.prop == "C14" && g.p1(60) {
			return g.textOp()
		}
		if g.p1(120) {
			l := [][2]string{{"int", "[]int"}, {"string", "[]string"}, {"Small", "[]any"}, {"int", "map[int]int"}, {"int", "any"}, {"UCopy", "[]UCopy"}, {"string", "Small"}}[g.r.N(7)]
			op.In.T, op.D, op.In.Z = l[0], l[1], 2
			op.In.Long = []int{100, 1000, 3000, 20000}[g.r.N(4)]
			op.In.Ptr, op.Pre = false, 0
		}
		if !g.p1(10) {
			op.In.Dm = g.dm(kinds, max)
		}
		if g.p1(6) {
			op.Dst = 1 + g.r.N(3)
		}
		if g.p1(10) {
			op.CB.Buf = []string{"scribble", "append", "retain"}[g.r.N(3)]
		}
		return op
	}
	st := serial()
	if g.p1(4) {
		st = g.strat()
	}
	g.phase(st, g.clients(1+g.r.N(2), 8+g.r.N(16), f))
}

// C15: programs which exchange values through a store, and die.
func (g *pg) c15() {
	put := func(rec int) Op {
		op := g.mOp([]string{g.of(bothTypes), g.of(bothTypes), g.of(containerTypes)})
		op.K, op.In.Odd = "put", false
		op.In.Ptr = false
		op.In.Wild = false
		op.R = rec
		op.M = []string{"atomic", "atomic", "sync", "nosync", "notrunc"}[g.r.N(5)]
		if g.p1(12) {
			op.CB = CB{Mode: "err", At: 1}
		}
		if g.p1(200) {
			in := g.largeIn().In
			op.In.Cyc, op.In.N, op.In.T, op.In.V = in.Cyc, in.N, in.T, in.V
		}
		return op
	}
	get := func(rec int) Op {
		op := Op{K: "get", R: rec, In: Input{Spec: Spec{V: g.r.U64()}}}
		if g.p1(4) {
			op.D = "any"
		}
		if g.p1(5) {
			op.Dst = 1 + g.r.N(3)
		}
		return op
	}
	if g.p1(12) {
		put1 := put
		put = func(rec int) Op {
			op := put1(rec)
			op.In.T = g.of(twinNames)
			return op
		}
	}
	if g.p1(400) {
		// very many types before
		g.phase(serial(), [][]Op{g.manyTypes(true)})
	}
	f := func() Op {
		rec := g.r.N(5)
		if g.p1(2) {
			return put(rec)
		}
		return get(rec)
	}
	for i := 1 + g.r.N(3); i > 0; i-- {
		ph := g.phase(g.strat(), g.clients(1+g.r.N(3), 3+g.r.N(5), f))
		if g.p1(2) {
			ph.KillAt = int64(30 + g.r.N(6000))
		}
		var l []Op
		for r := 0; r < 5; r++ {
			l = append(l, get(r))
		}
		ph = g.phase(serial(), [][]Op{l})
		ph.Restart = true
	}
}

// C16: destinations which already hold something.
func (g *pg) c16() {
	ts := []string{g.of(bothTypes), g.of(containerTypes), g.of(containerTypes), g.of([]string{"Ptrs", "Maps", "Lists", "Arrays", "AnyBox", "Node", "Tags", "UStruct", "IfU", "BothList", "Scalars", "*Lists", "KeyMix"})}
	f := func() Op {
		if g.p1(150) {
			op := g.largeIn()
			op.Dst = 1 + g.r.N(3)
			return op
		}
		op := g.uOp(ts)
		op.D = op.In.T
		op.Pre = 0
		switch g.r.N(4) {
		case 0:
			op.Pre = g.r.U64() | 1
		default:
			for i, t := range ts {
				if t == op.In.T {
					op.Dst = 1 + i
				}
			}
		}
		if g.p1(2) {
			op.In.Twist = g.r.U64() | 1
		}
		if g.p1(8) {
			op.In.Dm = g.dm(damageKinds, 1)
		}
		if g.p1(12) {
			op.CB = CB{Mode: []string{"err", "panic"}[g.r.N(2)], At: 1 + g.r.N(3), V: g.r.N(30)}
		}
		return op
	}
	st := serial()
	if g.p1(4) {
		st = g.strat()
	}
	g.phase(st, g.clients(1+g.r.N(2), 6+g.r.N(10), f))
}

// C17: maps, whatever order their entries come in.
func (g *pg) c17() {
	f := func() Op {
		op := g.mOp(mapTypes)
		if g.p1(3) {
			op = g.mOp([]string{"any", "map[string]any", "[]any", "AnyBox", "map[int]any", "Gen[any]"})
		}
		op.In.Z = []int{10, 30, 60, 120, 500}[g.r.N(5)]
		op.In.Wild = false
		if g.p1(10) {
			op.CB = g.mcb(false)
		}
		if g.p1(3) {
			op = g.uOp(mapTypes)
			op.D = op.In.T
			op.In.Z = 40
		}
		if g.p1(25) {
			return g.large()
		}
		return op
	}
	st := serial()
	if g.p1(3) {
		st = g.strat()
	}
	g.phase(st, g.clients(1+g.r.N(2), 4+g.r.N(8), f))
}

// C18: the same calls again and again.
func (g *pg) c18() {
	p := g.p
	p.Cost = true
	p.Pool = []string{"lifo", "fifo", "lifo"}[g.r.N(3)]
	pm := g.mOp(encTypes)
	pm.M = "probe"
	pm.In.Wild = false
	pu := g.uOp(bothTypes)
	pu.M, pu.D, pu.Pre = "probe", pu.In.T, 0
	pl := Op{K: "marshal", M: "probe", In: Input{Spec: Spec{Cyc: "nextopen", N: 20}}}
	probes := []Op{pm, pu, pl}
	var set []Op
	for i := 5 + g.r.N(6); i > 0; i-- {
		switch g.r.N(3) {
		case 0:
			op := g.fail()
			if op.CB.Mode == "goexit" {
				op.CB.Mode = "err"
			}
			set = append(set, op)
		case 1:
			set = append(set, g.mOp(encTypes))
		default:
			set = append(set, g.uOp(bothTypes))
		}
	}
	for i := range set {
		set[i].In.Z = 6
		if set[i].In.N > 20 {
			set[i].In.N = 3
		}
	}
	heavy := g.p1(2)
	vary := g.p1(2)
	var l []Op
	rounds := 6 + g.r.N(6)
	p.Vary = heavy && vary
	if p.Vary {
		set = set[:2]
		for i := 0; i < 3; i++ {
			op := Op{K: "marshal"}
			op.In.Cyc, op.In.N, op.In.V = variedKinds[g.r.N(4)], 40, g.r.U64()
			if g.p1(2) {
				op.K, op.In.T = "unmarshal", "any"
				if g.p1(3) {
					op.In.Cyc = []string{"classes", "garble"}[g.r.N(2)]
				}
				ds := map[string][]string{"numset": {"any", "map[int]int", "map[int]any"}, "floats": {"any", "[]float64", "[]any"}, "classes": {"any", "[]any", "[]UCopy", "MapSlice", "[]Small"}, "garble": {"any", "[]any", "[]UCopy", "[]Small", "[]string", "Small"}, "sized": {"any", "[]any"}, "names": {"any", "Dict", "map[string]string", "map[string]any", "Small", "Node"}, "nameset": {"any", "Dict", "map[string]any", "Small", "Scalars"}, "namelist": {"any", "[]string", "[]any"}}
				op.D = g.of(ds[op.In.Cyc])
			}
			set = append(set, op)
		}
		rounds = 10
	}
	if p.Vary {
		l = append(l, Op{K: "warm"})
	}
	for i := 0; i < rounds; i++ {
		l = append(l, probes...)
		if i >= 2 && heavy {
			l = append(l, Op{K: "heap"})
		}
		for _, op := range set {
			if i >= 2 && heavy {
				op.Rep = 80
				if vary {
					op.Rep, op.Var = 80, true
					if op.In.Cyc == "sized" {
						op.Rep = 30
					} else if op.In.Cyc != "" {
						op.Rep = 40
					}
				}
			} else {
				op.Rep = 1 + g.r.N(12)
			}
			l = append(l, op)
		}
	}
	l = append(l, probes...)
	if heavy {
		l = append(l, Op{K: "heap"})
	}
	g.phase(serial(), [][]Op{l})
}
