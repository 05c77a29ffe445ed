package world

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"

	php "github.com/trim21/go-phpserialize"
	"github.com/trim21/go-phpserialize/internal/verifsim/ref"
	"github.com/trim21/go-phpserialize/internal/verifsim/simreset"
	"github.com/trim21/go-phpserialize/internal/verifsim/simrt"
	"github.com/trim21/go-phpserialize/internal/verifsim/simsync"
)

// OpLimit is how many scheduling points one operation may take before it is
// said not to end. The largest legitimate ones take about a tenth.
const OpLimit = 6_000_000

type World struct {
	plan    *Plan
	shared  []*sharedVal
	inputs  []*sharedIn
	disk    *disk
	stats   map[string]int64
	viol    *Violation
	digest  uint64
	record  bool
	probes  map[string][]int64
	said    map[string]string // how calls failed, by their arguments
	gaps    map[string]string // what was said to lists with large gaps
	libErr  [6]error          // errors of earlier calls, which callbacks return again
	libText [6]string
	heaps   []uint64
	maxLen  int // the longest input or output
	nRuns   int
	out     Outcome
	phase   int
	clients []*client
}

type sharedVal struct {
	v     reflect.Value
	spec  Spec
	orig  reflect.Value
	extra []reflect.Value
	exto  []reflect.Value
	node  *ref.Node
	err   error
	calls []int
	big   bool
}

type sharedIn struct {
	buf  []byte
	n    int
	orig string
	tail string // what lies behind it
	typ  string
}

type client struct {
	w      *World
	id     int
	ops    []Op
	next   int
	cur    *opRun
	depth  int
	varied uint64
	sized  int
	maxLen int
	rbuf   []byte
	kept   []kept
	said   []said
	errs   []saved
	slots  [5]reflect.Value
	stats  map[string]int64
	viol   *Violation
	dig    uint64
	done   bool
}

type kept struct {
	what string
	b    []byte
	s    string
	got  reflect.Value
	want reflect.Value
	slot int
	pre  bool // decoded into something which held values before
	op   int
}

// saved is an error the client got and keeps.
type saved struct {
	err  error
	text string
	what string
	op   int
}

// said is how a call failed, for calls whose arguments alone decide it.
type said struct{ key, text string }

// sayings: the same call gives the same error, however old the process is and
// whatever else goes on.
func (w *World) sayings(cl *client) {
	for _, s := range cl.said {
		old, ok := w.said[s.key]
		if !ok {
			w.said[s.key] = s.text
			continue
		}
		w.stats["said.same"]++
		if old != s.text && w.viol == nil {
			w.viol = &Violation{Kind: "error-differs", Detail: fmt.Sprintf("the same call (%s) failed once with %.300q and another time with %.300q", s.key, old, s.text), Phase: w.phase, Client: cl.id}
		}
	}
}

func (cl *client) says(key string, err error) {
	if len(cl.said) < 200 && cl.depth == 0 && !cl.w.plan.Cost {
		cl.said = append(cl.said, said{key, fmt.Sprintf("%T %v", err, err)})
	}
}

// ordered: no order of map iteration can decide how encoding v fails.
func ordered(v reflect.Value, depth int, left *int) bool {
	*left--
	if !v.IsValid() || depth > 60 || *left < 0 {
		return *left >= 0
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		return v.IsNil() || ordered(v.Elem(), depth+1, left)
	case reflect.Map:
		if v.Len() > 1 {
			return false
		}
		for it := v.MapRange(); it.Next(); {
			if !ordered(it.Value(), depth+1, left) {
				return false
			}
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if !ordered(v.Index(i), depth+1, left) {
				return false
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if !ordered(v.Field(i), depth+1, left) {
				return false
			}
		}
	}
	return true
}

type opRun struct {
	op       *Op
	cl       *client
	idx      int
	size     int64 // of the input
	how      string
	pval     any
	stack    string
	calls    []int
	raws     []string
	fired    bool
	sentinel *cbErr
	fault0   error // what the callback returned
	spare    []spareBuf
	retain   []spareBuf
	steps    int64
	finish   func()
}

func (cl *client) count(k string) { cl.stats[k]++ }

//go:norace
func (cl *client) violate(kind, detail string) {
	if cl.viol == nil {
		if len(detail) > 1500 {
			detail = detail[:1500] + "..."
		}
		cl.viol = &Violation{Kind: kind, Detail: detail, Phase: cl.w.phase, Client: cl.id, Op: cl.next, Step: simrt.Now()}
	}
}

func (cl *client) note(x uint64) { cl.dig = simrt.Hash(cl.dig, x, 1) }

func hashBytes(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return h
}

// Run executes a plan. It must be called from the main goroutine of a process
// in which no simulation is running.
func Run(p *Plan, record bool) *Outcome {
	w := &World{plan: p, stats: map[string]int64{}, record: record, said: map[string]string{}, gaps: map[string]string{}, probes: map[string][]int64{}}
	w.disk = newDisk(p.Sector, p.Seed)
	simrt.PoolMode, simrt.PoolSeed, simrt.MapSeed = p.Pool, p.PoolS, p.MapS
	simrt.PoolEpoch++
	simsync.DropPools()
	simrt.Skew = 0
	// the run before may have ended in the middle of calls
	restart()
	simrt.Run(simrt.Config{Strategy: simrt.Strategy{Kind: "serial"}, OpLimit: OpLimit}, []func(){func() {
		w.libErr[0] = php.Unmarshal([]byte("i:1;"), new(string))
		w.libErr[1] = php.Unmarshal([]byte("s:1:\"x;"), new(string))
		_, w.libErr[2] = php.Marshal(make(chan int))
		w.libErr[3] = php.Unmarshal([]byte("a:0:{}"), new(struct{ F **int }))
		w.libErr[4] = php.Unmarshal([]byte("a:0:{}"), nil)
		_, w.libErr[5] = php.Marshal(map[float64]int{})
	}})
	for i, err := range w.libErr {
		if err == nil {
			w.viol = &Violation{Kind: "should-fail", Detail: "a call which must fail succeeded"}
			w.libErr[i] = errOther
		}
		w.libText[i] = w.libErr[i].Error()
	}
	restart()
	for _, s := range p.Shared {
		w.shared = append(w.shared, w.mkShared(s))
	}
	var arena []byte
	for _, in := range p.Inputs {
		b, typ := w.input(in)
		si := &sharedIn{buf: canary(b), n: len(b), orig: string(b), typ: typ}
		arena = append(arena, b...)
		w.inputs = append(w.inputs, si)
	}
	if p.Arena {
		// the records lie one behind the other in one array
		arena = canary(arena)
		off := 0
		for _, s := range w.inputs {
			s.buf = arena[off:]
			off += s.n
		}
	}
	for _, s := range w.inputs {
		s.tail = string(s.buf[s.n:])
	}
	races := simrt.RaceErrors()
	for i := range p.Phases {
		w.phase = i
		w.runPhase(&p.Phases[i])
		if r := simrt.RaceErrors(); r != races && w.viol == nil {
			w.viol = &Violation{Kind: "race", Detail: "the race detector reported a data race (see stderr)", Phase: i}
		}
		if w.viol != nil {
			break
		}
	}
	if w.viol == nil && p.Cost {
		w.checkCost()
	}
	w.out.Viol = w.viol
	w.out.Stats = w.stats
	w.out.Digest = w.digest
	return &w.out
}

const canaryLen = 24

func canary(b []byte) []byte {
	full := make([]byte, len(b)+canaryLen)
	copy(full, b)
	for i := len(b); i < len(full); i++ {
		full[i] = 0xA5
	}
	return full
}

func canaryOK(full []byte, n int) bool {
	for _, c := range full[n:] {
		if c != 0xA5 {
			return false
		}
	}
	return true
}

// restart takes the library back to a process which has just begun.
func restart() {
	if simreset.Level < 2 {
		simrt.Restart()
	}
	simreset.Reset()
}

func (w *World) runPhase(ph *Phase) {
	if ph.Skew != 0 {
		w.stats["fault.clock-jump"]++
		simrt.Skew += ph.Skew
	}
	if ph.Restart {
		w.stats["fault.restart"]++
		restart()
		simrt.PoolEpoch++
	}
	if ph.GC {
		w.stats["fault.pools-emptied"]++
		simrt.PoolEpoch++
	}
	w.clients = nil
	var fns []func()
	for i, ops := range ph.Clients {
		cl := &client{w: w, id: i, ops: ops, stats: map[string]int64{}}
		w.clients = append(w.clients, cl)
		fns = append(fns, cl.loop)
	}
	killAt := ph.KillAt
	if simreset.Level >= 2 {
		killAt = 0 // what a dying process holds could not be taken back
	}
	res := simrt.Run(simrt.Config{Seed: w.plan.Seed + uint64(w.phase)*0x51ed, Strategy: ph.Strat, KillAt: killAt, GCAt: ph.GCAt, OnGC: simsync.DropPools, OpLimit: OpLimit, Record: w.record}, fns)
	if res.GCs > 0 {
		w.stats["fault.gc"] += res.GCs
	}
	w.out.Steps += res.Steps
	w.out.Switches += res.Switches
	w.out.Preempts += res.Preempts
	w.out.Hash = simrt.Hash(w.out.Hash, res.Hash, uint64(res.Switches))
	w.out.Scheds = append(w.out.Scheds, res.Schedule)
	if res.Stalls > 0 {
		w.stats["stalls"] += res.Stalls
	}
	for _, cl := range w.clients {
		w.maxLen = max(w.maxLen, cl.maxLen)
		for k, n := range cl.stats {
			w.stats[k] += n
		}
		w.digest = simrt.Hash(w.digest, cl.dig, uint64(cl.id))
		if cl.viol != nil && w.viol == nil {
			w.viol = cl.viol
		}
		w.sayings(cl)
	}
	w.digest = simrt.Hash(w.digest, res.Hash, uint64(res.Steps))
	if w.viol != nil {
		return
	}
	site := ""
	if int(res.OverSite) < len(simreset.Sites) {
		site = simreset.Sites[res.OverSite]
	}
	switch {
	case res.Crash != "":
		w.viol = &Violation{Kind: "crash", Detail: "a goroutine started by the library panicked, which ends the process: " + res.Crash, Phase: w.phase, Step: res.Steps}
	case res.OverLimit:
		w.viol = &Violation{Kind: "no-termination", Detail: fmt.Sprintf("an operation took more than its limit of scheduling points (%d at least), last at %s", OpLimit, site), Phase: w.phase, Step: res.Steps}
	case res.Deadlock:
		w.viol = &Violation{Kind: "deadlock", Detail: "no client can make progress", Phase: w.phase, Step: res.Steps}
	case res.StallBlock:
		w.viol = &Violation{Kind: "blocked-by-stall", Detail: "a call could only proceed after another call's stalled callback returned", Phase: w.phase, Step: res.Steps}
	case res.Killed:
		w.stats["fault.crash"]++
		w.disk.crash(func(k string) { w.stats[k]++ })
	default:
		for _, cl := range w.clients {
			if !cl.done {
				w.viol = &Violation{Kind: "deadlock", Detail: fmt.Sprintf("client %d did not finish", cl.id), Phase: w.phase, Client: cl.id, Step: res.Steps}
			}
		}
	}
	if w.viol == nil && !res.Killed {
		w.checkKept()
	}
	if w.viol == nil {
		w.checkShared()
	}
}

func (w *World) checkShared() {
	for i, err := range w.libErr {
		if s := err.Error(); s != w.libText[i] {
			w.viol = &Violation{Kind: "error-mutated", Detail: fmt.Sprintf("an error which several callbacks returned was changed from %q to %q", w.libText[i], s), Phase: w.phase}
			return
		}
	}
	for i, s := range w.shared {
		if d := ref.Diff(s.orig, s.v); d != "" {
			w.viol = &Violation{Kind: "shared-mutated", Detail: fmt.Sprintf("shared argument %d (%s) was changed: %s", i, s.v.Type(), d), Phase: w.phase}
			return
		}
		for j := range s.extra {
			if d := ref.Diff(s.exto[j], s.extra[j]); d != "" {
				w.viol = &Violation{Kind: "shared-mutated", Detail: fmt.Sprintf("spare capacity of shared argument %d was changed: %s", i, d), Phase: w.phase}
				return
			}
		}
	}
	for i, s := range w.inputs {
		if string(s.buf[:s.n]) != s.orig || string(s.buf[s.n:]) != s.tail {
			w.viol = &Violation{Kind: "input-mutated", Detail: fmt.Sprintf("shared input %d was changed to %.200q", i, s.buf), Phase: w.phase}
			return
		}
	}
}

func (w *World) checkKept() {
	w.checkApart()
	for _, cl := range w.clients {
		cl.recheck()
		if cl.viol != nil && w.viol == nil {
			w.viol = cl.viol
		}
	}
}

// recheck looks again at everything earlier calls returned to this client.
func (cl *client) recheck() {
	for _, e := range cl.errs {
		if s := e.err.Error(); s != e.text {
			cl.violate("result-mutated", fmt.Sprintf("the error %s of op %d changed later: was %.300q, now %.300q", e.what, e.op, e.text, s))
		}
	}
	for _, k := range cl.kept {
		if k.b != nil {
			if string(k.b) != k.s {
				cl.violate("result-mutated", fmt.Sprintf("%s of op %d changed later: was %.300q, now %.300q", k.what, k.op, k.s, k.b))
			}
			continue
		}
		if d := ref.Diff(k.want, k.got); d != "" {
			cl.violate("result-mutated", fmt.Sprintf("%s of op %d changed later: %s", k.what, k.op, d))
		}
	}
}

// keepErr notes an error a call returned: it must not change any more.
func (cl *client) keepErr(what string, err error) {
	if cl.w.plan.Cost || len(cl.errs) > 24 {
		return
	}
	cl.errs = append(cl.errs, saved{err, err.Error(), what, cl.next})
}

func (cl *client) keep(k kept) {
	if cl.w.plan.Cost {
		return
	}
	k.op = cl.next
	cl.kept = append(cl.kept, k)
	if len(cl.kept) > 24 {
		cl.kept = append([]kept(nil), cl.kept[8:]...)
	}
}

func (cl *client) goexit() { runtime.Goexit() }

func (cl *client) loop() {
	simrt.Cur().User = cl
	normal := false
	defer func() {
		if normal || simrt.Dying() {
			return
		}
		if cl.cur != nil && cl.cur.how == "goexit" {
			r := cl.cur
			cl.cur = nil
			cl.depth = 0
			r.finish()
			cl.next++
			simrt.GoFg(cl.loop) // the application starts another worker
			return
		}
		cl.violate("goexit", "the goroutine of a call ended")
		cl.done = true
	}()
	for cl.next < len(cl.ops) && cl.viol == nil {
		cl.run(&cl.ops[cl.next])
		cl.next++
	}
	cl.done = true
	normal = true
}

// call runs f as the operation r, noting how it ends.
func (cl *client) call(r *opRun, f func()) {
	cl.cur = r
	r.cl = cl
	max := int64(OpLimit)
	if op := r.op; op.In.Cyc == "huge" {
		max *= 6
	}
	old, lim := simrt.BeginOp(max + 60*r.size)
	done := false
	defer func() {
		if done || simrt.Dying() {
			return
		}
		simrt.EndOp(old, lim)
		if p := recover(); p != nil {
			r.how, r.pval = "panic", p
			if !r.fired {
				r.stack = string(debug.Stack())
			}
			return
		}
		r.how = "goexit"
	}()
	f()
	done = true
	r.how = "ret"
	r.steps = simrt.OpSteps()
	simrt.EndOp(old, lim)
}

func (cl *client) run(op *Op) {
	n := op.Rep
	if n < 1 {
		n = 1
	}
	for i := 0; i < n && cl.viol == nil; i++ {
		if op.Var {
			o := *op
			cl.varied++
			o.In.V = simrt.Hash(op.In.V, cl.varied, 3) >> 16
			if op.In.Cyc == "sized" {
				cl.sized++
				o.In.V = op.In.V
				o.In.N = 1 + cl.sized*571%601
			}
			if o.In.Twist != 0 {
				o.In.Twist = simrt.Hash(op.In.Twist, cl.varied, 3) | 1
			}
			cl.one(&o)
			continue
		}
		cl.one(op)
	}
}

func (cl *client) one(op *Op) {
	cl.count("op." + op.K)
	switch op.K {
	case "marshal":
		cl.marshal(op, nil)
	case "put":
		cl.marshal(op, func(b []byte, typ string) { cl.w.disk.put(cl, op.R, b, typ, op.M) })
	case "unmarshal":
		var b []byte
		var typ string
		if op.Sh > 0 && op.Sh <= len(cl.w.inputs) {
			s := cl.w.inputs[op.Sh-1]
			cl.unmarshal(op, s.buf, s.n, s.typ, s)
			return
		}
		b, typ = cl.w.input(op.In)
		cl.unmarshal(op, canary(b), len(b), typ, nil)
	case "get":
		r := cl.w.disk.rec(op.R)
		if !r.ever {
			return
		}
		cl.unmarshal(op, canary(r.cur), len(r.cur), r.typ, nil)
	case "own":
		cl.own(op)
	case "check":
		cl.recheck()
	case "heap":
		if cl.w.plan.Vary {
			// what is kept for the next call only does not count: buffers in
			// pools grow to the size of the largest call, one after the other
			simsync.DropPools()
		}
		runtime.GC()
		runtime.GC()
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		cl.w.heaps = append(cl.w.heaps, ms.HeapAlloc)
	case "warm":
		warm()
	case "gap":
		cl.gap(op)
	case "later":
		cl.later(op)
	case "pause":
		simrt.Stall(op.CB.N)
	default:
		panic("world: op " + op.K)
	}
}

// gap reads lists most of whose indices are left out. There is a limit to that, for
// each call alone: what the first call of a process was told holds for all others.
func (cl *client) gap(op *Op) {
	n := op.In.N
	var in string
	var dst any
	switch op.D {
	case "[][]int":
		l := new([][]int)
		in = fmt.Sprintf("a:2:{i:0;a:1:{i:%d;i:5;}i:2;a:1:{i:%d;i:7;}}", n, n)
		dst = l
	case "[]string":
		dst = new([]string)
		in = fmt.Sprintf("a:2:{i:1;s:1:\"5\";i:%d;s:1:\"7\";}", n)
	case "[]any":
		dst = new([]any)
		in = fmt.Sprintf("a:2:{i:1;i:5;i:%d;i:7;}", n)
	default:
		dst = new([]int)
		in = fmt.Sprintf("a:2:{i:1;i:5;i:%d;i:7;}", n)
	}
	r := cl.newRun(op)
	var err error
	r.finish = func() {
		cl.cur = nil
		if !cl.ended(op, r, err) {
			return
		}
		cl.count("op.gap")
		said := "accepted"
		if err != nil {
			said = err.Error()
		}
		k := in + op.D
		if w, ok := cl.w.gaps[k]; ok && w != said {
			cl.violate("history", fmt.Sprintf("%s into %s: first %s, later %s", in, op.D, w, said))
			return
		}
		cl.w.gaps[k] = said
		if err != nil {
			cl.note(10)
			return
		}
		ok := false
		switch l := dst.(type) {
		case *[]int:
			ok = gapOK(*l, n, 5, 7)
		case *[]any:
			ok = gapOK[any](*l, n, int64(5), int64(7)) || gapOK[any](*l, n, 5, 7)
		case *[]string:
			ok = gapOK(*l, n, "5", "7")
		case *[][]int:
			ok = len(*l) == 3 && (*l)[1] == nil && gapOK((*l)[0], n, 0, 5) && gapOK((*l)[2], n, 0, 7)
		}
		if !ok {
			cl.violate("unmarshal-mismatch", fmt.Sprintf("%s into %s: wrong value", in, op.D))
			return
		}
		cl.note(9)
	}
	cl.call(r, func() { err = php.Unmarshal([]byte(in), dst) })
	r.finish()
}

// moody fails as long as it holds an error.
type moody struct{ err error }

func (m *moody) MarshalPHP() ([]byte, error) {
	if m.err != nil {
		return []byte("s:1:\"x\";"), m.err
	}
	return []byte("s:1:\"y\";"), nil
}

// later encodes many values which fail, and then the same values without faults in the
// opposite order: between the two calls with a value lie one, three, five and so on
// others, or two, four, six.
func (cl *client) later(op *Op) {
	n := op.In.N
	vals, ms := make([]any, n), make([]*moody, n)
	boom := errors.New("moody")
	kind := op.R
	for i := range vals {
		m := &moody{boom}
		ms[i] = m
		k := kind
		if kind >= 7 {
			k = i % 7
		}
		switch k {
		case 0:
			vals[i] = []any{m}
		case 1:
			vals[i] = map[string]any{"k": m}
		case 2:
			vals[i] = []any{[]any{m}}
		case 3:
			vals[i] = map[int]any{1: []any{m}}
		case 4:
			var x any = m
			vals[i] = []any{&x}
		case 5:
			vals[i] = []map[string]any{{"a": m}}
		default:
			vals[i] = []any{1, make(chan int)}
		}
	}
	want := [7]string{
		"a:1:{i:0;s:1:\"y\";}", "a:1:{s:1:\"k\";s:1:\"y\";}", "a:1:{i:0;a:1:{i:0;s:1:\"y\";}}", "a:1:{i:1;a:1:{i:0;s:1:\"y\";}}",
		"a:1:{i:0;s:1:\"y\";}", "a:1:{i:0;a:1:{s:1:\"a\";s:1:\"y\";}}", "a:2:{i:0;i:1;i:1;i:2;}",
	}
	r := cl.newRun(op)
	r.size = int64(n) * 60
	bad := ""
	cl.call(r, func() {
		for i, v := range vals {
			if b, err := php.Marshal(v); err == nil {
				bad = fmt.Sprintf("value %d of %d succeeded with %q although its method failed or its type is none", i, n, b)
				return
			}
		}
		for i := op.In.V % 4; i > 0; i-- {
			if _, err := php.Marshal(int(i)); err != nil {
				bad = fmt.Sprintf("an integer failed: %v", err)
				return
			}
		}
		for i := n - 1; i >= 0; i-- {
			k := kind
			if kind >= 7 {
				k = i % 7
			}
			ms[i].err = nil
			if k == 6 {
				vals[i].([]any)[1] = 2
			}
			b, err := php.Marshal(vals[i])
			if err != nil || string(b) != want[k] {
				bad = fmt.Sprintf("value %d of %d, %d calls after it failed: %q, %v; expected %q", i, n, 2*(n-1-i)+int(op.In.V%4), b, err, want[k])
				return
			}
		}
	})
	cl.cur = nil
	if !cl.ended(op, r, nil) {
		return
	}
	cl.count("op.later")
	if bad != "" {
		cl.violate("history", bad)
		return
	}
	cl.note(11)
}

func gapOK[T comparable](l []T, n int, one, last T) bool {
	var zero T
	if len(l) != n+1 || l[1] != one || l[n] != last {
		return false
	}
	for i, x := range l[:n] {
		if x != zero && i != 1 {
			return false
		}
	}
	return true
}

var warmTypes []reflect.Type

// warm makes the library meet every type which values of this world can contain,
// so that what it keeps per type is there before live memory is compared.
func warm() {
	if warmTypes == nil {
		seen := map[reflect.Type]bool{}
		var walk func(t reflect.Type)
		walk = func(t reflect.Type) {
			if seen[t] {
				return
			}
			seen[t] = true
			switch t.Kind() {
			case reflect.Interface:
				return
			case reflect.Map:
				walk(t.Key())
				walk(t.Elem())
			case reflect.Slice, reflect.Ptr, reflect.Array:
				walk(t.Elem())
			case reflect.Struct:
				for i := 0; i < t.NumField(); i++ {
					walk(t.Field(i).Type)
				}
			}
			warmTypes = append(warmTypes, t)
		}
		for _, ti := range cat {
			walk(ti.T)
		}
		for _, t := range comps {
			walk(t)
		}
	}
	for _, t := range warmTypes {
		func() {
			defer func() { recover() }()
			php.Marshal(reflect.Zero(t).Interface())
			php.Marshal(reflect.Zero(reflect.PointerTo(t)).Interface())
			reflect.PointerTo(reflect.PointerTo(t)) // package reflect keeps types it makes
			reflect.SliceOf(t)
			reflect.SliceOf(reflect.PointerTo(t))
		}()
	}
}

func (w *World) value(s Spec) (reflect.Value, *gen) {
	if s.Cyc != "" {
		return reflect.ValueOf(cyclic(s.Cyc, s.N, s.V)), nil
	}
	ti := byN[s.T]
	if ti == nil {
		panic("world: type " + s.T)
	}
	g := newGen(s.V, s.Z)
	g.wild, g.spare = s.Wild, s.Sp
	if s.Odd {
		g.id += oddID
	}
	v := g.val(ti.T, 5)
	if s.Ptr && v.Kind() != reflect.Ptr && v.Kind() != reflect.Interface {
		p := reflect.New(v.Type())
		p.Elem().Set(v)
		v = p
	}
	return v, g
}

func expect(v reflect.Value) (*ref.Node, []int, error) {
	var calls []int
	var x any
	if v.IsValid() && !(v.Kind() == reflect.Interface && v.IsNil()) {
		x = v.Interface()
	}
	n, err := ref.Expect(x, mtype, func(rv reflect.Value) ([]byte, error) {
		id := rv.Interface().(ider).cbID()
		calls = append(calls, id)
		return cbBytes(id), nil
	})
	return n, calls, err
}

func (w *World) mkShared(s Spec) *sharedVal {
	v, g := w.value(s)
	sv := &sharedVal{v: v, spec: s, orig: ref.Clone(v)}
	if g != nil {
		sv.extra = g.extra
		for _, e := range g.extra {
			sv.exto = append(sv.exto, ref.Clone(e))
		}
	}
	sv.node, sv.calls, sv.err = expect(v)
	return sv
}

// input renders the bytes of an Input.
func (w *World) input(in Input) ([]byte, string) {
	v, n, typ := reflect.Value{}, (*ref.Node)(nil), in.T
	var err error
	if !isText[in.Cyc] {
		v, _ = w.value(in.Spec)
		n, _, err = expect(v)
	}
	if err != nil {
		n = &ref.Node{Kind: 'a', Ents: []ref.Ent{{Key: &ref.Node{Kind: 's', S: "id"}, Val: &ref.Node{Kind: 'i', I: int64(in.V % 1000)}}}}
	}
	var b []byte
	if in.Cyc == "walk" {
		b = walk(in.T, in.N, in.V)
	} else if in.Cyc == "classes" || in.Cyc == "garble" {
		b = variedText(in.Cyc, in.N, in.V)
	} else if in.Cyc == "claims" {
		b = claims(in.N, in.V)
	} else if in.Twist != 0 {
		t := twister{}
		t.r.S = in.Twist
		b = t.render(nil, n, 0)
	} else {
		r := simrt.Rng{S: in.Shuf}
		b = ref.Render(nil, n, func(k int) []int {
			p := make([]int, k)
			for i := range p {
				p[i] = i
			}
			for i := k - 1; i > 0 && in.Shuf != 0; i-- {
				j := r.N(i + 1)
				p[i], p[j] = p[j], p[i]
			}
			return p
		})
	}
	if in.Long > 0 {
		var l []byte
		l = append(l, "a:"+strconv.Itoa(min(in.Long, 1+300000/(len(b)+6)))+":{"...)
		for i := 0; i < in.Long && len(l) < 300000; i++ {
			l = append(l, "i:"+strconv.Itoa(i)+";"...)
			l = append(l, b...)
		}
		b = append(l, '}')
	}
	if in.Deep > 0 {
		open := "a:1:{i:0;"
		if in.Obj {
			open = "O:8:\"stdClass\":1:{s:1:\"a\";"
		}
		if in.Open > 0 {
			open = openings[in.Open%len(openings)]
		}
		b = []byte(strings.Repeat(open, in.Deep) + string(b) + strings.Repeat("}", in.Deep))
	}
	if in.Unk {
		b = []byte("a:1:{s:7:\"unknown\";" + string(b) + "}")
	}
	for i, d := range in.Dm {
		var old []byte
		if d.K == "tail" || d.K == "stale" {
			on := in
			on.V += 7919 + uint64(i)
			on.Dm, on.Z = nil, in.Z*2+4
			old, _ = w.input(on)
		}
		b = damage(b, old, w.plan.Sector, d)
	}
	return b, typ
}

// openings are other ways to begin a level of nesting.
var openings = []string{
	"a:1:{i:0;",
	"a:1:{s:12:\"text of keys\";",
	"a:1:{i:-9000000000;",
	"a:1:{s:70:\"" + strings.Repeat("keys ", 14) + "\";",
	"a:2:{i:0;N;i:1;",
	"a:3:{s:1:\"a\";s:3:\"one\";s:1:\"b\";a:1:{i:0;i:5;}s:1:\"c\";",
	"O:6:\"Nested\":2:{s:2:\"id\";i:7;s:5:\"child\";",
}

func multiset(a []int) map[int]int {
	m := map[int]int{}
	for _, x := range a {
		m[x]++
	}
	return m
}

func sub(a, b []int) bool {
	m := multiset(b)
	for _, x := range a {
		m[x]--
		if m[x] < 0 {
			return false
		}
	}
	return true
}

func sorted(a []int) []int {
	b := append([]int(nil), a...)
	sort.Ints(b)
	if len(b) > 40 {
		b = b[:40]
	}
	return b
}

func (cl *client) newRun(op *Op) *opRun {
	return &opRun{op: op, cl: cl, sentinel: &cbErr{simrt.Hash(cl.w.plan.Seed, uint64(cl.id), uint64(cl.next*8+cl.depth))}}
}

func (cl *client) marshal(op *Op, then func([]byte, string)) {
	var sv *sharedVal
	if op.Sh > 0 && op.Sh <= len(cl.w.shared) {
		sv = cl.w.shared[op.Sh-1]
	} else {
		sv = cl.w.mkShared(op.In.Spec)
	}
	arg := any(nil)
	if sv.v.IsValid() && !(sv.v.Kind() == reflect.Interface && sv.v.IsNil()) {
		arg = sv.v.Interface()
	}
	r := cl.newRun(op)
	var out []byte
	var err error
	r.finish = func() {
		cl.cur = nil
		cl.afterMarshal(op, r, sv, out, err)
		if cl.viol == nil && then != nil && r.how == "ret" && err == nil {
			then(out, op.In.T)
		}
	}
	cl.call(r, func() { out, err = php.Marshal(arg) })
	r.finish()
}

func specText(op *Op) string {
	s := fmt.Sprintf("%s of %s seed %d size %d", op.K, op.In.T, op.In.V, op.In.Z)
	if op.In.Cyc != "" {
		s = fmt.Sprintf("%s of %s length %d", op.K, op.In.Cyc, op.In.N)
	}
	if op.D != "" {
		s += " into " + op.D
	}
	if op.Sh > 0 {
		s += fmt.Sprintf(" (shared %d)", op.Sh)
	}
	if op.CB.Mode != "" {
		s += fmt.Sprintf(", callback %s at %d", op.CB.Mode, op.CB.At)
	}
	return s
}

// ended checks how the call ended; true when there is a result to look at.
func (cl *client) ended(op *Op, r *opRun, err error) bool {
	switch r.how {
	case "panic":
		if r.fired && op.CB.Mode == "panic" && r.isPanic(op.CB.V) {
			cl.count("seen.panic")
			cl.note(3)
			return false
		}
		cl.violate("panic", fmt.Sprintf("%s panicked: %.300v\n%s", specText(op), r.pval, trimStack(r.stack)))
		return false
	case "goexit":
		if r.fired && op.CB.Mode == "goexit" {
			cl.count("seen.goexit")
			cl.note(4)
			return false
		}
		cl.violate("goexit", specText(op)+": the goroutine ended")
		return false
	}
	if r.fired {
		switch op.CB.Mode {
		case "panic", "goexit":
			cl.violate("cb-"+op.CB.Mode+"-lost", fmt.Sprintf("%s: the callback's %s did not reach the caller, the call returned (error %v)", specText(op), op.CB.Mode, err))
			return false
		}
		if err == nil {
			cl.violate("cb-error-lost", fmt.Sprintf("%s: the callback failed, the call succeeded", specText(op)))
			return false
		}
		switch op.CB.Mode {
		case "err", "errbytes":
			if !carries(err, r.fault0) {
				cl.violate("cb-error-lost", fmt.Sprintf("%s: the callback's error is not in the returned error %.200q", specText(op), err))
				return false
			}
			cl.count("seen.cb-error")
			cl.keepErr("of "+specText(op), err)
		}
		cl.note(5)
		return false
	}
	return true
}

func trimStack(s string) string {
	var keep []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "go-phpserialize") && !strings.Contains(l, "verifsim") && strings.HasPrefix(l, "\t") {
			keep = append(keep, strings.TrimSpace(l))
			if len(keep) > 8 {
				break
			}
		}
	}
	return strings.Join(keep, "\n")
}

func (cl *client) afterMarshal(op *Op, r *opRun, sv *sharedVal, out []byte, err error) {
	for _, s := range r.spare {
		for i, c := range s.b {
			if i < s.n && c != s.want[i] || i >= s.n && c != '!' {
				cl.violate("cb-buffer-mutated", fmt.Sprintf("%s: the slice a MarshalPHP returned was written to: %.200q", specText(op), s.b))
				return
			}
		}
	}
	if r.op.CB.Buf == "reuse" {
		for i := range cl.rbuf {
			cl.rbuf[i] = '~'
		}
	}
	if op.Sh == 0 {
		if d := ref.Diff(sv.orig, sv.v); d != "" {
			cl.violate("argument-mutated", fmt.Sprintf("%s: the argument was changed: %s", specText(op), d))
			return
		}
		for j := range sv.extra {
			if d := ref.Diff(sv.exto[j], sv.extra[j]); d != "" {
				cl.violate("argument-mutated", fmt.Sprintf("%s: spare capacity of the argument was changed: %s", specText(op), d))
				return
			}
		}
	}
	if r.fired && sv.err == nil {
		if len(r.calls) != callsAt(op) {
			cl.violate("cb-count", fmt.Sprintf("%s: %d MarshalPHP calls, the failing one was number %d", specText(op), len(r.calls), callsAt(op)))
			return
		}
		if !sub(r.calls, sv.calls) {
			cl.violate("cb-count", fmt.Sprintf("%s: MarshalPHP calls %v, the value holds %v", specText(op), sorted(r.calls), sorted(sv.calls)))
			return
		}
	}
	if r.how == "ret" && err != nil && len(out) > 0 {
		cl.violate("bytes-with-error", fmt.Sprintf("%s failed with %.200q and returned bytes all the same: %.200q", specText(op), err, out))
		return
	}
	if !cl.ended(op, r, err) {
		return
	}
	if sv.err != nil {
		if err == nil {
			cl.violate("should-fail", fmt.Sprintf("%s succeeded with %.200q, expected an error (%v)", specText(op), out, sv.err))
			return
		}
		cl.count("seen.marshal-error")
		cl.keepErr("of "+specText(op), err)
		left := 3000
		if op.Sh == 0 && op.CB.Mode == "" && !cl.w.plan.Cost && ordered(sv.v, 0, &left) {
			cl.says("marshal "+fmt.Sprint(op.In.Spec), err)
		}
		cl.note(2)
		return
	}
	if err != nil {
		cl.violate("should-succeed", fmt.Sprintf("%s failed: %v", specText(op), err))
		return
	}
	if m := ref.Match(sv.node, out); m != nil {
		cl.violate("marshal-mismatch", fmt.Sprintf("%s: wrong encoding: %v; got %.400q", specText(op), m, out))
		return
	}
	if len(r.calls) != len(sv.calls) || !sub(r.calls, sv.calls) {
		cl.violate("cb-count", fmt.Sprintf("%s: MarshalPHP calls %v, the value holds %v", specText(op), sorted(r.calls), sorted(sv.calls)))
		return
	}
	if len(r.calls) > 0 {
		cl.stats["cb.marshal"] += int64(len(r.calls))
	}
	cl.note(hashBytes(out))
	cl.stats["bytes.out"] += int64(len(out))
	cl.maxLen = max(cl.maxLen, len(out))
	if cl.w.plan.Cost {
		if op.M == "probe" {
			k := fmt.Sprintf("m/%s/%d", op.In.T, op.In.V)
			cl.w.probes[k] = append(cl.w.probes[k], r.steps)
		}
		return
	}
	switch op.M {
	case "scribble":
		// the caller owns what it got, all of it
		full := out[:cap(out)]
		for i := range full {
			full[i] = 'X'
		}
		cl.count("fault.own-scribble")
		return
	case "append":
		out = append(out, "YYYYYYYYYYYYYYYY"...)
		cl.count("fault.own-append")
	}
	cl.keep(kept{what: "bytes returned by " + specText(op), b: out, s: string(out)})
}

func callsAt(op *Op) int {
	if op.CB.At == 0 {
		return 1
	}
	return op.CB.At
}

func (cl *client) dest(op *Op, typ string) (reflect.Value, *TypeInfo) {
	d := op.D
	if d == "" {
		d = typ
	}
	ti := byN[d]
	if ti == nil {
		panic("world: type " + d)
	}
	if op.Dst > 0 {
		s := op.Dst % len(cl.slots)
		if cl.slots[s].IsValid() && cl.slots[s].Type().Elem() == ti.T {
			cl.count("dst.reused")
			return cl.slots[s], ti
		}
		p := reflect.New(ti.T)
		cl.slots[s] = p
		return p, ti
	}
	p := reflect.New(ti.T)
	if op.Pre != 0 {
		g := newGen(op.Pre, 25)
		g.noCB = true
		p.Elem().Set(g.val(ti.T, 4))
		cl.count("dst.filled")
	}
	return p, ti
}

// noDest is a call with a destination which is none: nothing at all, a pointer
// which is nil, or a value instead of a pointer to it. It fails, and changes
// neither the input nor the value.
func (cl *client) noDest(op *Op, data []byte, typ string) {
	o := *op
	o.Dst, o.Pre = 0, op.In.V|1
	p, ti := cl.dest(&o, typ)
	var v any
	switch op.In.V % 3 {
	case 1:
		v = p.Elem().Interface()
		if ti.T.Kind() == reflect.Ptr && !p.Elem().IsNil() {
			// which is a destination
			v = nil
		}
		if v != nil && reflect.TypeOf(v).Kind() == reflect.Ptr {
			v = reflect.Zero(reflect.TypeOf(v)).Interface()
		}
	case 2:
		v = reflect.Zero(reflect.PointerTo(ti.T)).Interface()
	}
	before := ref.Clone(p)
	orig := string(data)
	r := cl.newRun(op)
	var err error
	r.finish = func() {
		cl.cur = nil
		if string(data) != orig {
			cl.violate("input-mutated", fmt.Sprintf("unmarshal into %T: the input was changed from %.300q to %.300q", v, orig, data))
			return
		}
		if len(r.raws) > 0 {
			cl.violate("cb-count", fmt.Sprintf("unmarshal into %T called UnmarshalPHP", v))
			return
		}
		if !cl.ended(op, r, err) {
			return
		}
		if err == nil {
			cl.violate("should-reject", fmt.Sprintf("unmarshal accepted the destination %T (%d), which cannot be one; input %.300q", v, op.In.V%3, orig))
			return
		}
		if d := ref.Diff(before, p); d != "" {
			cl.violate("unmarshal-mismatch", fmt.Sprintf("unmarshal into the value %T changed it: %s", v, d))
			return
		}
		cl.count("seen.no-destination")
		cl.keepErr("of unmarshal into no destination", err)
		cl.note(8)
	}
	cl.call(r, func() { err = php.Unmarshal(data, v) })
	r.finish()
}

func (cl *client) unmarshal(op *Op, buf []byte, n int, typ string, shared *sharedIn) {
	if op.M == "nodest" {
		cl.noDest(op, buf[:n], typ)
		return
	}
	dst, _ := cl.dest(op, typ)
	if op.Dst > 0 {
		var l []kept
		for _, k := range cl.kept {
			if k.slot != op.Dst {
				l = append(l, k)
			}
		}
		cl.kept = l
	}
	orig := string(buf[:n])
	want, olds := ref.CloneAll(dst)
	var mcalls []string
	verdict, why := ref.Decode([]byte(orig), want.Elem(), utype, func(rt reflect.Type, ex reflect.Value, raw []byte) (reflect.Value, error) {
		mcalls = append(mcalls, string(raw))
		return unmarshaled(rt, ex, raw), nil
	})
	big := errors.Is(why, ref.ErrTooBig)
	if big {
		if cl.w.plan.Prop != "C14" {
			cl.count("op.skipped")
			return
		}
		// the model does not follow: only that it ends, in bounded memory
		cl.count("op.big")
		dst = reflect.New(dst.Type().Elem())
	}
	cl.count("verdict." + verdict.String())
	r := cl.newRun(op)
	var err error
	data := buf[:n]
	if op.In.V%2 == 0 {
		data = buf[:n:n]
	}
	r.finish = func() {
		cl.cur = nil
		if shared == nil && (string(buf[:n]) != orig || !canaryOK(buf, n)) || shared != nil && string(buf[n:]) != shared.tail {
			cl.violate("input-mutated", fmt.Sprintf("%s: the input was changed from %.300q to %.300q", specText(op), orig, buf))
			return
		}
		if big {
			if cl.ended(op, r, err) {
				cl.note(7)
			}
			return
		}
		cl.afterUnmarshal(op, r, dst, want, verdict, why, mcalls, orig, err)
		if cl.viol != nil {
			return
		}
		// what the destination held before and somebody may still hold
		for _, o := range olds {
			if err != nil || r.how != "ret" || verdict != ref.Accept {
				if o.Old.Kind() != reflect.Slice {
					continue
				}
			}
			if d := ref.Diff(o.Want, o.Old); d != "" {
				cl.violate("old-value-mutated", fmt.Sprintf("%s: a %s which the destination held before the call is not what it should be after it: %s; input %.300q", specText(op), o.Old.Type(), d, orig))
				return
			}
		}
		cl.stats["dst.olds"] += int64(len(olds))
		for _, s := range r.retain {
			if string(s.b) != s.want {
				cl.violate("raw-mutated", fmt.Sprintf("%s: bytes given to UnmarshalPHP changed after the call: %.200q became %.200q", specText(op), s.want, s.b))
				return
			}
			cl.keep(kept{what: "bytes given to UnmarshalPHP in " + specText(op), b: s.b, s: s.want})
		}
		if r.how != "ret" || err != nil {
			return
		}
		if shared == nil {
			// the caller may do with its input what it likes
			for i := range buf {
				buf[i] = '?'
			}
		}
		if op.Dst == 0 && op.Pre == 0 && !cl.w.plan.Cost {
			if d := sharedParts(dst); d != "" {
				cl.violate("alias", fmt.Sprintf("%s: two parts of the decoded value are one and the same: %s; input %.300q", specText(op), d, orig))
				return
			}
		}
		if op.M == "scribble" && !cl.w.plan.Cost {
			cl.scribble(op, dst, want)
		}
		if d := ref.Diff(want, dst); d != "" {
			cl.violate("alias", fmt.Sprintf("%s: the decoded value changed with memory it does not own: %s; input %.300q", specText(op), d, orig))
			return
		}
		cl.keep(kept{what: "value decoded by " + specText(op), got: dst, want: want, slot: op.Dst, pre: op.Pre != 0})
	}
	m0 := allocated(cl.w.plan)
	r.size = int64(n)
	cl.call(r, func() { err = php.Unmarshal(data, dst.Interface()) })
	m1 := allocated(cl.w.plan)
	max := uint64(32 << 20)
	if big || len(cl.w.clients) > 1 {
		max = 500 << 20
	}
	if m1-m0 > max+1000*uint64(n) {
		cl.violate("memory", fmt.Sprintf("%s: decoding %d bytes took %d MB of memory; input %.300q", specText(op), n, (m1-m0)>>20, orig))
	}
	if cl.w.plan.Prop == "C14" && r.steps > 20000+60*int64(n) {
		cl.violate("work", fmt.Sprintf("%s: decoding %d bytes took %d steps; input %.300q", specText(op), n, r.steps, orig))
	}
	r.finish()
}

// allocated is how many bytes the process has allocated, where it matters.
func allocated(p *Plan) uint64 {
	if p.Prop != "C14" {
		return 0
	}
	l := [1]metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(l[:])
	return l[0].Value.Uint64()
}

func (cl *client) afterUnmarshal(op *Op, r *opRun, dst, want reflect.Value, verdict ref.Verdict, why error, mcalls []string, orig string, err error) {
	// callbacks come in document order, whatever happens later
	for i, s := range r.raws {
		if i >= len(mcalls) {
			if verdict == ref.Accept {
				cl.violate("cb-count", fmt.Sprintf("%s: UnmarshalPHP call %d with %.100q, the input has only %d; input %.300q", specText(op), i+1, s, len(mcalls), orig))
				return
			}
			break
		}
		if s != mcalls[i] {
			cl.violate("cb-input", fmt.Sprintf("%s: UnmarshalPHP call %d got %.150q, expected %.150q; input %.300q", specText(op), i+1, s, mcalls[i], orig))
			return
		}
	}
	if r.fired && verdict == ref.Accept && len(r.raws) != callsAt(op) {
		cl.violate("cb-count", fmt.Sprintf("%s: %d UnmarshalPHP calls, the failing one was number %d", specText(op), len(r.raws), callsAt(op)))
		return
	}
	if !cl.ended(op, r, err) {
		return
	}
	if err != nil {
		if verdict == ref.Accept {
			cl.violate("should-accept", fmt.Sprintf("%s failed: %v; input %.400q", specText(op), err, orig))
			return
		}
		cl.count("seen.unmarshal-error")
		cl.keepErr("of "+specText(op), err)
		if op.Dst == 0 && op.Pre == 0 && op.CB.Mode == "" && !cl.w.plan.Cost && len(orig) < 3000 {
			cl.says("unmarshal "+typeText(dst.Type())+" "+strconv.Quote(orig), err)
		}
		cl.note(6)
		return
	}
	if verdict == ref.Reject {
		cl.violate("should-reject", fmt.Sprintf("%s accepted an input which is %v; got %.200s; input %.400q", specText(op), why, show(dst), orig))
		return
	}
	if verdict == ref.Lenient && op.Dst == 0 && op.Pre == 0 && op.CB.Mode == "" && !cl.w.plan.Cost && len(orig) < 3000 {
		cl.says("unmarshal "+typeText(dst.Type())+" "+strconv.Quote(orig), nil)
	}
	if d := ref.Diff(want, dst); d != "" {
		cl.violate("unmarshal-mismatch", fmt.Sprintf("%s: wrong value (%s): %s; input %.400q", specText(op), verdict, d, orig))
		return
	}
	if len(r.raws) != len(mcalls) {
		cl.violate("cb-count", fmt.Sprintf("%s: %d UnmarshalPHP calls, expected %d; input %.300q", specText(op), len(r.raws), len(mcalls), orig))
		return
	}
	cl.stats["cb.unmarshal"] += int64(len(r.raws))
	cl.stats["bytes.in"] += int64(len(orig))
	cl.maxLen = max(cl.maxLen, len(orig))
	cl.note(hashBytes([]byte(orig)))
	if cl.w.plan.Cost && op.M == "probe" {
		k := fmt.Sprintf("u/%s/%s/%d", op.In.T, op.D, op.In.V)
		cl.w.probes[k] = append(cl.w.probes[k], r.steps)
	}
}

func show(v reflect.Value) (s string) {
	defer func() {
		if recover() != nil {
			s = v.Type().String()
		}
	}()
	return fmt.Sprintf("%+v", v.Elem().Interface())
}

// scribble writes to memory the decoded value owns: the bytes it holds and the
// spare capacity of its slices. Nothing else of the value may change.
func (cl *client) scribble(op *Op, got, want reflect.Value) {
	r := simrt.Rng{S: op.In.V ^ 0xabcd}
	left := 40
	var walk func(a, b reflect.Value, depth int)
	walk = func(a, b reflect.Value, depth int) {
		if left <= 0 || depth > 30 || !a.IsValid() || !b.IsValid() || a.Type() != b.Type() {
			return
		}
		left--
		switch a.Kind() {
		case reflect.Ptr:
			if !a.IsNil() && !b.IsNil() {
				walk(a.Elem(), b.Elem(), depth+1)
			}
		case reflect.Interface:
			if !a.IsNil() && !b.IsNil() {
				walk(a.Elem(), b.Elem(), depth+1)
			}
		case reflect.Struct:
			for i := 0; i < a.NumField(); i++ {
				if a.Type().Field(i).IsExported() {
					walk(a.Field(i), b.Field(i), depth+1)
				}
			}
		case reflect.Array:
			for i := 0; i < a.Len(); i++ {
				walk(a.Index(i), b.Index(i), depth+1)
			}
		case reflect.Map:
			keys := a.MapKeys()
			sort.Slice(keys, func(i, j int) bool {
				return fmt.Sprintf("%T %v", keys[i].Interface(), keys[i]) < fmt.Sprintf("%T %v", keys[j].Interface(), keys[j])
			})
			for _, k := range keys {
				bv := b.MapIndex(k)
				if bv.IsValid() && bv.Kind() == reflect.Slice {
					x, y := reflect.New(bv.Type()).Elem(), reflect.New(bv.Type()).Elem()
					x.Set(a.MapIndex(k))
					y.Set(bv)
					walk(x, y, depth+1)
					a.SetMapIndex(k, x)
					b.SetMapIndex(k, y)
				} else if bv.IsValid() {
					walk(a.MapIndex(k), bv, depth+1)
				}
			}
		case reflect.Slice:
			if a.Len() != b.Len() || a.IsNil() {
				return
			}
			if a.CanSet() && b.CanSet() && r.P(1, 3) {
				// what is appended to one must not show in another
				n := uint64(r.N(200))
				e := reflect.New(a.Type().Elem()).Elem()
				switch {
				case e.CanInt():
					e.SetInt(int64(n % 100))
				case e.CanUint():
					e.SetUint(n)
				case e.Kind() == reflect.String:
					e.SetString(strconv.Itoa(int(n)))
				}
				cl.count("fault.own-append")
				a.Set(reflect.Append(a, e, e))
				b.Set(reflect.Append(b, e, e))
			}
			if a.Type().Elem().Kind() == reflect.Uint8 {
				if r.P(1, 2) {
					cl.count("fault.own-scribble")
					full := a.Slice(0, a.Cap())
					for i := 0; i < full.Len(); i++ {
						full.Index(i).SetUint('%')
					}
					for i := 0; i < b.Len(); i++ {
						b.Index(i).SetUint('%')
					}
				}
				return
			}
			if a.Cap() > a.Len() {
				full := a.Slice(0, a.Cap())
				for i := a.Len(); i < full.Len() && i < a.Len()+16; i++ {
					e := full.Index(i)
					switch {
					case e.CanInt():
						e.SetInt(99)
					case e.CanUint():
						e.SetUint(99)
					case e.Kind() == reflect.String:
						e.SetString("spare")
					default:
						e.SetZero()
					}
				}
			}
			for i := 0; i < a.Len(); i++ {
				walk(a.Index(i), b.Index(i), depth+1)
			}
		}
	}
	walk(got, want, 0)
}

// span is memory a value refers to and which whoever has the value may write to.
type span struct {
	lo, hi uintptr
	t      reflect.Type
	own    int
}

// spans are all of them, in order of their addresses.
func spans(l []span, v reflect.Value, own int) []span {
	count := 0
	var walk func(v reflect.Value, depth int)
	walk = func(v reflect.Value, depth int) {
		if count++; count > 3000 || depth > 100 {
			return
		}
		switch v.Kind() {
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem(), depth+1)
			}
		case reflect.Ptr:
			if !v.IsNil() {
				p := v.Pointer()
				if n := v.Type().Elem().Size(); n > 0 {
					l = append(l, span{p, p + n, v.Type(), own})
				}
				walk(v.Elem(), depth+1)
			}
		case reflect.Map:
			if !v.IsNil() {
				l = append(l, span{v.Pointer(), v.Pointer() + 1, v.Type(), own})
				for it := v.MapRange(); it.Next(); {
					walk(it.Value(), depth+1)
				}
			}
		case reflect.Slice:
			if n := uintptr(v.Cap()) * v.Type().Elem().Size(); n > 0 {
				l = append(l, span{v.Pointer(), v.Pointer() + n, v.Type(), own})
			}
			fallthrough
		case reflect.Array:
			switch v.Type().Elem().Kind() {
			case reflect.Interface, reflect.Ptr, reflect.Map, reflect.Slice, reflect.Array, reflect.Struct:
				for i := 0; i < v.Len(); i++ {
					walk(v.Index(i), depth+1)
				}
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i), depth+1)
			}
		}
	}
	walk(v, 0)
	return l
}

func sortSpans(l []span) {
	sort.Slice(l, func(i, j int) bool { return l[i].lo < l[j].lo || l[i].lo == l[j].lo && l[i].hi < l[j].hi })
}

// sharedParts looks for memory which two parts of a value have in common.
func sharedParts(v reflect.Value) string {
	l := spans(nil, v, 0)
	sortSpans(l)
	for i := 1; i < len(l); i++ {
		if l[i].lo < l[i-1].hi {
			return fmt.Sprintf("a %s and a %s", l[i-1].t, l[i].t)
		}
	}
	return ""
}

// checkApart: what different calls returned, to whomever, has no memory in common.
func (w *World) checkApart() {
	var l []span
	var of []*kept
	var cs []*client
	for _, cl := range w.clients {
		for i := range cl.kept {
			k := &cl.kept[i]
			v := k.got
			switch {
			case strings.HasPrefix(k.what, "bytes given"), k.slot > 0:
				continue
			case k.b != nil:
				v = reflect.ValueOf(k.b)
			case k.pre:
				continue
			}
			l = spans(l, v, len(of))
			of, cs = append(of, k), append(cs, cl)
		}
	}
	sortSpans(l)
	// each call's own parts may well lie in each other
	var far span
	for i, s := range l {
		if i > 0 && s.lo < far.hi && s.own != far.own {
			a, b := of[far.own], of[s.own]
			cs[s.own].violate("alias", fmt.Sprintf("%s (client %d, op %d) and %s (client %d, op %d) have memory in common: a %s and a %s",
				a.what, cs[far.own].id, a.op, b.what, cs[s.own].id, b.op, far.t, s.t))
			return
		}
		if s.hi > far.hi {
			far = s
		}
	}
	w.checked("apart", len(of))
}

func (w *World) checked(what string, n int) { w.stats["checked."+what] += int64(n) }

// own: the caller changes or drops things it got from earlier calls.
func (cl *client) own(op *Op) {
	if len(cl.kept) == 0 {
		return
	}
	i := int(op.In.V % uint64(len(cl.kept)))
	k := cl.kept[i]
	if k.b != nil && !strings.HasPrefix(k.what, "bytes given") {
		for j := range k.b[:cap(k.b)] {
			k.b[:cap(k.b)][j] = 'Z'
		}
		cl.count("fault.own-scribble")
	}
	cl.kept = append(append([]kept(nil), cl.kept[:i]...), cl.kept[i+1:]...)
}

func (w *World) checkCost() {
	var keys []string
	for k := range w.probes {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		l := w.probes[k]
		if len(l) < 4 {
			continue
		}
		base := l[1]
		if l[2] > base {
			base = l[2]
		}
		for i, n := range l[3:] {
			if n > base+base/4+60 {
				w.viol = &Violation{Kind: "cost-growth", Detail: fmt.Sprintf("the same call %s took %d steps early in the process's life and %d at its %d-th repetition", k, base, n, i+4)}
				return
			}
		}
		w.stats["cost.probes"] += int64(len(l))
	}
	w.checkHeap()
}

// HeapLimit is how many bytes live memory has to grow by in every round to count.
// A replay is content with less, for measured growth varies a little from one
// process to another: what was found stays found.
var HeapLimit int64 = 2000

// checkHeap looks at live memory, measured between rounds of the same calls.
// Pools may come to hold larger buffers, types which are met for the first time
// are compiled: that is growth in steps, which come to an end. What is kept call
// by call grows in every round.
func (w *World) checkHeap() {
	n := len(w.heaps)
	if n < 5 {
		return
	}
	a, b := w.heaps[0], w.heaps[n-1]
	if b > a+600<<10+16*uint64(w.maxLen) {
		w.viol = &Violation{Kind: "heap-growth", Detail: fmt.Sprintf("live memory grew from %d to %d KB over a history which repeats the same calls", a>>10, b>>10)}
		return
	}
	if b > a {
		w.stats["cost.heapgrowth"] += int64(b - a)
	}
	w.stats["cost.rounds"] += int64(n - 1)
	if w.plan.Vary {
		// caches which do grow may do so in steps: both halves must show it
		if n <= 6 {
			return
		}
		x, y, z := int64(w.heaps[n-7]), int64(w.heaps[n-4]), int64(w.heaps[n-1])
		least, rounds := min(y-x, z-y)/3, 0
		for i := n - 6; i < n; i++ {
			if int64(w.heaps[i]-w.heaps[i-1]) > HeapLimit*7/20 {
				rounds++
			}
		}
		if least > HeapLimit && rounds >= 5 {
			w.viol = &Violation{Kind: "heap-growth", Detail: fmt.Sprintf("live memory grew by %d bytes and more per round of similar calls; in bytes: %v", least, w.heaps)}
		}
		return
	}
	const k = 4
	if n <= k {
		return
	}
	least := int64(math.MaxInt64)
	for i := n - k; i < n; i++ {
		least = min(least, int64(w.heaps[i]-w.heaps[i-1]))
	}
	if least > HeapLimit {
		w.viol = &Violation{Kind: "heap-growth", Detail: fmt.Sprintf("live memory grew by at least %d bytes in each of the last %d rounds of the same calls; in bytes: %v", least, k, w.heaps)}
	}
}
