// Package simrt is the simulator: it runs tasks one at a time and decides, from
// one seed or from a recorded schedule, which task runs between any two
// scheduling points, when a task stalls, and when everything is killed.
package simrt

import (
	"fmt"
	"runtime"
	"slices"
	"strings"
	"sync"
	"unsafe"
)

const (
	stRunnable = iota
	stBlocked  // waiting for a simulated lock or condition
	stStalled  // sleeping until a step, or until everybody else is done
	stDone
	stSpin // failed to send or receive, worth another try once somebody else ran
)

const (
	hotSize  = 1 << 13
	maxTasks = 192
	chunk    = 20000
	drain    = 20000  // how long the library's own tasks may run after all others
	fairness = 300000 // a task which ran that long gives way once
)

// Segment is one piece of a schedule: the task ran for N scheduling points.
type Segment struct {
	T int   `json:"t"`
	N int64 `json:"n"`
}

type Strategy struct {
	Kind   string    `json:"kind"` // serial, geom, pct, hot, replay
	Mean   int       `json:"mean,omitempty"`
	Depth  int       `json:"depth,omitempty"` // pct change points
	Est    int64     `json:"est,omitempty"`   // pct estimated length
	Hot    []uint32  `json:"hot,omitempty"`   // hot sites
	HotP   int       `json:"hotp,omitempty"`  // preempt at a hot site with HotP/100
	Replay []Segment `json:"replay,omitempty"`
}

type Config struct {
	Seed     uint64
	Strategy Strategy
	KillAt   int64   // kill every task at this step, 0 never
	GCAt     []int64 // collect garbage at these steps, in ascending order
	OnGC     func()
	OpLimit  int64 // scheduling points one operation may take
	Record   bool
}

type Result struct {
	Steps      int64
	Switches   int64
	Preempts   int64
	Stalls     int64
	Hash       uint64 // digest of the schedule as executed
	Schedule   []Segment
	Deadlock   bool
	Crash      string // a goroutine of the library panicked
	StallBlock bool   // somebody could only proceed after a stalled callback returned
	OverLimit  bool
	OverSite   uint32
	Killed     bool
	GCs        int64
	LastSite   uint32
}

type Task struct {
	ID      int
	ch      chan struct{}
	state   int
	budget  int64
	given   int64 // budget handed out
	slice   int64 // scheduling points left before the strategy chooses again
	ran     int64 // scheduling points since it became current
	wake    int64
	forever bool
	spinAt  int64
	total   int64 // scheduling points ever passed, settled part
	spun    int64 // what it was when it failed last
	waitOn  unsafe.Pointer
	dying   bool
	prio    uint64
	ops     int64 // scheduling points used by the current operation, settled part
	nmap    uint64
	npool   uint64
	User    any
	wg      *sync.WaitGroup
	limit   int64
	bg      bool // started by the library itself
}

type sim struct {
	cfg      Config
	rng      Rng
	tasks    [maxTasks]*Task
	n        int
	base     int64 // steps settled
	res      Result
	killing  bool
	over     bool
	change   [16]int64
	nchange  int
	seg      int
	gc       int
	segs     []Segment
	yield    bool // the running task gives way
	progress int64
	lastSite uint32
	wg       sync.WaitGroup
	fg       int   // tasks given to Run which are not done
	drainAt  int64 // when they are, others may run until then
	bgTurns  int   // choices since one of them could run
	idle     chan struct{}
}

var (
	cur  *Task // the task which runs, nil outside of a simulation
	s    *sim
	hot  [hotSize]bool
	Hits []uint32 // per site counters, nil when not wanted

	// knobs of the simulated pools and map iteration
	PoolMode  string
	PoolSeed  uint64
	MapSeed   uint64
	PoolEpoch uint64
)

// Y is a scheduling point.
//
//go:norace
func Y(site uint32) {
	t := cur
	if t == nil {
		return
	}
	if Hits != nil {
		Hits[site]++
	}
	t.budget--
	if t.budget > 0 && !hot[site&(hotSize-1)] {
		return
	}
	t.slow(site)
}

// Cur returns the running task.
//
//go:norace
func Cur() *Task { return cur }

//go:norace
func InSim() bool { return cur != nil }

//go:norace
func Dying() bool { return cur != nil && cur.dying }

// Now is the simulated time: scheduling points passed so far.
//
//go:norace
func Now() int64 {
	if s == nil || cur == nil {
		return 0
	}
	return s.base + cur.given - cur.budget
}

//go:norace
func (t *Task) settle() {
	used := t.given - t.budget
	s.base += used
	t.ops += used
	t.slice -= used
	t.ran += used
	t.total += used
	t.given, t.budget = 0, 0
}

//go:norace
func (t *Task) grant() {
	n := t.slice
	if n > chunk {
		n = chunk
	}
	if s.cfg.KillAt > 0 && s.base+n > s.cfg.KillAt {
		n = s.cfg.KillAt - s.base
	}
	if l := s.cfg.GCAt; s.gc < len(l) && l[s.gc] > s.base && s.base+n > l[s.gc] {
		n = l[s.gc] - s.base
	}
	if s.cfg.Strategy.Kind == "pct" {
		for i := 0; i < s.nchange; i++ {
			if s.change[i] > s.base && s.change[i] < s.base+n {
				n = s.change[i] - s.base
			}
		}
	}
	if n < 1 {
		n = 1
	}
	t.given, t.budget = n, n
}

//go:norace
func (t *Task) slow(site uint32) {
	if t.dying {
		t.given += 1 << 40
		t.budget += 1 << 40
		return
	}
	t.settle()
	s.lastSite = site
	if t.limit > 0 && t.ops > t.limit {
		s.over = true
		s.res.OverLimit = true
		s.res.OverSite = site
		s.killing = true
	}
	if s.cfg.KillAt > 0 && s.base >= s.cfg.KillAt {
		s.killing = true
		s.res.Killed = true
	}
	if s.killing {
		t.die()
		return
	}
	if s.fg == 0 && s.base >= s.drainAt {
		t.slice = 0
	}
	if s.gc < len(s.cfg.GCAt) && s.cfg.GCAt[s.gc] <= s.base {
		for s.gc < len(s.cfg.GCAt) && s.cfg.GCAt[s.gc] <= s.base {
			s.gc++
		}
		collect()
	}
	isHot := hot[site&(hotSize-1)]
	if s.cfg.Strategy.Kind == "pct" {
		for i := 0; i < s.nchange; i++ {
			if s.change[i] == s.base {
				t.prio = uint64(i) // below every initial priority
				t.slice = 0
			}
		}
	}
	if t.ran > fairness && t.slice > 0 && s.cfg.Strategy.Kind != "replay" {
		s.yield = true // it may be waiting for another task
		t.slice = 0
	}
	if isHot && t.slice > 0 {
		if int(Hash(s.cfg.Seed, uint64(s.base), uint64(site))%100) < s.cfg.Strategy.HotP {
			t.slice = 0
		}
	}
	if t.slice > 0 {
		t.grant()
		return
	}
	t.resched()
}

// collect garbage. Memory which is freed is overwritten (GODEBUG=clobberfree=1),
// a use of it shows; and pools lose what they hold.
//
//go:norace
func collect() {
	s.res.GCs++
	s.cfg.OnGC()
	runtime.GC()
}

//go:norace
func (t *Task) die() {
	t.dying = true
	t.given = 1 << 40
	t.budget = 1 << 40
	runtime.Goexit()
}

// resched gives up the processor; returns when t is chosen again.
//
//go:norace
func (t *Task) resched() {
	if t.bg && t.state != stRunnable {
		t.ops = 0
	}
	next := pick(t)
	if next == nil && s.fg == 0 {
		t.rest()
		return
	}
	if next == nil {
		s.res.Deadlock = true
		s.killing = true
		t.die()
		return
	}
	if next != t {
		handover(t, next)
		if s.killing {
			t.die()
			return
		}
	}
	t.grant()
}

//go:norace
func noteRan(t *Task) {
	if t.ran == 0 {
		return
	}
	s.res.Hash = mix(s.res.Hash ^ uint64(t.ID)<<48 ^ uint64(t.ran)<<16 ^ uint64(s.lastSite))
	if s.cfg.Record {
		s.res.Schedule = append(s.res.Schedule, Segment{t.ID, t.ran})
	}
	t.ran = 0
}

//go:norace
func handover(t, next *Task) {
	noteRan(t)
	s.res.Switches++
	if t.state == stRunnable {
		s.res.Preempts++
	}
	if t.bg {
		RaceReleaseMerge(unsafe.Pointer(&bgTok))
	}
	cur = next
	hide()
	next.ch <- struct{}{}
	<-t.ch
	unhide()
	if t.bg {
		RaceAcquire(unsafe.Pointer(&fgTok))
	}
}

var bgTok, fgTok byte

// rest ends a run in which only tasks of the library are left; they go on in the
// next one.
//
//go:norace
func (t *Task) rest() {
	noteRan(t)
	RaceReleaseMerge(unsafe.Pointer(&bgTok))
	cur = nil
	hide()
	s.idle <- struct{}{}
	<-t.ch
	unhide()
	RaceAcquire(unsafe.Pointer(&fgTok))
	if s.killing {
		t.die()
		return
	}
	t.grant()
}

// pick chooses who runs next and for how long. from is the running task.
//
//go:norace
func pick(from *Task) *Task {
	if s.killing {
		for i := 0; i < s.n; i++ {
			if s.tasks[i].state != stDone {
				s.tasks[i].state = stRunnable
				s.tasks[i].slice = 1
				return s.tasks[i]
			}
		}
		return nil
	}
	for i := 0; i < s.n; i++ {
		t := s.tasks[i]
		if t.state == stStalled && !t.forever && t.wake <= s.base {
			t.state = stRunnable
		}
	}
	if from != nil && from.state != stSpin || from == nil {
		s.progress++ // it may have done what a spinning task waits for
	}
	if s.fg == 0 && s.base >= s.drainAt {
		return nil
	}
	nr, nbg := 0, 0
	blocked := false
	for i := 0; i < s.n; i++ {
		t := s.tasks[i]
		if t.state == stSpin && t.spinAt < s.progress {
			t.state = stRunnable
		}
		switch t.state {
		case stRunnable:
			nr++
			if t.bg {
				nbg++
			}
		case stBlocked, stSpin:
			if !t.bg {
				blocked = true
			}
		}
	}
	if s.fg == 0 && nr == 0 {
		return nil
	}
	onlyFg := false
	if s.fg > 0 && nr > nbg {
		s.bgTurns = 0
	} else if s.fg > 0 {
		// whatever the library's own tasks do, it does not help
		if s.bgTurns++; s.bgTurns > 3000 {
			onlyFg = true
			nr = 0
		}
	}
	if nr == 0 {
		// time passes until the earliest sleeper, then those who wait for everybody
		var best *Task
		for i := 0; i < s.n; i++ {
			t := s.tasks[i]
			if t.state == stStalled && !t.forever && (best == nil || t.wake < best.wake) && !(t.bg && onlyFg) {
				best = t
			}
		}
		if best == nil {
			for i := 0; i < s.n; i++ {
				t := s.tasks[i]
				if t.state == stStalled && !(t.bg && onlyFg) {
					best = t
					break
				}
			}
			if best != nil && blocked {
				s.res.StallBlock = true
			}
		} else if best.wake > s.base {
			s.base = best.wake
		}
		if best == nil {
			return nil
		}
		best.state = stRunnable
		nr = 1
		if onlyFg {
			s.bgTurns = 0
		}
		if onlyFg && s.cfg.Strategy.Kind != "replay" {
			best.slice = 1 << 40
			if st := &s.cfg.Strategy; st.Kind == "geom" {
				best.slice = geom(&s.rng, st.Mean)
			}
			return best
		}
	}
	st := &s.cfg.Strategy
	if s.yield {
		s.yield = false
		if nr > 1 && from != nil && (st.Kind != "replay" || s.seg >= len(s.segs)) {
			for i := 1; i < s.n; i++ {
				t := s.tasks[(from.ID+i)%s.n]
				if t.state == stRunnable {
					t.slice = 1 << 40
					if st.Kind == "pct" {
						from.prio, t.prio = t.prio, from.prio
					}
					if st.Kind == "geom" {
						t.slice = geom(&s.rng, st.Mean)
					}
					return t
				}
			}
		}
	}
	switch st.Kind {
	case "replay":
		for s.seg < len(s.segs) {
			g := s.segs[s.seg]
			s.seg++
			if g.T >= s.n || g.N <= 0 {
				continue
			}
			if t := s.tasks[g.T]; t.state == stStalled && !t.bg && nr == nbg {
				// the library's own tasks went round in circles until then
				t.state = stRunnable
				if !t.forever && t.wake > s.base {
					s.base = t.wake
				}
			}
			if s.tasks[g.T].state == stRunnable {
				s.tasks[g.T].slice = g.N
				return s.tasks[g.T]
			}
		}
		t := from
		if t == nil || t.state != stRunnable {
			t = nth(0)
		}
		t.slice = 1 << 40
		return t
	case "geom":
		t := nth(s.rng.N(nr))
		t.slice = geom(&s.rng, st.Mean)
		return t
	case "pct":
		var best *Task
		for i := 0; i < s.n; i++ {
			t := s.tasks[i]
			if t.state == stRunnable && (best == nil || t.prio > best.prio) {
				best = t
			}
		}
		best.slice = 1 << 40
		return best
	case "hot":
		t := nth(s.rng.N(nr))
		t.slice = 1 << 40
		return t
	default: // serial
		t := from
		if t == nil || t.state != stRunnable {
			t = nth(s.rng.N(nr))
		}
		t.slice = 1 << 40
		return t
	}
}

//go:norace
func geom(r *Rng, mean int) int64 {
	if mean <= 1 {
		return 1
	}
	// mixture: mostly short, sometimes much longer slices
	m := mean
	switch r.N(8) {
	case 0:
		m = mean * 8
	case 1:
		m = 1 + mean/4
	}
	return int64(1 + r.N(2*m))
}

//go:norace
func nth(k int) *Task {
	for i := 0; i < s.n; i++ {
		if s.tasks[i].state == stRunnable {
			if k == 0 {
				return s.tasks[i]
			}
			k--
		}
	}
	return nil
}

//go:norace
func park(t *Task) {
	hide()
	<-t.ch
	unhide()
}

func taskMain(t *Task, fn func()) {
	defer taskEnd(t)
	if t.bg {
		defer crash(t)
	}
	park(t)
	startTask(t)
	fn()
}

// crash: a panic in a goroutine which the library started would end the process.
func crash(t *Task) {
	if p := recover(); p != nil {
		crashed(t, p)
	}
}

//go:norace
func crashed(t *Task, p any) {
	if !t.dying && s.res.Crash == "" {
		s.res.Crash = fmt.Sprintf("%.200v", p)
		s.killing = true
	}
}

//go:norace
func startTask(t *Task) {
	if s.killing {
		t.die()
		return
	}
	t.grant()
}

// taskEnd runs when the task's function returned, panicked or was killed.
//
//go:norace
func taskEnd(t *Task) {
	t.settleDying()
	noteRan(t)
	t.state = stDone
	w := t.wg
	if t.bg {
		RaceReleaseMerge(unsafe.Pointer(&bgTok))
	} else if s.fg--; s.fg == 0 {
		s.drainAt = s.base + drain
	}
	next := pick(nil)
	if next == nil && (s.fg > 0 || s.killing) {
		anyLeft := false
		for i := 0; i < s.n; i++ {
			if s.tasks[i].state != stDone {
				anyLeft = true
			}
		}
		if anyLeft {
			s.res.Deadlock = true
			s.killing = true
			next = pick(nil)
		}
	}
	cur = next
	idle := s.idle
	if !t.bg {
		w.Done() // orders everything the task did before the end of the run
	}
	hide()
	if next != nil {
		next.ch <- struct{}{}
	} else {
		idle <- struct{}{}
	}
	unhide()
}

//go:norace
func (t *Task) settleDying() {
	if t.dying {
		t.given, t.budget = 0, 0
		return
	}
	t.settle()
}

//go:norace
func addTask(fn func(), user any, limit int64, bg bool) *Task {
	id := s.n
	for i := 0; bg && i < s.n; i++ {
		if o := s.tasks[i]; o.bg && o.state == stDone {
			id = i // its place is free
			break
		}
	}
	if id >= maxTasks {
		panic("simrt: too many tasks")
	}
	t := &Task{ID: id, ch: make(chan struct{}, 1), User: user, wg: &s.wg, limit: limit}
	t.prio = 1000 + Hash(s.cfg.Seed, 77, uint64(id))>>8
	s.tasks[id] = t
	s.n = max(s.n, id+1)
	if bg {
		t.bg = true
	} else {
		s.wg.Add(1)
		s.fg++
	}
	go taskMain(t, fn)
	return t
}

// tasks the library has started itself: at work, and not yet begun because it did
// so outside of any run
var (
	daemons []*Task
	unbegun []func()
)

// Restart ends the tasks of the library: they belong to a process which is no more.
//
//go:norace
func Restart() {
	unbegun = nil
	clock, drawn = 0, 0
	if len(daemons) == 0 {
		return
	}
	s = &sim{killing: true, idle: make(chan struct{}, 1)}
	adopt()
	launch()
	s = nil
}

// adopt takes over what the run before has left.
//
//go:norace
func adopt() {
	for _, t := range daemons {
		t.ID = s.n
		t.prio = 1000 + Hash(s.cfg.Seed, 77, uint64(s.n))>>8
		t.nmap, t.npool, t.slice, t.ran = 0, 0, 0, 0
		s.tasks[s.n] = t
		s.n++
	}
	daemons = nil
}

// launch runs the tasks until none can go on.
//
//go:norace
func launch() {
	RaceRelease(unsafe.Pointer(&fgTok))
	first := pick(nil)
	if first != nil {
		cur = first
		hide()
		first.ch <- struct{}{}
		unhide()
	}
	s.wg.Wait()
	hide()
	if first != nil {
		<-s.idle
	}
	unhide()
	RaceAcquire(unsafe.Pointer(&bgTok))
	cur = nil
	clock += s.base
	for i := 0; i < s.n; i++ {
		if t := s.tasks[i]; t.state != stDone {
			t.wake -= s.base
			t.spinAt = -1
			daemons = append(daemons, t)
		}
	}
}

// Run executes the functions as tasks until all are done or killed.
//
//go:norace
func Run(cfg Config, fns []func()) Result {
	s = &sim{cfg: cfg, idle: make(chan struct{}, 1)}
	s.rng.S = cfg.Seed
	s.segs = cfg.Strategy.Replay
	for i := range hot {
		hot[i] = false
	}
	for _, h := range cfg.Strategy.Hot {
		hot[h&(hotSize-1)] = true
	}
	if cfg.Strategy.Kind == "pct" {
		s.nchange = cfg.Strategy.Depth
		if s.nchange > len(s.change) {
			s.nchange = len(s.change)
		}
		for i := 0; i < s.nchange; i++ {
			s.change[i] = 1 + int64(s.rng.N(int(cfg.Strategy.Est)+1))
		}
	}
	for _, fn := range fns {
		addTask(fn, nil, cfg.OpLimit, false)
	}
	adopt()
	for _, fn := range unbegun {
		addTask(fn, nil, cfg.OpLimit, true)
	}
	unbegun = nil
	launch()
	r := s.res
	r.Steps = s.base
	r.LastSite = s.lastSite
	for i := range hot {
		hot[i] = false
	}
	return r
}

// Go starts a task from inside the simulation. Outside it begins with the next run.
//
//go:norace
func Go(fn func()) {
	if cur == nil {
		unbegun = append(unbegun, fn)
		return
	}
	for i := 0; i < 1000 && running() > maxTasks-32; i++ {
		Gosched() // as the processors are few, those started before get on
	}
	addTask(fn, cur.User, cur.limit, true)
	Preempt()
}

//go:norace
func running() (n int) {
	for i := 0; i < s.n; i++ {
		if !s.tasks[i].bg || s.tasks[i].state != stDone {
			n++
		}
	}
	return n
}

// GoFg starts a task like those given to Run.
//
//go:norace
func GoFg(fn func()) {
	if s.killing {
		return
	}
	addTask(fn, cur.User, s.cfg.OpLimit, false)
	Preempt()
}

// BeginOp resets the budget of scheduling points of the current operation.
//
//go:norace
func BeginOp(limit int64) (old, oldLimit int64) {
	t := cur
	if t == nil {
		return 0, 0
	}
	used := t.given - t.budget
	old, oldLimit = t.ops+used, t.limit
	t.ops = -used
	t.limit = limit
	return old, oldLimit
}

// OpSteps tells how many scheduling points the current operation has used.
//
//go:norace
func OpSteps() int64 {
	t := cur
	if t == nil {
		return 0
	}
	return t.ops + t.given - t.budget
}

//go:norace
func EndOp(old, oldLimit int64) {
	t := cur
	if t == nil {
		return
	}
	used := t.given - t.budget
	t.ops = old - used // what nested operations took is theirs
	t.limit = oldLimit
}

// Preempt lets the scheduler choose again, as at the end of a time slice.
//
//go:norace
func Preempt() {
	t := cur
	if t == nil || t.dying {
		return
	}
	t.settle()
	if s.killing {
		t.die()
		return
	}
	if s.cfg.Strategy.Kind == "serial" {
		t.grant()
		return
	}
	t.slice = 0
	t.resched()
}

// Stall suspends the task for n scheduling points of the others; n < 0 until no
// other task can run.
//
//go:norace
func Stall(n int64) {
	t := cur
	if t == nil || t.dying {
		return
	}
	t.settle()
	if s.killing {
		t.die()
		return
	}
	s.res.Stalls++
	t.state = stStalled
	t.forever = n < 0
	t.wake = s.base + n
	t.resched()
}

// Gosched gives way to another task under every strategy.
//
//go:norace
func Gosched() {
	t := cur
	if t == nil || t.dying {
		return
	}
	t.settle()
	if s.killing {
		t.die()
		return
	}
	t.slice = 0
	s.yield = true
	t.resched()
}

// Send, Recv and Recv2 replace blocking channel operations of the library.
func Send[T any](ch chan<- T) func(T) {
	return func(v T) {
		if cur == nil || cur.dying {
			ch <- v
			return
		}
		for {
			select {
			case ch <- v:
				return
			default:
			}
			spin()
		}
	}
}

func Recv2[T any](ch <-chan T) (v T, ok bool) {
	if cur == nil || cur.dying {
		v, ok = <-ch
		return
	}
	for {
		select {
		case v, ok = <-ch:
			return
		default:
		}
		spin()
	}
}

// spin waits until any other task ran.
//
//go:norace
func spin() {
	spend()
	t := cur
	if t == nil || t.dying {
		return
	}
	t.settle()
	if s.killing {
		t.die()
		return
	}
	if t.total > t.spun+1 {
		s.progress++ // it did something else since
	}
	t.spun = t.total
	t.state = stSpin
	t.spinAt = s.progress
	t.resched()
}

// Spin is one turn of a loop which waits for another task.
func Spin() {
	if cur == nil {
		runtime.Gosched()
		return
	}
	spin()
}

// RangeChan is what `range` over a channel does.
func RangeChan[T any](ch <-chan T) func(func(T) bool) {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(ch)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// RangeMap ranges over a native map of the library, in an order the simulator
// picks.
func RangeMap[M ~map[K]V, K comparable, V any](m M) func(func(K, V) bool) {
	if len(m) > 48 {
		return func(yield func(K, V) bool) {
			for k, v := range m {
				if !yield(k, v) {
					return
				}
			}
		}
	}
	type ent struct {
		k K
		v V
		s string
	}
	return func(yield func(K, V) bool) {
		l := make([]ent, 0, len(m))
		for k, v := range m {
			l = append(l, ent{k, v, fmt.Sprintf("%v", k)})
		}
		slices.SortFunc(l, func(a, b ent) int { return strings.Compare(a.s, b.s) })
		r := Rng{S: Draw(MapSeed, 5)}
		for i := len(l) - 1; i > 0; i-- {
			j := r.N(i + 1)
			l[i], l[j] = l[j], l[i]
		}
		for _, e := range l {
			v, ok := m[e.k]
			if !ok {
				if e.k == e.k {
					continue // deleted meanwhile
				}
				v = e.v
			}
			if !yield(e.k, v) {
				return
			}
		}
	}
}

// RangeMapKeys is RangeMap for the keys alone.
func RangeMapKeys[M ~map[K]V, K comparable, V any](m M) func(func(K) bool) {
	return func(yield func(K) bool) {
		RangeMap(m)(func(k K, _ V) bool { return yield(k) })
	}
}

var drawn uint64

// Random is a number nobody can foresee, as far as the library is concerned.
//
//go:norace
func Random() uint64 {
	if cur == nil {
		drawn++
		return Hash(MapSeed, 6, drawn)
	}
	return Draw(MapSeed, 7)
}

// SetFinalizer does nothing: nobody may count on finalizers being run.
func SetFinalizer(any, any) {}

func AddCleanup[T, S any](*T, func(S), S) runtime.Cleanup { return runtime.Cleanup{} }

func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// spend passes one scheduling point which belongs to no place in the code.
func spend() { Y(hotSize - 1) }

// Block suspends the task until Wake is called with the same address.
//
//go:norace
func Block(on unsafe.Pointer) {
	t := cur
	if t == nil {
		panic("simrt: blocking outside of the simulation would never end")
	}
	if t.dying {
		return
	}
	t.settle()
	if s.killing {
		t.die()
		return
	}
	t.state = stBlocked
	t.waitOn = on
	t.resched()
}

//go:norace
func Wake(on unsafe.Pointer) {
	if s == nil || cur == nil {
		return
	}
	for i := 0; i < s.n; i++ {
		t := s.tasks[i]
		if t.state == stBlocked && t.waitOn == on {
			t.state = stRunnable
			t.waitOn = nil
		}
	}
}

// Draw is a per task deterministic number stream, stateless across tasks.
//
//go:norace
func Draw(seed uint64, what uint64) uint64 {
	t := cur
	if t == nil {
		return Hash(seed, what, 0)
	}
	t.nmap++
	return Hash(seed, what^uint64(t.ID+1)<<32, t.nmap)
}

func Zero[T any](p *T) {
	var z T
	*p = z
}
