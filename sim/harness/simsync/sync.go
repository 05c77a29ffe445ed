// Package simsync replaces the standard sync package in the simulated library:
// same contracts, but who waits, who is woken and what a Pool returns is the
// simulator's choice.
package simsync

import (
	"unsafe"

	"github.com/trim21/go-phpserialize/internal/verifsim/simrt"
)

type Locker interface {
	Lock()
	Unlock()
}

const siteBase = 1<<13 - 64 // scheduling points of the shims themselves

type Mutex struct {
	held bool
	tok  int64
}

//go:norace
func (m *Mutex) Lock() {
	y(1)
	for m.held && !simrt.Dying() {
		simrt.Block(unsafe.Pointer(m))
	}
	m.held = true
	simrt.RaceAcquire(unsafe.Pointer(&m.tok))
}

//go:norace
func (m *Mutex) TryLock() bool {
	y(2)
	if m.held {
		return false
	}
	m.held = true
	simrt.RaceAcquire(unsafe.Pointer(&m.tok))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if !m.held && !simrt.Dying() {
		fatal("sync: unlock of unlocked mutex")
	}
	simrt.RaceRelease(unsafe.Pointer(&m.tok))
	m.held = false
	simrt.Wake(unsafe.Pointer(m))
	y(3)
}

type RWMutex struct {
	w       bool
	r       int
	waiting int
	tok     int64
	rtok    int64
}

//go:norace
func (m *RWMutex) Lock() {
	y(4)
	m.waiting++
	for (m.w || m.r > 0) && !simrt.Dying() {
		simrt.Block(unsafe.Pointer(m))
	}
	m.waiting--
	m.w = true
	simrt.RaceAcquire(unsafe.Pointer(&m.tok))
	simrt.RaceAcquire(unsafe.Pointer(&m.rtok))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	simrt.RaceAcquire(unsafe.Pointer(&m.tok))
	simrt.RaceAcquire(unsafe.Pointer(&m.rtok))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if !m.w && !simrt.Dying() {
		fatal("sync: Unlock of unlocked RWMutex")
	}
	simrt.RaceRelease(unsafe.Pointer(&m.tok))
	m.w = false
	simrt.Wake(unsafe.Pointer(m))
	y(5)
}

//go:norace
func (m *RWMutex) RLock() {
	y(6)
	// a waiting writer excludes new readers, as in the real one
	for (m.w || m.waiting > 0) && !simrt.Dying() {
		simrt.Block(unsafe.Pointer(m))
	}
	m.r++
	simrt.RaceAcquire(unsafe.Pointer(&m.tok))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	if m.w || m.waiting > 0 {
		return false
	}
	m.r++
	simrt.RaceAcquire(unsafe.Pointer(&m.tok))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if m.r <= 0 && !simrt.Dying() {
		fatal("sync: RUnlock of unlocked RWMutex")
	}
	simrt.RaceReleaseMerge(unsafe.Pointer(&m.rtok))
	m.r--
	simrt.Wake(unsafe.Pointer(m))
	y(7)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	done bool
	m    Mutex
	tok  int64
}

func (o *Once) Do(f func()) {
	y(8)
	if o.isDone() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.isDone() {
		defer o.setDone()
		f()
	}
}

//go:norace
func (o *Once) isDone() bool {
	if o.done {
		simrt.RaceAcquire(unsafe.Pointer(&o.tok))
	}
	return o.done
}

//go:norace
func (o *Once) setDone() {
	simrt.RaceRelease(unsafe.Pointer(&o.tok))
	o.done = true
}

func OnceFunc(f func()) func() {
	var o Once
	valid := false
	var p any
	return func() {
		o.Do(func() {
			defer func() {
				p = recover()
				if !valid {
					panic(p)
				}
			}()
			f()
			valid = true
		})
		if !valid {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var r T
	g := OnceFunc(func() { r = f() })
	return func() T { g(); return r }
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var a A
	var b B
	g := OnceFunc(func() { a, b = f() })
	return func() (A, B) { g(); return a, b }
}

type WaitGroup struct {
	n   int
	tok int64
}

//go:norace
func (w *WaitGroup) Add(d int) {
	if d < 0 {
		simrt.RaceReleaseMerge(unsafe.Pointer(&w.tok))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		simrt.Wake(unsafe.Pointer(w))
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	y(9)
	for w.n > 0 && !simrt.Dying() {
		simrt.Block(unsafe.Pointer(w))
	}
	simrt.RaceAcquire(unsafe.Pointer(&w.tok))
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() { defer w.Done(); f() })
}

// Cond wakes in the order of arrival, as the real one does.
type Cond struct {
	L    Locker
	wait []*condWait
}

type condWait struct{ woken bool }

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	w := c.enter()
	c.L.Unlock()
	w.sleep()
	c.L.Lock()
}

//go:norace
func (c *Cond) enter() *condWait {
	y(24)
	w := &condWait{}
	c.wait = append(c.wait, w)
	return w
}

//go:norace
func (w *condWait) sleep() {
	for !w.woken && !simrt.Dying() {
		simrt.Block(unsafe.Pointer(w))
	}
}

//go:norace
func (c *Cond) Signal() {
	y(25)
	if len(c.wait) > 0 {
		w := c.wait[0]
		c.wait = c.wait[1:]
		w.woken = true
		simrt.Wake(unsafe.Pointer(w))
	}
}

//go:norace
func (c *Cond) Broadcast() {
	y(26)
	for _, w := range c.wait {
		w.woken = true
		simrt.Wake(unsafe.Pointer(w))
	}
	c.wait = nil
}

// Pool: what Get returns is the simulator's choice, within the contract of
// sync.Pool: any item put before and not handed out since, or a new one. Items
// may vanish at any time.
type Pool struct {
	New    func() any
	items  []poolItem
	epoch  uint64
	listed bool
}

type poolItem struct {
	v   any
	tok *int64
}

var PoolStats struct{ Get, Put, New, Reuse, Drop int64 }

func (p *Pool) Get() any {
	y(10)
	it, ok := p.take()
	y(11)
	if ok {
		return it
	}
	if p.New == nil {
		return nil
	}
	return p.New()
}

var (
	filled  [256]*Pool
	nfilled int
)

// DropPools takes everything out of every pool, as two garbage collections do.
//
//go:norace
func DropPools() {
	for i := 0; i < nfilled; i++ {
		filled[i].items = nil
		filled[i].listed = false
		filled[i] = nil
	}
	nfilled = 0
}

//go:norace
func (p *Pool) take() (any, bool) {
	PoolStats.Get++
	if p.epoch != simrt.PoolEpoch {
		p.epoch = simrt.PoolEpoch
		p.items = nil
	}
	n := len(p.items)
	if n == 0 {
		PoolStats.New++
		return nil, false
	}
	i := n - 1
	switch simrt.PoolMode {
	case "fifo":
		i = 0
	case "random":
		r := simrt.Draw(simrt.PoolSeed, 2)
		if r%8 == 0 {
			PoolStats.New++
			return nil, false
		}
		i = int(r>>8) % n
		if i < 0 {
			i = 0
		}
	case "new":
		PoolStats.New++
		return nil, false
	}
	it := p.items[i]
	for j := i; j+1 < n; j++ {
		p.items[j] = p.items[j+1]
	}
	p.items[n-1] = poolItem{}
	p.items = p.items[:n-1]
	simrt.RaceAcquire(unsafe.Pointer(it.tok))
	PoolStats.Reuse++
	return it.v, true
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	y(12)
	p.put(x)
	y(13)
}

//go:norace
func (p *Pool) put(x any) {
	PoolStats.Put++
	if p.epoch != simrt.PoolEpoch {
		p.epoch = simrt.PoolEpoch
		p.items = nil
	}
	if simrt.PoolMode == "drop" && simrt.Draw(simrt.PoolSeed, 3)%4 == 0 {
		PoolStats.Drop++
		return
	}
	if !p.listed && nfilled < len(filled) {
		p.listed = true
		filled[nfilled] = p
		nfilled++
	}
	if len(p.items) > 256 {
		PoolStats.Drop++
		return
	}
	it := poolItem{v: x, tok: new(int64)}
	simrt.RaceReleaseMerge(unsafe.Pointer(it.tok))
	p.items = append(p.items, it)
}

// Map has the contract of sync.Map; iteration order is insertion order. It is a
// list: the accesses of a built-in map would be seen by the race detector.
type Map struct {
	ents []*mapEntry
	tok  int64
}

type mapEntry struct{ k, v any }

func (m *Map) Load(k any) (any, bool) { y(14); return m.load(k) }

//go:norace
func (m *Map) find(k any) int {
	for i := 0; i < len(m.ents); i++ {
		if m.ents[i].k == k {
			return i
		}
	}
	return -1
}

//go:norace
func (m *Map) load(k any) (any, bool) {
	i := m.find(k)
	if i < 0 {
		return nil, false
	}
	simrt.RaceAcquire(unsafe.Pointer(&m.tok))
	return m.ents[i].v, true
}

func (m *Map) Store(k, v any) { m.Swap(k, v) }

func (m *Map) Swap(k, v any) (any, bool) {
	y(15)
	old, ok := m.load(k)
	m.set(k, v)
	y(16)
	return old, ok
}

//go:norace
func (m *Map) set(k, v any) {
	simrt.RaceReleaseMerge(unsafe.Pointer(&m.tok))
	e := &mapEntry{k, v}
	if i := m.find(k); i >= 0 {
		m.ents[i] = e
		return
	}
	m.ents = append(m.ents, e)
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	y(17)
	if old, ok := m.load(k); ok {
		return old, true
	}
	m.set(k, v)
	y(18)
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	y(19)
	v, ok := m.load(k)
	m.del(k)
	return v, ok
}

func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

//go:norace
func (m *Map) del(k any) {
	i := m.find(k)
	if i < 0 {
		return
	}
	simrt.RaceReleaseMerge(unsafe.Pointer(&m.tok))
	var l []*mapEntry
	for j := 0; j < len(m.ents); j++ {
		if j != i {
			l = append(l, m.ents[j])
		}
	}
	m.ents = l
}

func (m *Map) CompareAndSwap(k, old, new any) bool {
	y(20)
	v, ok := m.load(k)
	if !ok || v != old {
		return false
	}
	m.set(k, new)
	return true
}

func (m *Map) CompareAndDelete(k, old any) bool {
	y(21)
	v, ok := m.load(k)
	if !ok || v != old {
		return false
	}
	m.del(k)
	return true
}

//go:norace
func (m *Map) list() []*mapEntry {
	simrt.RaceAcquire(unsafe.Pointer(&m.tok))
	var l []*mapEntry
	for i := 0; i < len(m.ents); i++ {
		l = append(l, m.ents[i])
	}
	return l
}

func (m *Map) Range(f func(k, v any) bool) {
	y(22)
	for _, e := range m.list() {
		v, ok := m.load(e.k)
		if ok && !f(e.k, v) {
			return
		}
	}
}

func (m *Map) Clear() {
	y(23)
	for _, e := range m.list() {
		m.del(e.k)
	}
}

func y(n uint32) { simrt.Y(siteBase + n) }

func fatal(msg string) { panic("simsync fatal: " + msg) }
