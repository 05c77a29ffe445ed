package simrt

import "time"

// The simulated clock: one scheduling point is a microsecond.

var (
	clock int64 // of the runs before
	Skew  int64 // microseconds the clock has jumped
)

var epoch = time.Date(2024, 2, 29, 23, 59, 58, 0, time.UTC)

//go:norace
func Time() time.Time {
	return epoch.Add(time.Duration(clock+Now()+Skew) * time.Microsecond)
}

func Since(t time.Time) time.Duration { return Time().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Time()) }
func Sleep(d time.Duration)           { Stall(1 + int64(d/time.Microsecond)) }

// Timer and Ticker stand for those of package time.
type Timer struct {
	C   <-chan time.Time
	c   chan time.Time
	f   func()
	gen int
	on  bool
	per time.Duration
}

type Ticker = Timer

func NewTimer(d time.Duration) *Timer {
	t := &Timer{c: make(chan time.Time, 1)}
	t.C = t.c
	t.start(d)
	return t
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := &Timer{c: make(chan time.Time, 1), per: d}
	t.C = t.c
	t.start(d)
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }
func Tick(d time.Duration) <-chan time.Time  { return NewTicker(d).C }

//go:norace
func (t *Timer) start(d time.Duration) {
	t.gen++
	t.on = true
	gen := t.gen
	Go(func() { t.run(gen, d) })
}

//go:norace
func (t *Timer) run(gen int, d time.Duration) {
	for {
		Sleep(d)
		if t.gen != gen || !t.on {
			return
		}
		if t.f != nil {
			t.on = false
			t.f()
			return
		}
		select {
		case t.c <- Time():
		default:
		}
		if t.per == 0 {
			t.on = false
			return
		}
	}
}

//go:norace
func (t *Timer) Stop() bool {
	on := t.on
	t.on = false
	t.gen++
	return on
}

//go:norace
func (t *Timer) Reset(d time.Duration) bool {
	on := t.on
	if t.per != 0 {
		t.per = d
	}
	select {
	case <-t.c:
	default:
	}
	t.start(d)
	return on
}
