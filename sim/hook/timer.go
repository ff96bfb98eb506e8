package hook

import (
	"sync/atomic"
	"time"
)

// Timers of the code under test. One that was started by a caller thread fires after a number of steps that
// the seed decides, whatever its duration: time passes as fast as it likes. Others are real.

// Timer is time.Timer.
type Timer struct {
	C    <-chan time.Time
	c    chan time.Time
	f    func()
	gen  atomic.Int64
	on   atomic.Bool
	real *time.Timer
}

// Ticker is time.Ticker.
type Ticker struct {
	C    <-chan time.Time
	c    chan time.Time
	gen  atomic.Int64
	real *time.Ticker
}

// own are the channels of simulated timers, the last ones that were made.
var (
	own  [256]chan time.Time
	nown int
)

//go:norace
func owned(key uintptr) bool {
	for i := range own {
		if own[i] != nil && chanKey(own[i]) == key {
			return true
		}
	}
	return false
}

//go:norace
func newTimeChan() chan time.Time {
	c := make(chan time.Time, 1)
	own[nown%len(own)] = c
	nown++
	return c
}

// pass lets time pass.
func pass() {
	n := int(PoolChoice() % 4)
	for i := 0; i < 1<<(3*n); i++ {
		Gosched()
	}
}

func give(c chan time.Time) {
	select {
	case c <- time.Now():
		wakeChan(chanKey(c))
	default:
	}
}

func (t *Timer) start() {
	gen := t.gen.Add(1)
	t.on.Store(true)
	Go(func() {
		pass()
		if t.gen.Load() != gen || !t.on.CompareAndSwap(true, false) {
			return
		}
		if t.f != nil {
			t.f()
			return
		}
		give(t.c)
	})
}

// NewTimer is time.NewTimer.
func NewTimer(d time.Duration) *Timer {
	if !mine() {
		r := time.NewTimer(d)
		return &Timer{C: r.C, real: r}
	}
	t := &Timer{c: newTimeChan()}
	t.C = t.c
	t.start()
	return t
}

// AfterFunc is time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *Timer {
	if !mine() {
		return &Timer{real: time.AfterFunc(d, f)}
	}
	t := &Timer{f: f}
	t.start()
	return t
}

// After is time.After.
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// Stop is Timer.Stop.
func (t *Timer) Stop() bool {
	if t.real != nil {
		return t.real.Stop()
	}
	t.gen.Add(1)
	was := t.on.Swap(false)
	if t.c != nil {
		select {
		case <-t.c: // as since Go 1.23
		default:
		}
	}
	return was
}

// Reset is Timer.Reset.
func (t *Timer) Reset(d time.Duration) bool {
	if t.real != nil {
		return t.real.Reset(d)
	}
	was := t.Stop()
	t.start()
	return was
}

// maxTicks is how often a ticker ticks: a caller that waits for something that never comes is found then.
const maxTicks = 50

func (t *Ticker) start() {
	gen := t.gen.Add(1)
	Go(func() {
		for i := 0; i < maxTicks; i++ {
			pass()
			if t.gen.Load() != gen {
				return
			}
			give(t.c)
		}
	})
}

// NewTicker is time.NewTicker.
func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	if !mine() {
		r := time.NewTicker(d)
		return &Ticker{C: r.C, real: r}
	}
	t := &Ticker{c: newTimeChan()}
	t.C = t.c
	t.start()
	return t
}

// Tick is time.Tick.
func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

// Stop is Ticker.Stop.
func (t *Ticker) Stop() {
	if t.real != nil {
		t.real.Stop()
		return
	}
	t.gen.Add(1)
}

// Reset is Ticker.Reset.
func (t *Ticker) Reset(d time.Duration) {
	if t.real != nil {
		t.real.Reset(d)
		return
	}
	t.start()
}
