package hook

import (
	"reflect"
	"runtime"
	"time"
	"unsafe"
)

// Channel operations of the code under test. The build calls these instead of <-, so that a caller thread
// that has to wait hands over to another one instead of stopping the process.

// offer is one side of a communication over an unbuffered channel, held out to the other: a value, or the
// wish for one. What is accepted has happened, whenever its owner runs again.
type offer struct {
	key   uintptr
	want  bool // for a value
	v     any
	taken bool
	set   *offers // the communications of one select statement, of which one happens
	owner *thread
	hb    byte
}

type offers struct{ done *offer }

var held [256]*offer

// anyChan is the key of those who wait for several channels.
const anyChan = firstKey + 2

//go:norace
func wakeChan(key uintptr) {
	Wake(key)
	Wake(anyChan)
}

// dropOffers forgets what was held out by threads that are gone.
//
//go:norace
func dropOffers(s *sim) {
	for i, o := range held {
		if o == nil {
			continue
		}
		gone := true
		for _, t := range s.threads {
			if t == o.owner {
				gone = false
			}
		}
		if gone {
			held[i] = nil
		}
	}
}

// mine says whether the running goroutine is a caller thread of the simulation.
//
//go:norace
func mine() bool {
	s := active
	return s != nil && s.cur != nil && !s.cur.exiting && s.cur.goid == runtime.SimGoid()
}

// dying says whether the running goroutine is a thread that is being ended: it must not wait.
//
//go:norace
func dying() bool {
	s := active
	return s != nil && s.cur != nil && s.cur.exiting && s.cur.goid == runtime.SimGoid()
}

func chanKey[T any](ch T) uintptr { return *(*uintptr)(unsafe.Pointer(&ch)) }

// blockOn waits for something to happen to a channel. A nil channel is waited for in vain.
//
//go:norace
func blockOn(key uintptr) bool {
	s := active
	// The code under test may have goroutines of its own at the other end: they run now.
	if runtime.NumGoroutine() > s.base-s.ended {
		for i := 0; i < 20; i++ {
			runtime.Gosched()
		}
		s.cur.polls++
		if s.cur.polls < 200 {
			return true
		}
	}
	s.cur.polls = 0
	if key == 0 {
		key = firstKey + 1
	}
	t := s.cur
	t.onChan = true
	ok := Block(key)
	t.onChan = false
	return ok
}

// match accepts what the other side holds out, if it does.
//
//go:norace
func match(key uintptr, want bool, mine *offers) *offer {
	if key == 0 {
		return nil
	}
	for _, o := range held {
		if o != nil && o.key == key && o.want == want && !o.taken && (mine == nil || o.set != mine) {
			o.taken = true
			if o.set != nil {
				o.set.done = o
			}
			withdraw(o)
			return o
		}
	}
	return nil
}

//go:norace
func hold(o *offer) {
	o.owner = active.cur
	for i := range held {
		if held[i] == nil {
			held[i] = o
			return
		}
	}
}

// withdraw takes an offer back, and those of the same select statement.
//
//go:norace
func withdraw(o *offer) {
	for i, x := range held {
		if x != nil && (x == o || o.set != nil && x.set == o.set) {
			held[i] = nil
		}
	}
}

//go:norace
func (o *offer) accepted() bool { return o.taken }

//go:norace
func (o *offer) put(v any) { o.v = v }

//go:norace
func (o *offer) get() any { return o.v }

//go:norace
func newOffer(key uintptr, want bool, v any, set *offers) *offer {
	return &offer{key: key, want: want, v: v, set: set}
}

// sendNow sends if that needs no waiting.
func sendNow[T any](ch chan<- T, v T, set *offers) bool {
	select {
	case ch <- v:
		wakeChan(chanKey(ch))
		return true
	default:
	}
	if cap(ch) > 0 {
		return false
	}
	o := match(chanKey(ch), true, set)
	if o == nil {
		return false
	}
	RaceAcquire(unsafe.Pointer(&o.hb))
	o.put(v)
	RaceRelease(unsafe.Pointer(&o.hb))
	wakeChan(chanKey(ch))
	return true
}

// recvNow receives if that needs no waiting.
func recvNow[T any](ch <-chan T, set *offers) (v T, ok, done bool) {
	select {
	case v, ok = <-ch:
		wakeChan(chanKey(ch))
		return v, ok, true
	default:
	}
	if cap(ch) > 0 {
		return v, false, false
	}
	o := match(chanKey(ch), false, set)
	if o == nil {
		return v, false, false
	}
	RaceAcquire(unsafe.Pointer(&o.hb))
	v, _ = o.get().(T)
	RaceRelease(unsafe.Pointer(&o.hb))
	wakeChan(chanKey(ch))
	return v, true, true
}

// holdOut holds a communication out to the other side.
func holdOut(key uintptr, want bool, v any, set *offers) *offer {
	o := newOffer(key, want, v, set)
	RaceRelease(unsafe.Pointer(&o.hb))
	hold(o)
	wakeChan(key)
	return o
}

// Send is ch <- v.
func Send[T any](ch chan<- T) func(T) {
	return func(v T) {
		if dying() {
			select {
			case ch <- v:
				wakeChan(chanKey(ch))
			default:
			}
			return
		}
		if !mine() {
			ch <- v
			return
		}
		Y(0)
		key := chanKey(ch)
		var o *offer
		for {
			if sendNow(ch, v, nil) {
				if o != nil {
					withdraw(o)
				}
				Y(0)
				return
			}
			if ch != nil && cap(ch) == 0 && o == nil {
				o = holdOut(key, false, v, nil)
			}
			ok := blockOn(key)
			if o != nil && o.accepted() {
				RaceAcquire(unsafe.Pointer(&o.hb))
				return
			}
			if !ok {
				return
			}
		}
	}
}

// realTimer says whether a channel is that of a timer which is not simulated.
func realTimer[T any](ch <-chan T) bool {
	var v T
	_, timer := any(v).(time.Time)
	return timer && cap(ch) > 0 && !owned(chanKey(ch))
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (v T, ok bool) {
	if realTimer(ch) || !mine() {
		if dying() {
			select {
			case v, ok = <-ch:
				wakeChan(chanKey(ch))
			default:
			}
			return v, ok
		}
		v, ok = <-ch
		return v, ok
	}
	Y(0)
	key := chanKey(ch)
	var o *offer
	for {
		if v, ok, done := recvNow(ch, nil); done {
			if o != nil {
				withdraw(o)
			}
			Y(0)
			return v, ok
		}
		if ch != nil && cap(ch) == 0 && o == nil {
			o = holdOut(key, true, nil, nil)
		}
		ok = blockOn(key)
		if o != nil && o.accepted() {
			RaceAcquire(unsafe.Pointer(&o.hb))
			v, _ = o.get().(T)
			return v, true
		}
		if !ok {
			return v, false
		}
	}
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	close(ch)
	if mine() || dying() {
		wakeChan(chanKey(ch))
		Y(0)
	}
}

// Case is a communication of a select statement.
type Case interface {
	now(set *offers) bool   // carries it out if that needs no waiting
	out(set *offers) *offer // holds it out to the other side
	end(o *offer)           // it was accepted
	value() reflect.SelectCase
	done(v reflect.Value, ok bool)
}

// RecvCase is case V, OK = <-ch.
type RecvCase[T any] struct {
	ch <-chan T
	V  T
	OK bool
}

// SendCase is case ch <- v.
type SendCase[T any] struct {
	ch chan<- T
	v  T
}

// NewRecv makes the case of a select statement that receives.
func NewRecv[T any](ch <-chan T) *RecvCase[T] { return &RecvCase[T]{ch: ch} }

// NewSend makes the case of a select statement that sends.
func NewSend[T any](ch chan<- T) func(v T) *SendCase[T] {
	return func(v T) *SendCase[T] { return &SendCase[T]{ch, v} }
}

func (c *RecvCase[T]) now(set *offers) (done bool) {
	if c.ch == nil {
		return false
	}
	c.V, c.OK, done = recvNow(c.ch, set)
	return done
}

func (c *RecvCase[T]) out(set *offers) *offer {
	if c.ch == nil || cap(c.ch) > 0 {
		return nil
	}
	return holdOut(chanKey(c.ch), true, nil, set)
}

func (c *RecvCase[T]) end(o *offer) {
	RaceAcquire(unsafe.Pointer(&o.hb))
	c.V, _ = o.get().(T)
	c.OK = true
}

func (c *RecvCase[T]) value() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(c.ch)}
}

func (c *RecvCase[T]) done(v reflect.Value, ok bool) {
	c.OK = ok
	if ok {
		c.V, _ = v.Interface().(T)
	}
}

func (c *SendCase[T]) now(set *offers) bool { return c.ch != nil && sendNow(c.ch, c.v, set) }

func (c *SendCase[T]) out(set *offers) *offer {
	if c.ch == nil || cap(c.ch) > 0 {
		return nil
	}
	return holdOut(chanKey(c.ch), false, c.v, set)
}

func (c *SendCase[T]) end(o *offer) { RaceAcquire(unsafe.Pointer(&o.hb)) }

func (c *SendCase[T]) value() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(c.ch), Send: reflect.ValueOf(&c.v).Elem()}
}

func (c *SendCase[T]) done(reflect.Value, bool) {}

//go:norace
func (s *offers) happened() *offer { return s.done }

// Select is a select statement: it gives the number of the case that happened, or -1 for the default case.
func Select(def bool, cases ...Case) int {
	if !mine() && !dying() {
		list := make([]reflect.SelectCase, 0, len(cases)+1)
		for _, c := range cases {
			list = append(list, c.value())
		}
		if def {
			list = append(list, reflect.SelectCase{Dir: reflect.SelectDefault})
		}
		i, v, ok := reflect.Select(list)
		if i == len(cases) {
			return -1
		}
		cases[i].done(v, ok)
		return i
	}
	last := dying()
	if !last {
		Y(0)
	}
	set := &offers{}
	var outs []*offer
	for {
		if n := len(cases); n > 0 {
			from := int(PoolChoice() % uint64(n))
			for k := range cases {
				i := (from + k) % n
				if cases[i].now(set) {
					for _, o := range outs {
						if o != nil {
							withdraw(o)
							break
						}
					}
					if !last {
						Y(0)
					}
					return i
				}
			}
		}
		if def {
			return -1
		}
		if last {
			return 0
		}
		if outs == nil {
			for _, c := range cases {
				outs = append(outs, c.out(set))
			}
		}
		ok := blockOn(anyChan)
		if o := set.happened(); o != nil {
			for i := range outs {
				if outs[i] == o {
					cases[i].end(o)
					return i
				}
			}
		}
		if !ok {
			return 0
		}
	}
}
