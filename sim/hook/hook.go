// Package hook is the scheduler of the simulation.
//
// Caller threads are goroutines of which exactly one runs at a time. The running one calls Y between any
// two statements of the code under test (the build inserts those calls), and there, and nowhere else,
// the scheduler may hand over to another thread. Every choice comes from one seeded generator, or from a
// recorded list of switches.
//
// Functions that touch scheduler state are marked norace and use no maps, appends or copies: the state is
// serialised by the hand-over, and the hand-over itself is hidden from the race detector so that it orders
// nothing between the threads it serialises.
package hook

import (
	"runtime"
	"time"
)

// Thread states.
const (
	ready = iota
	blocked
	stalled
	done
)

// Strategies of the scheduler.
const (
	Serial = iota // no preemption: a thread runs until it ends, blocks or stalls
	Random        // at every yield, with probability P/65536, any ready thread
	PCT           // random priorities, with a few priority changes
	OpOnly        // at operation boundaries only, with probability P/65536
	Focus         // a switch whenever one of the focus points is reached, and rarely elsewhere
	Replay        // the recorded switches
	nStrategies
)

// Switch records that thread T, at the N-th yield of its operation Op (or at its end, N = -1), handed over
// to thread To. P is the point in the code, for the reader.
type Switch struct {
	T  int   `json:"t"`
	Op int   `json:"op"`
	N  int   `json:"n"`
	To int   `json:"to"`
	P  int32 `json:"p,omitempty"`
}

const maxSwitches = 1 << 14

// A thread that has not handed over for this many yields, or asks for the others to run this often, does so
// in any strategy: it may be waiting for one of them in a loop.
const (
	patience = 50000
	spinning = 16
	lowest   = 1 << 32 // priorities below this one are those of threads that have waited in a loop
)

// Goroutines that the code under test starts are threads too. At most maxThreads take part in a run; those
// that still wait for something when every caller is done stay for the next run, up to maxLeft.
const (
	maxThreads = 96
	maxLeft    = 32
)

// firstKey separates the keys of locks (addresses) from those with which the harness itself waits: there, a
// caller waits for something that another caller has yet to make, which is nobody's fault.
const firstKey = 1 << 16

// Cfg configures a run.
type Cfg struct {
	MapSeed  uint64
	Seed     uint64
	PoolSeed uint64
	Strategy int
	P        uint32
	Changes  []int
	Focus    []int32
	Sync     bool // Random and PCT switch at operations of synchronisation only
	Switches []Switch
	StepCap  int
}

type thread struct {
	id      int
	wake    chan struct{}
	state   int
	steps   int
	prio    uint64
	key     uintptr
	kill    bool
	exiting bool
	cursor  int // into cfg.Switches, under Replay
	op      int
	stalls  int
	polls   int
	onChan  bool // blocked, for a channel
	tried   int  // the step at which it tried again
	body    func(id int)
	goid    uint64
	run     int  // yields since it was handed control
	spins   int  // of these, those at which it asked for others to run
	lib     bool // started by the code under test
	owner   int  // the caller on whose behalf it was started, or -1
}

// Result of a run.
type Result struct {
	Steps       int
	Switches    []Switch
	Hash        uint64 // of the sequence of (thread, point) at which control changed hands
	Deadlock    bool   // every thread left was blocked
	BehindStall bool   // threads were blocked, with nobody but a stalled caller left to release them
	Overrun     bool   // the step cap was reached
	DeadOps     []int  // operations in progress in the threads that were blocked, or over-ran
	PoolCalls   uint64
	Blocks      int
}

type sim struct {
	cfg      Cfg
	rng      uint64
	threads  []*thread // a part of all
	all      [maxThreads]*thread
	cur      *thread
	step     int
	sw       *[maxSwitches]Switch
	nsw      int
	hash     uint64
	deadlock bool
	behind   bool
	overrun  bool
	dead     [16]int
	ndead    int
	change   int
	demoted  uint64
	syncs    int // operations of synchronisation so far
	pool     uint64
	blocks   int
	day      int64 // the clock at the start, and by how much a step moves it
	pace     int64
	alive    int // callers
	libs     int // goroutines of the code under test
	base     int // goroutines at the start
	ended    int
	fin      chan struct{}
	over     chan struct{}
}

var active *sim
var left [maxLeft]*thread
var nleft int
var epoch uint64
var arena [maxSwitches]Switch // reused between runs

// Points counts how often each yield point was reached, when it is not nil.
var Points []uint32

func mix(a, b uint64) uint64 {
	x := a*0x9e3779b97f4a7c15 + b + 0x632be59bd9b4e019
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return x
}

// Mix hashes two numbers.
func Mix(a, b uint64) uint64 { return mix(a, b) }

//go:norace
func (s *sim) rand() uint64 {
	s.rng = mix(s.rng, 0x1234567)
	return s.rng
}

// Epoch changes with every run; simulated pools lose their content when it does.
//
//go:norace
func Epoch() uint64 { return epoch }

// NewEpoch starts a new epoch.
func NewEpoch() { epoch++ }

// Active says whether a run is in progress.
//
//go:norace
func Active() bool { return active != nil }

// Current is the number of the caller that is running, or on whose behalf a goroutine is, or -1.
//
//go:norace
func Current() int {
	if active == nil || active.cur == nil {
		return -1
	}
	return active.cur.owner
}

// Step is the number of yields so far.
//
//go:norace
func Step() int {
	if active == nil {
		return 0
	}
	return active.step
}

// Run executes the bodies as threads of one simulation.
func Run(cfg Cfg, bodies []func(id int)) Result {
	if active != nil {
		panic("sim: nested run")
	}
	sweep()
	s := &sim{sw: &arena}
	s.cfg = cfg
	s.rng = mix(cfg.Seed, 77)
	s.alive = len(bodies)
	s.fin = make(chan struct{}, len(bodies))
	s.over = make(chan struct{}, 1)
	for i, b := range bodies {
		t := &thread{id: i, owner: i, wake: make(chan struct{}, 1), body: b, state: ready, op: -1}
		t.prio = s.rand()
		s.all[i] = t
	}
	s.threads = s.all[:len(bodies)]
	s.adopt()
	dropOffers(s)
	active = s
	s.day = clockFor(cfg.MapSeed, 0)
	s.pace = clockFor(cfg.MapSeed, 1) - s.day
	runtime.SimMapSeed(seedFor(cfg.MapSeed, 0), s.day)
	for _, t := range s.all[:len(bodies)] {
		go t.main()
	}
	s.base = runtime.NumGoroutine()
	first := s.pick(nil)
	if cfg.Strategy == Replay {
		for _, w := range cfg.Switches {
			if w.T == -1 && w.To < len(s.threads) {
				first = s.threads[w.To]
			}
		}
	}
	s.cur = first
	s.sw[0] = Switch{T: -1, To: first.id}
	s.nsw = 1
	raceDisable()
	first.wake <- struct{}{}
	raceEnable()
	for range bodies {
		<-s.fin
	}
	<-s.over
	s.leave()
	active = nil
	runtime.SimMapSeed(0, 0)
	res := Result{
		Steps: s.step, Hash: s.hash, Deadlock: s.deadlock, BehindStall: s.behind, Overrun: s.overrun,
		PoolCalls: s.pool, Blocks: s.blocks,
	}
	res.Switches = append(res.Switches, s.sw[:s.nsw]...)
	res.DeadOps = append(res.DeadOps, s.dead[:s.ndead]...)
	return res
}

func seedFor(seed uint64, step int) uint64 {
	if seed == 0 {
		return 0
	}
	return mix(seed, uint64(step)) | 1<<60
}

// clockFor is the simulated time of day, in nanoseconds: some day between 1996 and 2028, then on by some
// milliseconds with every step.
func clockFor(seed uint64, step int) int64 {
	if seed == 0 {
		return 0
	}
	return 820454400e9 + int64(mix(seed, 11)%1000000)*1e12 + int64(mix(seed, 12)%5000000)*int64(step)
}

// adopt takes the goroutines that earlier runs left waiting into this one.
//
//go:norace
func (s *sim) adopt() {
	for i := 0; i < nleft; i++ {
		t := left[i]
		t.id = len(s.threads)
		t.prio = s.rand()
		t.op = -1
		t.steps = 0
		t.cursor = 0
		t.owner = -1
		s.all[t.id] = t
		s.threads = s.all[:t.id+1]
		s.libs++
	}
	nleft = 0
}

//go:norace
func (s *sim) leave() {
	for _, t := range s.threads {
		if t.lib && t.state != done && nleft < maxLeft {
			left[nleft] = t
			nleft++
		}
	}
}

// Go is the go statement.
func Go(f func()) {
	if !mine() {
		go f()
		return
	}
	t := &thread{wake: make(chan struct{}, 1), body: func(int) { f() }, lib: true}
	if !spawn(t) {
		go f()
		return
	}
	go t.main()
	Y(0)
}

// Sub runs f in a goroutine of its own, as the thread that calls it, which waits until the goroutine has ended.
func Sub(f func()) {
	end := make(chan struct{})
	if !mine() {
		go func() {
			defer close(end)
			f()
		}()
		<-end
		return
	}
	t, was := lend()
	go func() {
		defer close(end)
		defer giveBack(t, was)
		take(t)
		f()
	}()
	<-end
	if killed(t) {
		runtime.Goexit()
	}
}

//go:norace
func lend() (*thread, uint64) {
	active.ended--
	return active.cur, active.cur.goid
}

//go:norace
func take(t *thread) { t.goid = runtime.SimGoid() }

//go:norace
func giveBack(t *thread, goid uint64) {
	t.goid = goid
	active.ended++
}

//go:norace
func killed(t *thread) bool { return t.kill && t.exiting }

//go:norace
func spawn(t *thread) bool {
	s := active
	n := len(s.threads)
	if n == maxThreads {
		// The place of one that has ended, whose count of steps goes on.
		for n = 0; n < maxThreads && !(s.all[n].lib && s.all[n].state == done); n++ {
		}
		if n == maxThreads {
			return false
		}
		t.steps, t.cursor = s.all[n].steps, s.all[n].cursor
	}
	t.id = n
	t.owner = s.cur.owner
	t.op = s.cur.op
	t.prio = s.rand()
	t.state = ready
	s.all[n] = t
	if n == len(s.threads) {
		s.threads = s.all[:n+1]
	}
	s.libs++
	s.ended--
	return true
}

func (t *thread) main() {
	raceDisable()
	<-t.wake
	raceEnable()
	t.goid = runtime.SimGoid()
	defer end(t)
	if t.kill {
		return
	}
	t.body(t.id)
}

//go:norace
func end(t *thread) {
	s := active
	t.state = done
	t.exiting = true
	s.ended++
	if t.lib {
		s.libs--
	} else {
		s.alive--
	}
	for _, u := range s.threads {
		if u.state == blocked && u.key < firstKey {
			u.state = ready
		}
	}
	if next := s.forced(t, -1, 0); next != nil {
		s.cur = next
		raceDisable()
		next.wake <- struct{}{}
		raceEnable()
	} else {
		s.finish()
	}
	if !t.lib {
		s.fin <- struct{}{}
	}
}

// finish ends the run: every caller is done, and the goroutines of the code under test wait.
//
//go:norace
func (s *sim) finish() {
	s.cur = nil
	raceDisable()
	s.over <- struct{}{}
	raceEnable()
}

// pick chooses a ready thread other than not, or nil.
//
//go:norace
func (s *sim) pick(not *thread) *thread {
	n := 0
	var best *thread
	for _, t := range s.threads {
		if t.state != ready || t == not {
			continue
		}
		n++
		switch s.cfg.Strategy {
		case PCT:
			if best == nil || t.prio > best.prio {
				best = t
			}
		case Replay:
			if best == nil {
				best = t
			}
		default:
			if best == nil || s.rand()%uint64(n) == 0 {
				best = t
			}
		}
	}
	return best
}

// forced chooses who runs when t cannot go on, or nil when the run is over.
//
//go:norace
func (s *sim) forced(t *thread, n int, p int32) *thread {
	var next *thread
	if s.cfg.Strategy == Replay {
		next = s.replayed(t, n)
	}
	if next == nil {
		next = s.pick(t)
	}
	if next == nil && n >= 0 && runtime.NumGoroutine() > s.base-s.ended {
		// There are goroutines that the simulator does not schedule: let them go.
		for i := 0; i < 1000 && next == nil; i++ {
			runtime.Gosched()
			next = s.pick(nil)
		}
	}
	if next == nil && s.alive > 0 {
		// Channels may have been closed where the simulator does not see it: by a context, say.
		for _, u := range s.threads {
			if u.state == blocked && u.onChan && u.tried != s.step {
				u.tried, u.state = s.step, ready
				next = u
				break
			}
		}
	}
	if next == nil {
		// Nobody is ready. A stalled caller comes back now; were others waiting for it?
		behind := false
		for _, u := range s.threads {
			if u.waits() && !s.stalledFor(u.owner) {
				behind = true
			}
		}
		for _, u := range s.threads {
			if u.state == stalled {
				if behind {
					s.behind = true
					s.noteDead()
				}
				u.state = ready
				next = u
				break
			}
		}
	}
	if next == nil && s.alive > 0 {
		// Deadlock: end the blocked callers one by one.
		s.deadlock = true
		s.noteDead()
		for _, u := range s.threads {
			if u.state == blocked && !u.lib {
				u.kill = true
				u.state = ready
				if next == nil {
					next = u
				}
			}
		}
	}
	if next != nil {
		s.record(t, n, next, p)
	}
	return next
}

// waits says that a caller waits inside of the code under test.
//
//go:norace
func (t *thread) waits() bool { return t.state == blocked && t.key >= firstKey && !t.lib }

// stalledFor says whether what is stalled belongs to the caller itself.
//
//go:norace
func (s *sim) stalledFor(owner int) bool {
	for _, u := range s.threads {
		if u.state == stalled && u.owner == owner {
			return true
		}
	}
	return false
}

//go:norace
func (s *sim) noteDead() {
	if s.ndead > 0 {
		return
	}
	for _, u := range s.threads {
		if u.waits() && s.ndead < len(s.dead) {
			s.dead[s.ndead] = u.op
			s.ndead++
		}
	}
}

//go:norace
func (s *sim) replayed(t *thread, n int) *thread {
	if n < 0 {
		for i := range s.cfg.Switches {
			w := &s.cfg.Switches[i]
			if w.T == t.id && w.N == -1 {
				if w.To < len(s.threads) && s.threads[w.To].state == ready && s.threads[w.To] != t {
					return s.threads[w.To]
				}
			}
		}
		return nil
	}
	for t.cursor < len(s.cfg.Switches) {
		w := &s.cfg.Switches[t.cursor]
		if w.T != t.id || w.N == -1 || w.Op < t.op || w.Op == t.op && w.N < n {
			t.cursor++
			continue
		}
		if w.Op > t.op || w.N > n {
			return nil
		}
		t.cursor++
		if w.To < len(s.threads) && s.threads[w.To].state == ready && s.threads[w.To] != t {
			return s.threads[w.To]
		}
		return nil
	}
	return nil
}

//go:norace
func (s *sim) record(t *thread, n int, to *thread, p int32) {
	if s.nsw < maxSwitches {
		s.sw[s.nsw] = Switch{t.id, t.op, n, to.id, p}
		s.nsw++
	}
}

//go:norace
func (s *sim) handover(t, next *thread) {
	if next == t {
		return
	}
	s.cur = next
	next.run, next.spins = 0, 0
	raceDisable()
	next.wake <- struct{}{}
	<-t.wake
	raceEnable()
	if t.kill && !t.exiting {
		t.exiting = true
		runtime.Goexit()
	}
}

// Y is the yield that stands before every statement of the code under test.
//
//go:norace
func Y(id int32) { yield(id, false) }

// Pause is a yield in the code of the caller.
//
//go:norace
func Pause() { yield(-1, false) }

// Gosched is runtime.Gosched: the caller waits for something that another goroutine has to do.
func Gosched() {
	if !mine() {
		runtime.Gosched()
		return
	}
	yield(0, true)
}

// Sleep is time.Sleep.
func Sleep(d time.Duration) {
	if !mine() {
		time.Sleep(d)
		return
	}
	for i := 0; i < 4; i++ {
		yield(0, true)
	}
}

//go:norace
func yield(id int32, spin bool) {
	s := active
	if s == nil {
		return
	}
	t := s.cur
	if t == nil || t.exiting || t.goid != runtime.SimGoid() {
		return
	}
	s.step++
	t.steps++
	sync := id == 0
	if id < 0 {
		id = 0
	} else if Points != nil && int(id) < len(Points) {
		Points[id]++
	}
	if s.cfg.MapSeed != 0 {
		runtime.SimMapSeed(mix(s.cfg.MapSeed, uint64(s.step))|1<<60, s.day+s.pace*int64(s.step))
	} else {
		runtime.SimMapSeed(0, 0)
	}
	if s.due(s.step, 2048) {
		collect(s)
	}
	if s.step > s.cfg.StepCap {
		if !s.overrun {
			s.overrun = true
			s.dead[0] = t.op
			s.ndead = 1
		}
		for _, u := range s.threads {
			u.kill = true
			if u.state == blocked || u.state == stalled {
				u.state = ready
			}
		}
		t.exiting = true
		runtime.Goexit()
	}
	if s.alive+s.libs < 2 {
		return
	}
	var next *thread
	switch s.cfg.Strategy {
	case Random:
		if (sync || !s.cfg.Sync) && uint32(s.rand()&0xffff) < s.cfg.P {
			next = s.pick(t)
		}
	case PCT:
		at := s.step
		if s.cfg.Sync {
			if sync {
				s.syncs++
			}
			at = s.syncs
		}
		if s.change < len(s.cfg.Changes) && at >= s.cfg.Changes[s.change] {
			s.change++
			t.prio = lowest + uint64(len(s.cfg.Changes)-s.change)
		}
		if c := s.pick(t); c != nil && c.prio > t.prio {
			next = c
		}
	case Focus:
		hit := false
		for _, f := range s.cfg.Focus {
			if f == id {
				hit = true
			}
		}
		if hit || uint32(s.rand()&0xffff) < s.cfg.P {
			next = s.pick(t)
		}
	case Replay:
		next = s.replayed(t, t.steps)
	}
	t.run++
	if spin {
		t.spins++
	}
	if next == nil && (t.run > patience || spin && (t.spins > spinning || s.cfg.Strategy != Replay)) {
		next = s.pick(t)
		if s.cfg.Strategy == PCT && next != nil {
			s.demoted++
			t.prio = lowest - s.demoted
		}
	}
	if next == nil {
		return
	}
	s.hash = mix(s.hash, uint64(t.id)<<40|uint64(uint32(id))<<8|uint64(next.id))
	s.record(t, t.steps, next, id)
	s.handover(t, next)
}

// Op marks an operation boundary of the running thread.
//
//go:norace
func Op(op int) {
	s := active
	if s == nil {
		return
	}
	t := s.cur
	if t == nil || t.exiting {
		return
	}
	t.op = op
	t.steps = 0
	if s.due(-1-op, 3) {
		collect(s)
	}
	if s.cfg.Strategy == OpOnly {
		if s.alive+s.libs > 1 && uint32(s.rand()&0xffff) < s.cfg.P {
			if next := s.pick(t); next != nil {
				s.hash = mix(s.hash, uint64(t.id)<<40|uint64(op+1)<<8|uint64(next.id))
				s.record(t, t.steps, next, 0)
				s.handover(t, next)
			}
		}
		return
	}
	if s.cfg.Strategy == Replay {
		if next := s.replayed(t, t.steps); next != nil {
			s.record(t, t.steps, next, 0)
			s.handover(t, next)
		}
	}
}

// Block parks the running thread until somebody calls Wake with the same key. It reports false when the
// thread must not wait any more (it is being ended).
//
//go:norace
func Block(key uintptr) bool {
	s := active
	if s == nil || s.cur == nil {
		panic("sim: a lock is taken outside of a run and never released")
	}
	t := s.cur
	if t.goid != runtime.SimGoid() {
		runtime.Gosched() // a goroutine of the code under test
		return true
	}
	if t.exiting {
		return false
	}
	s.blocks++
	t.state = blocked
	t.key = key
	t.steps++
	next := s.forced(t, t.steps, 0)
	if next == t && !t.kill {
		return true
	}
	if next == nil {
		s.finish()
		raceDisable()
		<-t.wake
		raceEnable()
		if t.kill {
			t.exiting = true
			runtime.Goexit()
		}
		return true
	}
	if next == t {
		// only this thread was left: deadlock
		t.exiting = true
		runtime.Goexit()
	}
	s.hash = mix(s.hash, uint64(t.id)<<40|0xb10c<<8|uint64(next.id))
	s.handover(t, next)
	return true
}

// Wake makes the threads blocked on key ready again.
//
//go:norace
func Wake(key uintptr) {
	s := active
	if s == nil {
		return
	}
	for _, t := range s.threads {
		if t.state == blocked && t.key == key {
			t.state = ready
		}
	}
}

// Stall suspends the running thread until no other thread can run.
//
//go:norace
func Stall() {
	s := active
	if s == nil || s.cur == nil || s.cur.exiting {
		return
	}
	t := s.cur
	t.state = stalled
	t.stalls++
	t.steps++
	next := s.forced(t, t.steps, 0)
	if next == t || next == nil {
		t.state = ready
		return
	}
	s.hash = mix(s.hash, uint64(t.id)<<40|0x57a1<<8|uint64(next.id))
	s.handover(t, next)
}

// ThreadDone says whether thread id has ended.
//
//go:norace
func ThreadDone(id int) bool {
	s := active
	return s == nil || id >= len(s.threads) || s.threads[id].state == done
}

// Exiting says whether the running thread is being ended.
//
//go:norace
func Exiting() bool {
	return active != nil && active.cur != nil && active.cur.exiting
}

// PoolChoice is the next decision about a simulated pool.
//
//go:norace
func PoolChoice() uint64 {
	s := active
	if s == nil {
		return 0
	}
	s.pool++
	return mix(s.cfg.PoolSeed, s.pool)
}

// NewAddrs starts an execution in which addresses look as the key decides; 0 ends it.
func NewAddrs(key uint64) { runtime.SimAddrs(key) }

// Addr is what a number looks like that was made of an address.
func Addr[T any](v T) T {
	if u, ok := any(v).(uintptr); ok {
		if w, ok := any(runtime.SimAddr(u)).(T); ok {
			return w
		}
	}
	return v
}
