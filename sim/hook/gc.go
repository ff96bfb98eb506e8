package hook

import (
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"unsafe"
)

// What the collector does with objects that the code under test watches (finalizers, cleanups, weak pointers)
// happens at moments that the seed decides, and the functions that it has to run are run by a thread of the
// simulation.

// Collects is set once the code under test depends on the collector, which then runs only when it is told to.
var Collects bool

type gone struct {
	seq int
	f   func()
}

var (
	watched   int
	queue     [4096]gone // what the collector found, since the last look
	nqueue    int
	collected int // collections in this run
)

// Watch says that the code under test depends on the collector.
//
//go:norace
func Watch() bool {
	if !Collects {
		Collects = true
		debug.SetGCPercent(-1)
	}
	return true
}

// found is called by the goroutine of the runtime that runs finalizers.
//
//go:norace
func found(seq int, f func()) {
	if nqueue < len(queue) {
		queue[nqueue] = gone{seq, f}
		nqueue++
	}
}

//go:norace
func number() int {
	watched++
	return watched
}

// SetFinalizer is runtime.SetFinalizer.
func SetFinalizer(obj, finalizer any) {
	Watch()
	if finalizer == nil {
		runtime.SetFinalizer(obj, nil)
		return
	}
	seq, f := number(), reflect.ValueOf(finalizer)
	if f.Kind() != reflect.Func {
		runtime.SetFinalizer(obj, finalizer) // which complains
		return
	}
	out := make([]reflect.Value, f.Type().NumOut())
	for i := range out {
		out[i] = reflect.Zero(f.Type().Out(i))
	}
	runtime.SetFinalizer(obj, reflect.MakeFunc(f.Type(), func(args []reflect.Value) []reflect.Value {
		RaceReleaseMerge(unsafe.Pointer(&nqueue))
		found(seq, func() { f.Call(args) })
		return out
	}).Interface())
}

// Cleanup is runtime.Cleanup.
type Cleanup struct{ real runtime.Cleanup }

// Stop is Cleanup.Stop.
func (c Cleanup) Stop() { c.real.Stop() }

// AddCleanup is runtime.AddCleanup.
func AddCleanup[T, S any](ptr *T, cleanup func(S), arg S) Cleanup {
	Watch()
	seq := number()
	return Cleanup{runtime.AddCleanup(ptr, func(arg S) {
		RaceReleaseMerge(unsafe.Pointer(&nqueue))
		found(seq, func() { cleanup(arg) })
	}, arg)}
}

// GC is runtime.GC.
func GC() {
	if !mine() {
		runtime.GC()
		return
	}
	collect(active)
	Y(0)
}

// due decides whether the collector runs at this step.
//
//go:norace
func (s *sim) due(n, rate int) bool {
	return Collects && collected < 24 && mix(s.cfg.PoolSeed^0x6763, uint64(n))%uint64(rate) == 0
}

// collect runs the collector, and starts a thread for what it found.
//
//go:norace
func collect(s *sim) {
	collected++
	work := drain()
	if len(work) == 0 {
		return
	}
	t := &thread{wake: make(chan struct{}, 1), lib: true}
	t.body = func(int) {
		RaceAcquire(unsafe.Pointer(&nqueue))
		for _, g := range work {
			g.f()
		}
	}
	if !spawn(t) {
		return
	}
	t.owner = -1
	go t.main()
}

//go:norace
func drain() []gone {
	raceDisable()
	runtime.GC()
	runtime.SimDrain()
	raceEnable()
	work := append([]gone{}, queue[:nqueue]...)
	for i := range queue[:nqueue] {
		queue[i] = gone{}
	}
	nqueue = 0
	sort.Slice(work, func(i, j int) bool { return work[i].seq < work[j].seq })
	return work
}

// sweep runs the collector between two runs.
func sweep() {
	collected = 0
	if !Collects {
		return
	}
	debug.SetGCPercent(-1)
	work := drain()
	RaceAcquire(unsafe.Pointer(&nqueue))
	for _, g := range work {
		g.f()
	}
}

// ReadMemStats is runtime.ReadMemStats.
func ReadMemStats(m *runtime.MemStats) {
	if !mine() {
		runtime.ReadMemStats(m)
		return
	}
	n := PoolChoice()
	heap := uint64(1) << (16 + n%18)
	*m = runtime.MemStats{
		Alloc: heap, HeapAlloc: heap, HeapInuse: heap + heap/8, Sys: heap * 2, HeapSys: heap + heap/2, TotalAlloc: heap * 9,
		HeapObjects: heap / 64, Mallocs: heap / 8, Frees: heap/8 - heap/64, NumGC: uint32(n >> 32 % 1000), PauseTotalNs: n >> 40,
	}
}
