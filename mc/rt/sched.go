// Package rt stands in for the parts of the standard library through which
// the implementation meets its environment: map order, time, random numbers,
// the file system, locks and goroutines. The instrumented build (see
// cmd/instr) calls it; the explorer decides what it answers.
package rt

import (
	"runtime"
	"sync"
)

// Used keeps the import of every instrumented file used.
const Used = 0

// The scheduler lets one thread run at a time. All of its state is plain
// memory, accessed by functions the race detector does not look at, so that
// it adds no order between the threads and races stay visible.
const (
	maxThreads = 8
	maxSteps   = 1 << 14
	maxDevs    = 4
)

// Dev is a deviation from the default schedule: at a step, the thread to run.
type Dev struct{ Step, To int }

var sch struct {
	on      bool
	abort   bool
	turn    int
	n       int
	done    [maxThreads]bool
	blocked [maxThreads]bool
	on1     [maxThreads]*int // what a thread is blocked on
	devs    [maxDevs]Dev
	ndev    int
	step    int
	enabled [maxSteps]uint8 // threads able to run at a step
	forced  [maxSteps]bool  // the current thread was not able to run
	chosen  [maxSteps]uint8
	dead    bool
	over    bool
}

//go:norace
func (e *entry) runThread(id int) {
	wait(id)
	defer finish(id)
	if !sch.abort {
		e.f()
	}
}

type entry struct{ f func() }

// Schedule is what an execution looked like.
type Schedule struct {
	Steps    int
	Enabled  []uint8
	Forced   []bool
	Chosen   []uint8
	Deadlock bool
	Overrun  bool
}

// Execute runs the threads under a schedule: thread 0 first, every thread
// until it blocks or ends, except for the deviations.
func Execute(devs []Dev, threads []func()) *Schedule {
	reset(devs, len(threads))
	var wg sync.WaitGroup
	for i, f := range threads {
		wg.Add(1)
		i, f := i, f
		e := &entry{f: f}
		go func() {
			defer wg.Done()
			e.runThread(i)
		}()
	}
	start()
	wg.Wait()
	for !allDone() {
		runtime.Gosched()
	}
	return result()
}

//go:norace
func allDone() bool {
	for i := 0; i < sch.n; i++ {
		if !sch.done[i] {
			return false
		}
	}
	return true
}

//go:norace
func reset(devs []Dev, n int) {
	sch.on, sch.abort, sch.turn, sch.n, sch.step, sch.dead, sch.over = false, false, -1, n, 0, false, false
	for i := range sch.done {
		sch.done[i], sch.blocked[i], sch.on1[i] = false, false, nil
	}
	sch.ndev = 0
	for _, d := range devs {
		sch.devs[sch.ndev] = d
		sch.ndev++
	}
}

//go:norace
func start() {
	sch.on = true
	sch.turn = -1
	point(-1)
}

//go:norace
func result() *Schedule {
	sch.on = false
	n := sch.step
	r := &Schedule{Steps: n, Enabled: make([]uint8, n), Forced: make([]bool, n), Chosen: make([]uint8, n), Deadlock: sch.dead, Overrun: sch.over}
	for i := 0; i < n; i++ {
		r.Enabled[i], r.Forced[i], r.Chosen[i] = sch.enabled[i], sch.forced[i], sch.chosen[i]
	}
	return r
}

//go:norace
func wait(id int) {
	for sch.turn != id && !sch.abort {
		runtime.Gosched()
	}
}

// point lets the schedule choose the thread to run next; me is the current
// one, or -1.
//
//go:norace
func point(me int) {
	var en uint8
	first := -1
	for i := 0; i < sch.n; i++ {
		if !sch.done[i] && !sch.blocked[i] {
			en |= 1 << uint(i)
			if first < 0 {
				first = i
			}
		}
	}
	if en == 0 {
		for i := 0; i < sch.n; i++ {
			if !sch.done[i] {
				sch.dead = true
				sch.abort = true
			}
		}
		sch.turn = -2
		return
	}
	next := first
	forced := me < 0 || en&(1<<uint(me)) == 0
	if !forced {
		next = me
	}
	if sch.step >= maxSteps {
		sch.over = true
		sch.abort = true
		return
	}
	for i := 0; i < sch.ndev; i++ {
		if d := sch.devs[i]; d.Step == sch.step && en&(1<<uint(d.To)) != 0 {
			next = d.To
		}
	}
	sch.enabled[sch.step], sch.forced[sch.step], sch.chosen[sch.step] = en, forced, uint8(next)
	sch.step++
	sch.turn = next
}

//go:norace
func finish(id int) {
	sch.done[id] = true
	if !sch.abort {
		point(id)
	}
}

// Yield is a point at which another thread may run.
//
//go:norace
func Yield() {
	if !sch.on {
		return
	}
	me := sch.turn
	if me < 0 {
		return
	}
	point(me)
	rest(me)
}

//go:norace
func rest(me int) {
	wait(me)
	if sch.abort {
		runtime.Goexit()
	}
}

// block waits until another thread wakes those blocked on what.
//
//go:norace
func block(what *int) {
	me := sch.turn
	sch.blocked[me], sch.on1[me] = true, what
	point(me)
	rest(me)
}

//go:norace
func wake(what *int) {
	for i := 0; i < sch.n; i++ {
		if sch.blocked[i] && sch.on1[i] == what {
			sch.blocked[i], sch.on1[i] = false, nil
		}
	}
}

//go:norace
func running() bool { return sch.on && !sch.abort && sch.turn >= 0 }

// Go starts a goroutine.
//
//go:norace
func Go(f func()) {
	if !running() || sch.n >= maxThreads {
		go f()
		return
	}
	id := sch.n
	sch.n++
	e := &entry{f: f}
	go e.runThread(id)
	Yield()
}

// Sync_Mutex stands in for sync.Mutex.
type Sync_Mutex struct {
	mu   sync.Mutex
	held int
}

//go:norace
func (m *Sync_Mutex) Lock() {
	if running() {
		Yield()
		for m.held != 0 {
			block(&m.held)
		}
		m.held = 1
	}
	m.mu.Lock()
}

//go:norace
func (m *Sync_Mutex) TryLock() bool {
	if running() {
		Yield()
		if m.held != 0 {
			return false
		}
		m.held = 1
	}
	return m.mu.TryLock()
}

//go:norace
func (m *Sync_Mutex) Unlock() {
	m.mu.Unlock()
	m.held = 0
	if running() {
		wake(&m.held)
		Yield()
	}
}

// Sync_RWMutex stands in for sync.RWMutex.
type Sync_RWMutex struct {
	mu   sync.RWMutex
	held int // -1 by a writer, or the number of readers
}

//go:norace
func (m *Sync_RWMutex) Lock() {
	if running() {
		Yield()
		for m.held != 0 {
			block(&m.held)
		}
		m.held = -1
	}
	m.mu.Lock()
}

//go:norace
func (m *Sync_RWMutex) Unlock() {
	m.mu.Unlock()
	m.held = 0
	if running() {
		wake(&m.held)
		Yield()
	}
}

//go:norace
func (m *Sync_RWMutex) RLock() {
	if running() {
		Yield()
		for m.held < 0 {
			block(&m.held)
		}
		m.held++
	}
	m.mu.RLock()
}

//go:norace
func (m *Sync_RWMutex) RUnlock() {
	m.mu.RUnlock()
	if running() || m.held > 0 {
		m.held--
		if m.held < 0 {
			m.held = 0
		}
	}
	if running() {
		wake(&m.held)
		Yield()
	}
}

// RLocker is sync.RWMutex's.
func (m *Sync_RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker Sync_RWMutex

func (r *rlocker) Lock()   { (*Sync_RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*Sync_RWMutex)(r).RUnlock() }

// Sync_Once stands in for sync.Once.
type Sync_Once struct {
	m    Sync_Mutex
	done bool
}

// Do is sync.Once's.
func (o *Sync_Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// Sync_WaitGroup stands in for sync.WaitGroup.
type Sync_WaitGroup struct {
	wg sync.WaitGroup
	n  int
}

//go:norace
func (w *Sync_WaitGroup) Add(n int) {
	w.n += n
	w.wg.Add(n)
	if w.n == 0 && running() {
		wake(&w.n)
	}
}

//go:norace
func (w *Sync_WaitGroup) Done() {
	w.Add(-1)
	Yield()
}

//go:norace
func (w *Sync_WaitGroup) Wait() {
	if running() {
		Yield()
		for w.n != 0 {
			block(&w.n)
		}
	}
	w.wg.Wait()
}
