// Package verifsched is a cooperative scheduler. It is added to a build-time
// copy of gpeg (go build -overlay) in which a call of P precedes every
// statement and package sync is replaced by verifsched/sync. It exists only in
// those builds.
//
// Exactly one thread of an exploration runs at a time. Control is handed over
// by spinning on a plain variable in functions the race detector does not see,
// so a hand-over is not a happens-before edge: the detector judges the program
// under test by its own synchronization only, in each schedule explored.
package verifsched

import (
	"reflect"
	"runtime"
	gosync "sync"
)

const (
	MaxThreads = 16
	MaxSteps   = 1 << 20
)

const (
	sNone = iota
	sReady
	sBlocked
	sDone
)

// A Dev is a deviation from the default schedule: at step Step run Thread.
type Dev struct {
	Step, Thread int
}

type thread struct {
	state int32
	on    uintptr // what it is blocked on
	_     [40]byte
}

var (
	active  bool
	cur     int32
	nthr    int32
	threads [MaxThreads]thread
	steps   int
	devs    [64]Dev
	ndev    int
	devi    int
	bad     string
	dead    bool
	over    bool
	gran    int
	ncpu    int
	locs    *[MaxSteps]uint16
	// what could be chosen at each step: low 16 bits the ready threads, bit
	// 31 set if the running thread was not among them
	opts *[MaxSteps]uint32
	ran  *[MaxSteps]uint8
	wg   gosync.WaitGroup
	pan  [MaxThreads]interface{}
	id   uintptr
	off  [1 << 16]bool
)

type deadlock struct{}

//go:norace
func alloc() {
	if locs == nil {
		locs, opts, ran = new([MaxSteps]uint16), new([MaxSteps]uint32), new([MaxSteps]uint8)
	}
}

// Active reports whether the caller runs in an exploration.
//
//go:norace
func Active() bool { return active }

// P is called before every statement.
//
//go:norace
func P(loc int) {
	if !active || gran > 0 || off[loc] {
		return
	}
	point(loc)
}

// S is a scheduling point at a synchronization operation.
//
//go:norace
func S(loc int) {
	if active {
		point(loc)
	}
}

//go:norace
func ready() (m uint32) {
	for i := int32(0); i < nthr; i++ {
		if threads[i].state == sReady {
			m |= 1 << uint(i)
		}
	}
	return m
}

//go:norace
func point(loc int) {
	if dead {
		return
	}
	me := cur
	m := ready()
	if steps >= MaxSteps {
		over = true
	}
	if m&(1<<uint(me)) != 0 && (nthr == 1 || over) {
		return
	}
	next := me
	if m&(1<<uint(me)) == 0 {
		// blocked or done: the lowest other thread goes on
		m |= 1 << 31
		next = -1
		for i := int32(0); i < nthr; i++ {
			if m&(1<<uint(i)) != 0 {
				next = i
				break
			}
		}
	}
	if devi < ndev && devs[devi].Step == steps {
		t := int32(devs[devi].Thread)
		devi++
		if t < 0 || t >= nthr || m&(1<<uint(t)) == 0 {
			bad = "a replayed schedule chose a thread that was not ready"
		} else {
			next = t
		}
	}
	if next < 0 {
		// nobody can run
		for i := int32(0); i < nthr; i++ {
			if threads[i].state == sBlocked {
				dead = true
			}
		}
		if dead {
			// let them all unwind, one after the other
			for i := int32(0); i < nthr; i++ {
				if threads[i].state == sBlocked {
					threads[i].state = sReady
				}
			}
			for i := int32(0); i < nthr; i++ {
				if threads[i].state == sReady {
					next = i
					break
				}
			}
			cur = next
			if threads[me].state != sDone {
				wait(me)
			}
		}
		return
	}
	if !over {
		locs[steps] = uint16(loc)
		opts[steps] = m
		ran[steps] = uint8(next)
		steps++
	}
	if next != me {
		cur = next
		if threads[me].state != sDone {
			wait(me)
		}
	}
}

//go:norace
func wait(me int32) {
	for cur != me {
		runtime.Gosched()
	}
	if dead {
		panic(deadlock{})
	}
}

// Block suspends the calling thread until Wake(on).
//
//go:norace
func Block(on uintptr) {
	if dead {
		panic(deadlock{})
	}
	threads[cur].state = sBlocked
	threads[cur].on = on
	point(1)
}

// Wake makes the threads blocked on it ready.
//
//go:norace
func Wake(on uintptr) {
	for i := int32(0); i < nthr; i++ {
		if threads[i].state == sBlocked && threads[i].on == on {
			threads[i].state = sReady
		}
	}
}

// Wake1 makes one thread blocked on it ready.
//
//go:norace
func Wake1(on uintptr) {
	for i := int32(0); i < nthr; i++ {
		if threads[i].state == sBlocked && threads[i].on == on {
			threads[i].state = sReady
			return
		}
	}
}

//go:norace
func finish(me int32, r interface{}) {
	if _, ok := r.(deadlock); !ok {
		pan[me] = r
	}
	threads[me].state = sDone
	if dead {
		for i := int32(0); i < nthr; i++ {
			if threads[i].state == sReady {
				cur = i
				return
			}
		}
		cur = -1
		return
	}
	point(2)
	if cur == me {
		cur = -1
	}
}

//go:norace
func begin(me int32) {
	for cur != me {
		runtime.Gosched()
	}
}

//go:norace
func spawn(f func()) {
	me := nthr
	if me >= MaxThreads {
		panic("verifsched: too many threads")
	}
	threads[me].state = sReady
	pan[me] = nil
	nthr++
	wg.Add(1)
	go func() {
		defer wg.Done()
		defer func() {
			r := recover()
			finish(me, r)
		}()
		begin(me)
		if isDead() {
			panic(deadlock{})
		}
		f()
	}()
}

//go:norace
func isDead() bool { return dead }

// Go starts a goroutine: a go statement of the code under test.
func Go(f interface{}, args ...interface{}) {
	v := reflect.ValueOf(f)
	t := v.Type()
	var in []reflect.Value
	for i, a := range args {
		pt := t.In(min(i, t.NumIn()-1))
		if t.IsVariadic() && i >= t.NumIn()-1 {
			pt = pt.Elem()
		}
		if a == nil {
			in = append(in, reflect.Zero(pt))
		} else {
			in = append(in, reflect.ValueOf(a).Convert(pt))
		}
	}
	if !Active() {
		go v.Call(in)
		return
	}
	spawn(func() { v.Call(in) })
	S(3)
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// NumCPU stands for runtime.NumCPU.
//
//go:norace
func NumCPU() int {
	if ncpu > 0 {
		return ncpu
	}
	return runtime.NumCPU()
}

// GOMAXPROCS stands for runtime.GOMAXPROCS.
func GOMAXPROCS(n int) int {
	if NumCPU() != runtime.NumCPU() {
		return NumCPU()
	}
	return runtime.GOMAXPROCS(n)
}

//go:norace
func SetNumCPU(n int) { ncpu = n }

// SetOff switches the scheduling points lo..hi-1 off or on.
//
//go:norace
func SetOff(lo, hi int, o bool) {
	for i := lo; i < hi; i++ {
		off[i] = o
	}
}

// A Run is one execution. The slices are valid until the next one.
type Run struct {
	Steps    int
	Locs     []uint16
	Opts     []uint32
	Ran      []uint8
	Deadlock bool
	Over     bool
	Bad      string
	Panics   []interface{}
	Threads  int
}

//go:norace
func setup(d []Dev, g int) {
	alloc()
	for i := range d {
		devs[i] = d[i]
	}
	ndev, devi, steps, nthr = len(d), 0, 0, 0
	bad, dead, over, gran = "", false, false, g
	cur = -1
}

//go:norace
func start() {
	active = true
	cur = 0
	if ndev > 0 && devs[0].Step == -1 {
		cur = int32(devs[0].Thread)
		devi = 1
	}
}

//go:norace
func stop() { active = false }

//go:norace
func collect() Run {
	r := Run{Steps: steps, Locs: locs[:steps], Opts: opts[:steps], Ran: ran[:steps], Deadlock: dead, Over: over, Bad: bad, Threads: int(nthr)}
	if devi < ndev && !dead {
		r.Bad = "a replayed schedule was longer than the execution"
	}
	r.Panics = append(r.Panics, pan[:nthr]...)
	return r
}

// Exec runs the bodies as threads under the given schedule. With granularity 0
// every statement is a scheduling point, with 1 only synchronization is. A
// deviation with step -1 says which thread starts.
func Exec(bodies []func(), d []Dev, granularity int) Run {
	setup(d, granularity)
	for _, b := range bodies {
		spawn(b)
	}
	start()
	wg.Wait()
	stop()
	return collect()
}
