// Package sched is the controlled scheduler of the verification build.
//
// Managed threads run one at a time. Which one runs is given by a list of
// segments (thread, number of points); the hand-over does not create a
// happens-before edge that the race detector could see, so conflicting accesses
// of two threads are reported as races whatever the explored order is.
package sched

import (
	"runtime"
	"sync"
	"time"
	_ "unsafe"
)

func getg() uintptr

//go:linkname semacquire sync.runtime_Semacquire
func semacquire(addr *uint32)

//go:linkname semrelease sync.runtime_Semrelease
func semrelease(addr *uint32, handoff bool, skipframes int)

// Seg lets a thread run until it reaches its n-th next point.
type Seg struct{ Thread, Points int }

const maxThreads = 4

// Exec is one controlled execution.
type Exec struct {
	n      int
	segs   []Seg
	si     int
	left   int // points left in the current segment, -1 = until it ends
	sem    [maxThreads]uint32
	done   [maxThreads]bool
	points [maxThreads]int
	free   bool
	spins  int
	// Blocked tells that the threads had to be released from control
	Blocked bool
	// Deadlock tells that no thread can continue
	Deadlock bool
	switches int
	pools    [32]poolSlot
	puts     int
}

type thread struct {
	e  *Exec
	id int
}

type slot struct {
	g uintptr
	t *thread
}

var (
	mu   sync.Mutex
	tab  [64]slot
	used int // slots in use are below
)

//go:norace
func add(t *thread) {
	mu.Lock()
	g := getg()
	i := 0
	for i < len(tab) && tab[i].g != 0 {
		i++
	}
	if i == len(tab) {
		panic("sched: too many threads")
	}
	tab[i].t = t
	tab[i].g = g
	if i >= used {
		used = i + 1
	}
	mu.Unlock()
}

//go:norace
func remove() {
	g := getg()
	for i := range tab {
		if tab[i].g == g {
			tab[i].t = nil
			tab[i].g = 0
		}
	}
}

//go:norace
func self() *thread {
	g := getg()
	for i := 0; i < used; i++ {
		if tab[i].g == g {
			return tab[i].t
		}
	}
	return nil
}

var unmanaged int64

// Unmanaged returns the number of points passed outside of controlled executions.
//
//go:norace
func Unmanaged() int64 { return unmanaged }

// Point is a scheduling point.
//
//go:norace
func Point() {
	t := self()
	if t == nil {
		unmanaged++
		return
	}
	if t.e.free {
		return
	}
	e := t.e
	e.points[t.id]++
	if e.left < 0 {
		return
	}
	if e.left > 0 {
		e.left--
	}
	if e.left == 0 {
		e.next(t.id)
	}
}

// next moves on to the next segment.
//
//go:norace
func (e *Exec) next(me int) {
	to := e.pick()
	if to == me || to < 0 {
		return
	}
	e.to(me, to)
}

// pick takes the next segment of a thread that is not done.
//
//go:norace
func (e *Exec) pick() int {
	for e.si < len(e.segs) {
		s := e.segs[e.si]
		e.si++
		if !e.done[s.Thread] && s.Points != 0 {
			e.left = s.Points
			return s.Thread
		}
	}
	e.left = -1
	for i := 0; i < e.n; i++ {
		if !e.done[i] {
			return i
		}
	}
	return -1
}

//go:norace
func (e *Exec) to(me, to int) {
	if me == to {
		return
	}
	e.switches++
	semrelease(&e.sem[to], false, 0)
	semacquire(&e.sem[me])
}

// yield is called by a thread that cannot continue before another one does.
//
//go:norace
func yield() {
	t := self()
	if t == nil || t.e.free {
		runtime.Gosched()
		return
	}
	e := t.e
	e.spins++
	if e.spins > 100000 {
		e.Deadlock = true
		e.release()
		runtime.Gosched()
		return
	}
	for i := 1; i < e.n; i++ {
		j := (t.id + i) % e.n
		if !e.done[j] {
			e.to(t.id, j)
			return
		}
	}
	runtime.Gosched()
}

//go:norace
func (e *Exec) release() {
	e.free = true
	for i := 0; i < e.n; i++ {
		semrelease(&e.sem[i], false, 0)
	}
}

//go:norace
func (e *Exec) finish(me int) {
	remove()
	e.done[me] = true
	if e.free {
		return
	}
	if to := e.pick(); to >= 0 {
		semrelease(&e.sem[to], false, 0)
	}
}

//go:norace
func (e *Exec) wait(me int) { semacquire(&e.sem[me]) }

//go:norace
func (e *Exec) setBlocked() {
	e.Blocked = true
	e.release()
}

//go:norace
func (e *Exec) start() {
	if to := e.pick(); to >= 0 {
		semrelease(&e.sem[to], false, 0)
	}
}

// Run executes the bodies as managed threads under the given segments and
// returns the number of points each of them passed, and the panics.
//
//go:norace
func Run(segs []Seg, bodies ...func()) (points []int, panics []interface{}, e *Exec) {
	e = &Exec{n: len(bodies), segs: segs, left: -1}
	ready := make(chan int, len(bodies))
	type res struct {
		id int
		p  interface{}
	}
	fin := make(chan res, len(bodies))
	for i := range bodies {
		i := i
		go runThread(e, i, bodies[i], func() { ready <- i }, func(p interface{}) { fin <- res{i, p} })
	}
	for range bodies {
		<-ready
	}
	e.start()
	panics = make([]interface{}, len(bodies))
	t := time.NewTimer(2 * time.Second)
	defer t.Stop()
	for range bodies {
		select {
		case r := <-fin:
			panics[r.id] = r.p
		case <-t.C:
			// blocked on something outside the scheduler's control
			e.setBlocked()
			r := <-fin
			panics[r.id] = r.p
		}
	}
	return e.points[:len(bodies)], panics, e
}

//go:norace
func runThread(e *Exec, id int, body func(), ready func(), fin func(interface{})) {
	t := &thread{e, id}
	add(t)
	ready()
	e.wait(id)
	defer func() {
		p := recover()
		e.finish(id)
		fin(p)
	}()
	body()
}
