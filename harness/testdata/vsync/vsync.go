// Package vsync stands in for sync in an instrumented build: locks block in a scheduler
// that runs one goroutine at a time and decides at every yield point which one goes on.
package vsync

import (
	"fmt"
	"sync"
	"time"
)

type (
	Map       = sync.Map
	Pool      = sync.Pool
	WaitGroup = sync.WaitGroup
	Cond      = sync.Cond
	Locker    = sync.Locker
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

// OnceFunc and OnceValue are passed through: they do not block on the locks above.
func OnceFunc(f func()) func() { return sync.OnceFunc(f) }

func OnceValue[T any](f func() T) func() T { return sync.OnceValue(f) }

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) { return sync.OnceValues(f) }

type thread struct {
	id     int
	resume chan struct{}
	ready  func() bool // nil: runnable
	done   bool
	err    any
}

// scheduler state: only the running thread or the scheduler itself touch it.
var (
	cur     *thread
	back    chan struct{}
	aborted bool
)

type abort struct{}

// Yield is a point at which another thread may be scheduled.
func Yield() { wait(nil) }

func wait(ready func() bool) {
	t := cur
	if t == nil {
		if ready != nil && !ready() {
			panic("vsync: deadlock: a lock is never released")
		}
		return
	}
	if aborted {
		return // unwinding
	}
	t.ready = ready
	back <- struct{}{}
	<-t.resume
	if aborted {
		panic(abort{})
	}
}

// Outcome of one run.
type Outcome struct {
	Choices  []int   // thread chosen at every decision
	Enabled  [][]int // threads that could have been chosen
	Deadlock bool
	Stuck    bool // a thread waits for something the scheduler does not know, or keeps trying
	Panics   []string
	Steps    int
}

// returns waits for the running thread to give up control.
func returns() bool {
	select {
	case <-back:
		return true
	case <-time.After(8 * time.Second):
		return false
	}
}

// Run executes the threads under the schedule: choose is called with the step number, the running
// thread (or -1) and the runnable threads and returns one of them.
func Run(bodies []func(), choose func(step, running int, enabled []int) int) Outcome {
	var o Outcome
	back = make(chan struct{})
	aborted = false
	ts := make([]*thread, len(bodies))
	for i, b := range bodies {
		t := &thread{id: i, resume: make(chan struct{})}
		ts[i] = t
		go func() {
			<-t.resume
			defer func() {
				if p := recover(); p != nil {
					if _, ok := p.(abort); !ok {
						t.err = p
					}
				}
				t.done = true
				back <- struct{}{}
			}()
			if !aborted {
				b()
			}
		}()
	}
	running := -1
	for {
		var enabled []int
		left := 0
		for i, t := range ts {
			if t.done {
				continue
			}
			left++
			if t.ready == nil || t.ready() {
				enabled = append(enabled, i)
			}
		}
		if left == 0 {
			break
		}
		if len(enabled) == 0 || o.Steps > 20000 {
			o.Deadlock = len(enabled) == 0
			o.Stuck = !o.Deadlock
			aborted = true
			for _, t := range ts {
				if !t.done {
					cur = t
					t.resume <- struct{}{}
					if !returns() {
						o.Stuck = true
						return o
					}
				}
			}
			break
		}
		k := enabled[0]
		if len(enabled) > 1 {
			k = choose(len(o.Choices), running, enabled)
			o.Choices = append(o.Choices, k)
			o.Enabled = append(o.Enabled, enabled)
		}
		o.Steps++
		running = k
		cur = ts[k]
		cur.ready = nil
		cur.resume <- struct{}{}
		if !returns() {
			o.Stuck = true
			return o
		}
	}
	cur = nil
	for _, t := range ts {
		if t.err != nil {
			o.Panics = append(o.Panics, fmt.Sprint(t.err))
		}
	}
	return o
}

type Mutex struct{ locked bool }

func (m *Mutex) Lock() {
	wait(func() bool { return !m.locked })
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	Yield()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	if !m.locked {
		if aborted {
			return
		}
		panic("vsync: unlock of unlocked mutex")
	}
	m.locked = false
	Yield()
}

type RWMutex struct {
	writer  bool
	readers int
	waiting int
}

func (m *RWMutex) Lock() {
	m.waiting++
	wait(func() bool { return !m.writer && m.readers == 0 })
	m.waiting--
	m.writer = true
}

func (m *RWMutex) TryLock() bool {
	Yield()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

func (m *RWMutex) Unlock() {
	if !m.writer && !aborted {
		panic("vsync: unlock of unlocked rwmutex")
	}
	m.writer = false
	Yield()
}

// RLock blocks behind waiting writers, as sync.RWMutex does.
func (m *RWMutex) RLock() {
	wait(func() bool { return !m.writer && m.waiting == 0 })
	m.readers++
}

func (m *RWMutex) TryRLock() bool {
	Yield()
	if m.writer {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	if m.readers == 0 && !aborted {
		panic("vsync: runlock of unlocked rwmutex")
	}
	m.readers--
	Yield()
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}
