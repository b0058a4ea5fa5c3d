// Package ssync stands for package sync in the code under test: under a
// scheduler, exactly one thread runs at a time, and every operation is a point
// where another one may be chosen.
package ssync

import (
	"fmt"
	"runtime"
	"strings"
	"unsafe"
)

// Thread is a thread of a scheduled program.
type Thread struct {
	ID      int
	wake    chan struct{}
	done    bool
	blocked func() bool // what it waits for; nil when it can run
	join    byte
	Panic   string
}

// Sched runs a program of threads, in the order that choose gives.
type Sched struct {
	threads  []*Thread
	back     chan struct{}
	cur      *Thread
	choose   func(enabled []*Thread, cur *Thread) *Thread
	Steps    int
	MaxSteps int
	Deadlock bool
	Endless  bool
	abort    bool
	start    byte
}

var active *Sched

type aborted struct{}

//go:norace
func Current() *Thread {
	if active == nil {
		return nil
	}
	return active.cur
}

// Run executes the bodies until all are done (or none can go on).
//
//go:norace
func Run(bodies []func(t *Thread), maxSteps int, choose func(enabled []*Thread, cur *Thread) *Thread) *Sched {
	s := &Sched{back: make(chan struct{}, 1), choose: choose, MaxSteps: maxSteps}
	for i := range bodies {
		s.threads = append(s.threads, &Thread{ID: i, wake: make(chan struct{}, 1)})
	}
	active = s
	raceRelease(unsafe.Pointer(&s.start))
	raceOff()
	for i, t := range s.threads {
		go s.body(t, bodies[i])
	}
	for {
		var enabled []*Thread
		left := 0
		for _, t := range s.threads {
			if t.done {
				continue
			}
			left++
			if t.blocked == nil || !t.blocked() {
				enabled = append(enabled, t)
			}
		}
		if left == 0 {
			break
		}
		if len(enabled) == 0 || s.Steps >= s.MaxSteps {
			if s.Steps >= s.MaxSteps {
				s.Endless = true
			} else {
				s.Deadlock = true
			}
			// end the threads
			s.abort = true
			for _, t := range s.threads {
				if !t.done {
					s.cur = t
					t.wake <- struct{}{}
					<-s.back
				}
			}
			break
		}
		t := enabled[0]
		if len(enabled) > 1 {
			cur := s.cur
			if cur != nil && (cur.done || cur.blocked != nil && cur.blocked()) {
				cur = nil
			}
			raceOn()
			t = choose(enabled, cur)
			raceOff()
		}
		s.Steps++
		s.cur = t
		t.blocked = nil
		t.wake <- struct{}{}
		<-s.back
	}
	raceOn()
	for _, t := range s.threads {
		raceAcquire(unsafe.Pointer(&t.join))
	}
	active = nil
	return s
}

//go:norace
func (s *Sched) body(t *Thread, f func(t *Thread)) {
	raceOff()
	<-t.wake
	raceOn()
	raceAcquire(unsafe.Pointer(&s.start))
	defer s.end(t)
	if !s.abort {
		f(t)
	}
}

//go:norace
func (s *Sched) end(t *Thread) {
	if p := recover(); p != nil {
		if _, ok := p.(aborted); !ok {
			t.Panic = fmt.Sprint(p) + " " + stack()
		}
	}
	raceRelease(unsafe.Pointer(&t.join))
	raceOff()
	t.done = true
	s.back <- struct{}{}
	raceOn()
}

func stack() string {
	b := make([]byte, 16<<10)
	b = b[:runtime.Stack(b, false)]
	var names []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.Contains(l, "soft.go/ecore.") && strings.Contains(l, "(") {
			l = l[strings.LastIndex(l, "/")+1:]
			names = append(names, l[:strings.LastIndexByte(l, '(')])
		}
	}
	return strings.Join(names, " < ")
}

// Yield is a point where another thread may be chosen. It tells whether a
// scheduler is at work.
//
//go:norace
func Yield() bool {
	s := active
	if s == nil {
		return false
	}
	s.pause(nil)
	return true
}

// pause lets another thread run, until blocked no longer holds.
//
//go:norace
func (s *Sched) pause(blocked func() bool) {
	t := s.cur
	if s.abort {
		panic(aborted{})
	}
	raceOff()
	t.blocked = blocked
	s.back <- struct{}{}
	<-t.wake
	raceOn()
	if s.abort {
		panic(aborted{})
	}
}

//go:norace
func aborting() bool { return active != nil && active.abort }

// Wait pauses until a condition holds.
//
//go:norace
func wait(blocked func() bool) {
	for blocked() {
		if active == nil {
			panic("deadlock: waiting for ever outside of any program")
		}
		active.pause(blocked)
	}
}

// IsAbort tells whether a panic only ends a thread of a program that is over.
func IsAbort(p any) bool { _, ok := p.(aborted); return ok }

var ticks int

// Tick gives the next moment.
//
//go:norace
func Tick() int { ticks++; return ticks }
