package main

// A controlled scheduler: exactly one thread runs; it is preempted after a
// given number of library statements.  An execution is determined by the plan.

import (
	"fmt"
	"runtime/debug"
	"time"

	hook "github.com/TooManySugar/ll1parser/pkg/verifhook"
)

type seg struct {
	thr int
	q   int64 // statements to run; <= 0: until it ends or blocks
}

type evKind int

const (
	evYield evKind = iota
	evBlocked
	evDone
)

type thr struct {
	resume  chan struct{}
	done    bool
	blocked bool
	res     string
	pan     any
	stack   string
	steps   int64
}

type schedRun struct {
	thrs     []*thr
	ev       chan evKind
	cur      int
	stuck    bool // a thread blocked outside the scheduler's control
	deadlock bool
	hang     bool
	switches int
}

var runFuel int64 = 20_000_000

func runSched(fns []func() string, plan []seg) *schedRun {
	s := &schedRun{ev: make(chan evKind)}
	for i, f := range fns {
		t := &thr{resume: make(chan struct{})}
		s.thrs = append(s.thrs, t)
		f := f
		_ = i
		go func() {
			<-t.resume
			defer func() {
				if r := recover(); r != nil {
					t.pan = r
					t.stack = string(debug.Stack())
				}
				t.done = true
				s.ev <- evDone
			}()
			t.res = f()
		}()
	}
	hook.Slow = func() {
		t := s.thrs[s.cur]
		s.ev <- evYield
		<-t.resume
	}
	hook.Block = func() {
		t := s.thrs[s.cur]
		s.ev <- evBlocked
		<-t.resume
	}
	hook.Started = func() (func(), func(any)) { // a goroutine started by the library
		t := &thr{resume: make(chan struct{})}
		s.thrs = append(s.thrs, t)
		return func() { <-t.resume }, func(r any) {
			if r != nil {
				t.pan = r
				t.stack = string(debug.Stack())
			}
			t.done = true
			s.ev <- evDone
		}
	}
	defer func() {
		hook.Slow, hook.Block, hook.Started = nil, nil, nil
		hook.Left = 1 << 62
	}()
	step := func(i int, q int64) evKind {
		s.cur = i
		t := s.thrs[i]
		t.blocked = false
		if q <= 0 {
			q = runFuel
		}
		hook.Left = q
		s.switches++
		t.resume <- struct{}{}
		select {
		case e := <-s.ev:
			t.steps += q - hook.Left
			t.blocked = e == evBlocked
			return e
		default:
		}
		tm := time.NewTimer(20 * time.Second)
		defer tm.Stop()
		select {
		case e := <-s.ev:
			t.steps += q - hook.Left
			t.blocked = e == evBlocked
			return e
		case <-tm.C:
			s.stuck = true
			return evBlocked
		}
	}
	for _, g := range plan {
		if s.thrs[g.thr].done {
			continue
		}
		step(g.thr, g.q)
		if s.stuck {
			return s
		}
	}
	// completion: in the order of the plan's last mention, then by number
	for {
		progress, left, known := false, false, len(s.thrs)
		for i, t := range s.thrs {
			if t.done {
				continue
			}
			left = true
			e := step(i, 0)
			if s.stuck {
				return s
			}
			if e == evYield {
				s.hang = true
				return s
			}
			if e == evDone || hook.Left < runFuel-3 {
				progress = true
			}
		}
		if !left {
			return s
		}
		if !progress && len(s.thrs) == known {
			for _, t := range s.thrs[:len(fns)] {
				s.deadlock = s.deadlock || !t.done
			}
			return s
		}
	}
}

func (s *schedRun) bad(want []string) string {
	if s.deadlock {
		return "deadlock: every thread waits for another"
	}
	if s.hang {
		return "a call does not finish"
	}
	for i, t := range s.thrs {
		if t.pan != nil {
			return fmt.Sprintf("thread %d panicked: %v", i, t.pan)
		}
		if i < len(want) && t.res != want[i] {
			return fmt.Sprintf("thread %d returned %q; alone it returns %q", i, t.res, want[i])
		}
	}
	return ""
}
