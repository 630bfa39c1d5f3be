// Package sched runs the instrumented code under a controlled scheduler: one
// thread runs at a time and switches happen only at the points the plan names,
// or where a thread blocks or ends. Goroutines that the code starts are threads
// too; what they pass counts for the operation that started them.
package sched

import (
	"fmt"
	"runtime/debug"
)

// Switch: when operation Thread (with the goroutines it started) is about to pass
// its Nth point, operation Next runs; -1, -2, ... are the threads that can run, of
// whatever operation, other than the running one. A plan of one Switch with Thread
// Gather: every operation stops at the first occurrence of the point with the number N;
// one that has not come there yet goes before those that have; when all others have come
// there, wait for something or have ended, the stopped one that came first (Next 0)
// or last (Next 1) goes on.
type Switch struct{ Thread, N, Next int }

// Gather is the Thread of a plan that lets all operations come to one point.
const Gather = -1

type thread struct {
	stopped int // when it came to the point where the operations gather; 0: not yet
	wake    chan struct{}
	done    bool
	blocked func() bool
	parent  *thread
	owner   int // the operation that it belongs to, -1: none of this run
}

var (
	on      bool
	root    = &thread{wake: make(chan struct{})} // whoever calls Run
	cur     = root
	ops     = []*thread{root} // the operations of this run
	workers []*thread         // goroutines that have not ended, the newest first
	curOp   int
	passed  []int
	plan    []Switch
	end     chan string
	record  bool
	// Trace holds the program points passed, if recording.
	Trace []int32
	// Eager: a goroutine that is started runs at once, and not when its parent waits.
	Eager bool
	// Spawned tells that the code started a goroutine.
	Spawned  bool
	sinceSw  int
	switches int
	problem  string
	gather   bool
	stops    int
)

const spin = 4000000

func account() int {
	if cur.owner >= 0 && cur.owner < len(passed) {
		return cur.owner
	}
	return curOp
}

// P is a program point.
func P(id int32) {
	if !on {
		return
	}
	if record {
		Trace = append(Trace, id)
	}
	o := account()
	n := passed[o]
	passed[o]++
	sinceSw++
	if gather && int32(plan[0].N) == id && cur.stopped == 0 && cur.owner >= 0 && ops[cur.owner] == cur {
		stops++
		cur.stopped = stops
		if t := gathering(nil); t != nil {
			switchTo(t)
		}
		return
	}
	if len(plan) > 0 && plan[0].Thread == o && plan[0].N == n {
		next := plan[0].Next
		plan = plan[1:]
		if next < 0 {
			other(-next - 1)
			return
		}
		if !ops[next].done && (ops[next].blocked == nil || ops[next].blocked()) {
			switchTo(ops[next])
		}
	} else if sinceSw > spin { // a thread that waits for another one in a loop
		me := cur
		if t := pick(me); t != nil {
			switchTo(t)
		}
	}
}

// gathering picks the operation that runs next while they gather.
func gathering(not *thread) *thread {
	var best *thread
	for _, t := range ops {
		if t == not || t.done || t.blocked != nil && !t.blocked() {
			continue
		}
		if best == nil {
			best = t
		} else if t.stopped == 0 || best.stopped == 0 {
			if t.stopped == 0 && best.stopped != 0 {
				best = t
			}
		} else if (t.stopped < best.stopped) == (plan[0].Next == 0) {
			best = t
		}
	}
	return best
}

func other(n int) {
	var can []*thread
	for _, t := range append(append([]*thread{}, workers...), ops...) {
		if t != cur && !t.done && (t.blocked == nil || t.blocked()) {
			can = append(can, t)
		}
	}
	if n < len(can) {
		switchTo(can[n])
	}
}

// On reports whether the scheduler is active.
func On() bool { return on }

// Current is the operation that runs.
func Current() int { return account() }

// Switches counts the switches that took place in the last run.
func Switches() int { return switches }

func hand(next *thread) {
	cur = next
	for i, t := range ops {
		if t == next {
			curOp = i
		}
	}
	sinceSw = 0
	switches++
	next.wake <- struct{}{}
}

func switchTo(next *thread) {
	if next == cur {
		return
	}
	t := cur
	hand(next)
	<-t.wake
}

// Block waits until free() holds.
func Block(free func() bool) {
	t := cur
	for !free() {
		t.blocked = free
		n := pick(nil)
		if n == nil {
			if !on {
				panic("the code blocks for ever")
			}
			if !finished() {
				workers, problem = nil, "deadlock"
				end <- problem
				select {}
			}
			end <- "" // a goroutine that waits for further work
			<-t.wake
			continue
		}
		switchTo(n)
	}
	t.blocked = nil
}

// Go starts f as a thread.
func Go(f func()) {
	Spawned = true
	t := &thread{wake: make(chan struct{}), parent: cur, owner: -1}
	if on {
		t.owner = account()
	}
	workers = append([]*thread{t}, workers...)
	go func() {
		<-t.wake
		defer func() {
			if e := recover(); e != nil {
				if !on {
					panic(e)
				}
				if problem == "" {
					problem = fmt.Sprintf("panic in a goroutine: %v\n%s", e, debug.Stack())
				}
			}
			t.done = true
			leave()
		}()
		f()
	}()
	if Eager {
		switchTo(t)
	}
}

// leave: the running thread has ended.
func leave() {
	for i, w := range workers {
		if w == cur {
			workers = append(append([]*thread{}, workers[:i]...), workers[i+1:]...)
			break
		}
	}
	if n := pick(nil); n != nil {
		hand(n)
		return
	}
	if !on {
		panic("the code blocks for ever")
	}
	if finished() {
		end <- ""
		return
	}
	workers = nil
	end <- "deadlock"
}

func finished() bool {
	for _, t := range ops {
		if !t.done {
			return false
		}
	}
	return true
}

// pick finds a thread that can run: what the running one started, what started
// it, the operation it works for, other goroutines, other operations.
func pick(not *thread) *thread {
	can := func(t *thread) bool {
		return t != nil && t != not && !t.done && (t.blocked == nil || t.blocked())
	}
	live := func(t *thread) bool {
		for _, o := range ops {
			if o == t {
				return true
			}
		}
		for _, w := range workers {
			if w == t {
				return true
			}
		}
		return false
	}
	for _, w := range workers {
		if w.parent == cur && can(w) {
			return w
		}
	}
	if gather && (cur.done || cur.blocked != nil) {
		if t := gathering(not); t != nil {
			return t
		}
	}
	if can(cur.parent) && live(cur.parent) {
		return cur.parent
	}
	if cur != root && can(cur) && !cur.done && live(cur) {
		return cur
	}
	if curOp < len(ops) && can(ops[curOp]) {
		return ops[curOp]
	}
	for _, w := range workers {
		if can(w) {
			return w
		}
	}
	for _, t := range ops {
		if can(t) {
			return t
		}
	}
	return nil
}

// Run runs the functions as threads under the plan, operation 0 first. It returns
// "" or what went wrong (a panic, a deadlock).
func Run(p []Switch, rec bool, fs ...func()) string {
	plan, record = p, rec
	Trace = Trace[:0]
	end = make(chan string, 1)
	curOp, sinceSw, switches, problem = 0, 0, 0, ""
	gather, stops = len(p) == 1 && p[0].Thread == Gather, 0
	passed = make([]int, len(fs))
	for _, w := range workers { // of earlier runs
		w.owner, w.parent = -1, nil
	}
	ops = nil
	for i := range fs {
		ops = append(ops, &thread{wake: make(chan struct{}), owner: i})
	}
	for i, f := range fs {
		t := ops[i]
		go func() {
			<-t.wake
			defer func() {
				if e := recover(); e != nil && problem == "" {
					problem = fmt.Sprintf("panic: %v\n%s", e, debug.Stack())
				}
				t.done = true
				leave()
			}()
			f()
		}()
	}
	on = true
	cur = ops[0]
	ops[0].wake <- struct{}{}
	s := <-end
	on, gather = false, false
	cur, ops, curOp = root, []*thread{root}, 0
	if problem != "" {
		return problem
	}
	return s
}
