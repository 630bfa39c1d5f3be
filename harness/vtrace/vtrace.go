// Package vtrace records what an observer of the program's control flow and of
// its table accesses would see: the instrumented package calls it.
package vtrace

import "math/big"

// Points is set by the instrumented package to the number of its points.
var Points int

type Event struct {
	ID int32
	V  int64
}

var (
	on     bool
	public int // depth of calls that work on public data
	plain  int // depth of calls whose branches and indices do not count
	hash   uint64
	n      int64
	keep   bool
	log    []Event
)

// Start begins a trace; with full the events themselves are kept.
func Start(full bool) {
	on, public, plain, hash, n, keep, log = true, 0, 0, 14695981039346656037, 0, full, nil
}

// Stop ends it.
func Stop() (h uint64, events int64, l []Event) {
	on = false
	return hash, n, log
}

func event(id int32, v int64) {
	hash = (hash ^ uint64(uint32(id))) * 1099511628211
	hash = (hash ^ uint64(v)) * 1099511628211
	hash ^= hash >> 29
	n++
	if keep {
		log = append(log, Event{id, v})
	}
}

// Call: a function of the arithmetic is entered.
func Call(id int32) {
	if on && public == 0 {
		event(id, -1)
	}
}

// Block: a branch is taken.
func Block(id int32) {
	if on && public == 0 && plain == 0 {
		event(id, -2)
	}
}

// Right: the right operand of && or || is evaluated.
func Right(id int32, v bool) bool {
	if on && public == 0 && plain == 0 {
		event(id, -3)
	}
	return v
}

type integer interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

// Index: an array, slice or string is indexed.
func Index[T integer](id int32, v T) T {
	if on && public == 0 && plain == 0 {
		event(id, int64(v))
	}
	return v
}

// Big: the size of a big integer determines how long the operations take.
func Big[T any](id int32, v T) T {
	if on && public == 0 && plain == 0 {
		switch x := any(v).(type) {
		case *big.Int:
			if x != nil {
				event(id, int64(x.BitLen()))
			}
		case big.Int:
			event(id, int64(x.BitLen()))
		}
	}
	return v
}

// Public: a call that works on public data begins; its end is the returned function.
func Public() func() {
	public++
	return leavePublic
}

func leavePublic() { public-- }

// Plain: a call whose branches and indices do not count begins.
func Plain() func() {
	plain++
	return leavePlain
}

func leavePlain() { plain-- }
