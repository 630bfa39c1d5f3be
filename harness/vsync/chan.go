package vsync

import "verifharness/sched"

// Chan stands in for channels.
type Chan[T any] struct {
	buf    []T
	size   int
	closed bool
	recv   int // receivers that wait, for channels without buffer
	taken  int // how many values were taken so far
	put    int
}

func NewChan[T any](size ...int) *Chan[T] {
	n := 0
	if len(size) > 0 {
		n = size[0]
	}
	if n < 0 {
		panic("makechan: size out of range")
	}
	return &Chan[T]{size: n}
}

// A channel without buffer is one that a value may be put in only when a receiver
// waits for it, or that the sender waits behind until its value was taken.
func (c *Chan[T]) canSend() bool {
	return c.closed || len(c.buf) < c.size || c.size == 0 && c.recv > len(c.buf)
}
func (c *Chan[T]) canRecv() bool { return c.closed || len(c.buf) > 0 }

func never() bool { return false }

func (c *Chan[T]) Send(v T) {
	sched.P(-30)
	if c == nil {
		sched.Block(never)
	}
	if c.size == 0 {
		if c.closed {
			panic("send on closed channel")
		}
		c.buf = append(c.buf, v)
		c.put++
		n := c.put
		sched.Block(func() bool { return c.taken >= n })
		return
	}
	sched.Block(c.canSend)
	c.send(v)
}

func (c *Chan[T]) send(v T) {
	if c.closed {
		panic("send on closed channel")
	}
	c.buf = append(c.buf, v)
	c.put++
}

func (c *Chan[T]) Recv() T { v, _ := c.Recv2(); return v }

func (c *Chan[T]) Recv2() (T, bool) {
	sched.P(-31)
	if c == nil {
		sched.Block(never)
	}
	c.recv++
	sched.Block(c.canRecv)
	c.recv--
	return c.take()
}

func (c *Chan[T]) take() (v T, ok bool) {
	if len(c.buf) == 0 {
		return v, false
	}
	v = c.buf[0]
	c.buf = c.buf[1:]
	c.taken++
	return v, true
}

func Close[T any](c *Chan[T]) {
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	sched.P(-32)
}
func Len[T any](c *Chan[T]) int {
	if c == nil {
		return 0
	}
	return min(len(c.buf), c.size)
}
func Cap[T any](c *Chan[T]) int {
	if c == nil {
		return 0
	}
	return c.size
}

// Case is a case of a select statement.
type Case struct {
	ready func() bool
	do    func()
	wait  func(int)
}

// Chosen is what a select statement decided.
type Chosen struct {
	I  int
	v  interface{}
	ok bool
}

func RecvCase[T any](c *Chan[T], ch *Chosen) Case {
	if c == nil {
		return Case{never, nil, func(int) {}}
	}
	return Case{c.canRecv, func() { ch.v, ch.ok = c.take() }, func(d int) { c.recv += d }}
}

func SendCase[T any](c *Chan[T], v T) Case {
	if c == nil {
		return Case{never, nil, func(int) {}}
	}
	return Case{c.canSend, func() { c.send(v) }, func(int) {}}
}

// Select takes the first case that is ready.
func Select(ch *Chosen, dflt bool, cases ...Case) *Chosen {
	sched.P(-33)
	find := func() int {
		for i, c := range cases {
			if c.ready() {
				return i
			}
		}
		return -1
	}
	i := find()
	if i < 0 && dflt {
		ch.I = -1
		return ch
	}
	if i < 0 {
		for _, c := range cases {
			c.wait(1)
		}
		sched.Block(func() bool { return find() >= 0 })
		for _, c := range cases {
			c.wait(-1)
		}
		i = find()
	}
	cases[i].do()
	ch.I = i
	return ch
}

func (c *Chan[T]) Take(ch *Chosen) T { v, _ := c.Take2(ch); return v }

func (c *Chan[T]) Take2(ch *Chosen) (v T, ok bool) {
	v, _ = ch.v.(T)
	return v, ch.ok
}
