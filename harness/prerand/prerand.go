// Package prerand puts a stand-in in the place of crypto/rand.Reader. The
// adapter in the package under test imports it, so that the stand-in is there
// before that package is initialised, whenever it picks the reader up.
package prerand

import (
	"crypto/rand"
	"io"
	"sync"
)

type proxy struct {
	mu  sync.Mutex
	src io.Reader
	n   int64
}

var (
	system = rand.Reader
	p      = &proxy{src: rand.Reader}
)

func init() { rand.Reader = p }

func (p *proxy) Read(b []byte) (int, error) {
	p.mu.Lock()
	s := p.src
	p.n++
	p.mu.Unlock()
	return s.Read(b)
}

// Set makes r the system source until the returned function is called.
func Set(r io.Reader) func() {
	p.mu.Lock()
	old := p.src
	p.src = r
	p.mu.Unlock()
	return func() {
		p.mu.Lock()
		p.src = old
		p.mu.Unlock()
	}
}
