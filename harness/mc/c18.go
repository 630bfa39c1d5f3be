package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"fmt"

	crypto "github.com/proximax-storage/go-xpx-crypto"
	"verifharness/ref"
)

func init() { checks["C18"] = checkC18 }

type hashFn struct {
	name string
	f    func([]byte) ([]byte, error)
	want func([]byte) []byte
}

var hashFns = []hashFn{
	{"HashesSha_256", crypto.HashesSha_256, func(b []byte) []byte { h := sha256.Sum256(b); return h[:] }},
	{"HashesKeccak_256", crypto.HashesKeccak_256, ref.Keccak256},
	{"HashesSha3_256", crypto.HashesSha3_256, ref.SHA3_256},
	{"HashesSha3_512", func(b []byte) ([]byte, error) { return crypto.HashesSha3_512(b) }, func(b []byte) []byte { return ref.SHA3_512(b) }},
	{"HashesRipemd160", crypto.HashesRipemd160, ref.Ripemd160},
}

func hashCase(t *T, h hashFn, in []byte) []byte {
	g := guard(in)
	arg := g.B
	if in == nil {
		arg = nil
	}
	out, err := h.f(arg)
	t.Ops(1)
	want := h.want(in)
	if err != nil || !eq(out, want) {
		t.Failf("%s of %d bytes %s is %x, error %s, should be %x", h.name, len(in), hx(in), out, errStr(err), want)
		return nil
	}
	if !g.Check(t, "the input of "+h.name) {
		return nil
	}
	t.State([]byte(h.name), want)
	t.Outcome(want)
	return out
}

// joinCase hashes the parts and compares with the hash of their concatenation.
func joinCase(t *T, parts [][]byte) bool {
	var gs Guards
	args := make([][]byte, len(parts))
	for i, p := range parts {
		if p != nil {
			args[i] = gs.New(p)
		}
	}
	all := bytes.Join(parts, nil)
	heads := make([][]byte, len(args))
	copy(heads, args)
	out, err := crypto.HashesSha3_512(args...)
	t.Ops(1)
	want := ref.SHA3_512(all)
	if err != nil || !eq(out, want) {
		t.Failf("HashesSha3_512 of parts of %v bytes (%s) is %x, error %s, should be %x", partLens(parts), hx(all), out, errStr(err), want)
		return false
	}
	for i := range args {
		if len(args[i]) != len(heads[i]) || len(args[i]) > 0 && &args[i][0] != &heads[i][0] {
			t.Failf("HashesSha3_512 changed the list of its arguments (parts of %v bytes)", partLens(parts))
			return false
		}
	}
	if !gs.Check(t, "a part given to HashesSha3_512") {
		return false
	}
	t.State([]byte(fmt.Sprint(partLens(parts))), want)
	t.Outcome(want)
	return true
}

func partLens(p [][]byte) []int {
	r := make([]int, len(p))
	for i := range p {
		r[i] = len(p[i])
	}
	return r
}

func checkC18(c *Ctx) {
	all, max := 1200, 1<<23
	if c.Thorough {
		all, max = 12000, 1<<26
	}
	lens := msgLengths(all, max)
	c.Section("lengths", fmt.Sprintf("5 functions x every length 0..%d and lengths around block and power-of-two sizes up to %d x 2 contents", all, max), func(s *Sec) {
		for _, n := range lens {
			for _, h := range hashFns {
				s.Case(func(t *T) {
					t.Sample(func() string { return fmt.Sprintf("%s, length %d", h.name, n) })
					hashCase(t, h, pattern(n, byte(n)))
					if n < 5000 {
						hashCase(t, h, rep(byte(n), n))
					}
				})
			}
		}
		for _, h := range hashFns {
			s.Case(func(t *T) { hashCase(t, h, nil) })
		}
	})

	c.Section("short", "5 functions x every input of 1 and 2 bytes", func(s *Sec) {
		for v := 0; v < 256+65536; v++ {
			for _, h := range hashFns {
				s.Case(func(t *T) {
					if v < 256 {
						hashCase(t, h, []byte{byte(v)})
					} else {
						hashCase(t, h, []byte{byte(v), byte((v - 256) >> 8)})
					}
				})
			}
		}
	})

	c.Section("look-alikes", "5 functions x inputs that look like text, digits, encodings, keys, digests, padded blocks; SHA3-512 of every pair of 60 of them", func(s *Sec) {
		k := seedKey(2)
		ms := lookalikes(k, pubOf(k))
		for i := range hashFns {
			for _, m := range append(ms, hashFns[i].want(nil), hashFns[i].want([]byte("a"))) {
				s.Case(func(t *T) { hashCase(t, hashFns[i], m) })
			}
		}
		step := len(ms) / 60
		for i := 0; i < len(ms); i += step {
			for j := 0; j < len(ms); j += step {
				s.Case(func(t *T) { joinCase(t, [][]byte{ms[i], ms[j]}) })
			}
		}
	})

	c.Section("bits", "5 functions x every single-bit change of inputs of block sizes", func(s *Sec) {
		for _, n := range []int{55, 56, 63, 64, 65, 71, 72, 73, 128, 135, 136, 137, 144} {
			base := pattern(n, 3)
			for bit := 0; bit < 8*n; bit++ {
				for _, h := range hashFns {
					s.Case(func(t *T) { hashCase(t, h, flip(base, bit)) })
				}
			}
		}
	})

	c.Section("zero-bytes", "leading and trailing zero bytes: every pair of counts 0..20 around a 3-byte core", func(s *Sec) {
		for i := 0; i <= 20; i++ {
			for j := 0; j <= 20; j++ {
				for _, h := range hashFns {
					s.Case(func(t *T) { hashCase(t, h, append(append(rep(0, i), 1, 2, 3), rep(0, j)...)) })
				}
			}
		}
	})

	nmax := 300
	if c.Thorough {
		nmax = 700
	}
	c.Section("two-parts", fmt.Sprintf("SHA3-512 of two parts: every length 0..%d split at every place", nmax), func(s *Sec) {
		for n := 0; n <= nmax; n++ {
			m := pattern(n, 1)
			for i := 0; i <= n; i++ {
				s.Case(func(t *T) { joinCase(t, [][]byte{m[:i], m[i:]}) })
			}
		}
	})

	c.Section("three-parts", "SHA3-512 of three parts: every split of lengths 0..48 and of lengths around the block size", func(s *Sec) {
		var ns []int
		for n := 0; n <= 48; n++ {
			ns = append(ns, n)
		}
		ns = append(ns, 63, 64, 65, 71, 72, 73, 74, 96, 143, 144, 145)
		for _, n := range ns {
			m := pattern(n, 2)
			for i := 0; i <= n; i++ {
				for j := i; j <= n; j++ {
					s.Case(func(t *T) { joinCase(t, [][]byte{m[:i], m[i:j], m[j:]}) })
				}
			}
		}
	})

	c.Section("many-parts", "SHA3-512 of 0..6 parts, each part of a length of {nil, 0, 1, 32, 64, 71, 72, 73} bytes: all combinations up to 4 (6 thorough)", func(s *Sec) {
		ls := []int{-1, 0, 1, 32, 64, 71, 72, 73}
		kmax := 4
		if c.Thorough {
			kmax = 6
		}
		total := 1
		for k := 0; k <= kmax; k++ {
			for code := 0; code < total; code++ {
				s.Case(func(t *T) {
					var parts [][]byte
					for i, x := 0, code; i < k; i, x = i+1, x/len(ls) {
						n := ls[x%len(ls)]
						if n < 0 {
							parts = append(parts, nil)
						} else {
							parts = append(parts, pattern(n, byte(i)))
						}
					}
					joinCase(t, parts)
				})
			}
			total *= len(ls)
		}
		for _, k := range []int{10, 64, 73, 100, 1000} {
			s.Case(func(t *T) {
				var parts [][]byte
				for i := 0; i < k; i++ {
					parts = append(parts, pattern(i%5, byte(i)))
				}
				joinCase(t, parts)
			})
		}
		s.Case(func(t *T) { // the same slice several times, overlapping slices
			m := pattern(100, 6)
			out, err := crypto.HashesSha3_512(m[:60], m[40:], m[:60], m)
			t.Ops(1)
			if err != nil || !eq(out, ref.SHA3_512(m[:60], m[40:], m[:60], m)) {
				t.Failf("HashesSha3_512 of overlapping parts is wrong")
			}
		})
	})

	c.Section("sequences", "every order of 4 calls out of 5 functions x 2 inputs; results stay as they were, changing a result changes nothing later", func(s *Sec) {
		ins := [][]byte{pattern(40, 1), pattern(40, 2)}
		for code := 0; code < 10000; code++ {
			s.Case(func(t *T) {
				var outs, want [][]byte
				for k, x := 0, code; k < 4; k, x = k+1, x/10 {
					h := hashFns[x%5]
					in := ins[x/5%2]
					out := hashCase(t, h, in)
					if out == nil {
						return
					}
					if k%2 == 0 { // scribble over every other result
						for i := range out {
							out[i] ^= 0x5a
						}
						full := out[:cap(out)]
						for i := len(out); i < len(full); i++ {
							full[i] = 0x77
						}
					} else {
						outs = append(outs, out)
						want = append(want, append([]byte{}, out...))
					}
				}
				for i := range outs {
					if !eq(outs[i], want[i]) {
						t.Failf("a digest returned earlier was changed (sequence %d)", code)
					}
				}
			})
		}
		for _, h := range hashFns {
			s.Case(func(t *T) { // many calls
				var b [4]byte
				for i := 0; i < 5000; i++ {
					binary.LittleEndian.PutUint32(b[:], uint32(i))
					if hashCase(t, h, b[:]) == nil {
						return
					}
				}
			})
		}
	})
}
