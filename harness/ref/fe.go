// Package ref is the reference model: a small, slow-but-plain implementation of
// Ed25519 over a pluggable hash, of the encryption scheme and of the digests.
// It shares no code and no representation with the package under test: field
// elements are four 64-bit words, always fully reduced; points use one
// representation and one complete addition formula; scalars are big.Int.
package ref

import (
	"math/big"
	"math/bits"
)

// Fe is an element of GF(2^255-19), little-endian words, always in [0, p).
type Fe [4]uint64

var P, _ = new(big.Int).SetString("7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed", 16)

var pw = Fe{0xffffffffffffffed, 0xffffffffffffffff, 0xffffffffffffffff, 0x7fffffffffffffff}

var (
	Zero = Fe{}
	One  = Fe{1}
)

// norm brings any 256-bit value into [0, p), using 2^255 = 19 mod p.
func (a Fe) norm() Fe {
	if top := a[3] >> 63; top != 0 {
		var c uint64
		a[3] &= 1<<63 - 1
		a[0], c = bits.Add64(a[0], 19, 0)
		a[1], c = bits.Add64(a[1], 0, c)
		a[2], c = bits.Add64(a[2], 0, c)
		a[3] += c
	}
	if a[3]>>63 != 0 { // the carry made it 2^255 + a[0], a[0] < 19
		return Fe{a[0] + 19}
	}
	if a[3] == pw[3] && a[2] == pw[2] && a[1] == pw[1] && a[0] >= pw[0] {
		return Fe{a[0] - pw[0]}
	}
	return a
}

func (a Fe) Add(b Fe) Fe {
	var r Fe
	var c uint64
	r[0], c = bits.Add64(a[0], b[0], 0)
	r[1], c = bits.Add64(a[1], b[1], c)
	r[2], c = bits.Add64(a[2], b[2], c)
	r[3], _ = bits.Add64(a[3], b[3], c)
	return r.norm()
}

func (a Fe) Neg() Fe {
	if a == Zero {
		return a
	}
	var r Fe
	var b uint64
	r[0], b = bits.Sub64(pw[0], a[0], 0)
	r[1], b = bits.Sub64(pw[1], a[1], b)
	r[2], b = bits.Sub64(pw[2], a[2], b)
	r[3], _ = bits.Sub64(pw[3], a[3], b)
	return r
}

func (a Fe) Sub(b Fe) Fe { return a.Add(b.Neg()) }

func (a Fe) Mul(b Fe) Fe {
	var t [8]uint64
	for i := 0; i < 4; i++ {
		h0, l0 := bits.Mul64(a[i], b[0])
		h1, l1 := bits.Mul64(a[i], b[1])
		h2, l2 := bits.Mul64(a[i], b[2])
		h3, l3 := bits.Mul64(a[i], b[3])
		var c uint64
		l1, c = bits.Add64(l1, h0, 0)
		l2, c = bits.Add64(l2, h1, c)
		l3, c = bits.Add64(l3, h2, c)
		h3 += c
		t[i], c = bits.Add64(t[i], l0, 0)
		t[i+1], c = bits.Add64(t[i+1], l1, c)
		t[i+2], c = bits.Add64(t[i+2], l2, c)
		t[i+3], c = bits.Add64(t[i+3], l3, c)
		t[i+4] = h3 + c
	}
	return fold(t)
}

// fold reduces a 512-bit number: 2^256 = 38 mod p.
func fold(t [8]uint64) Fe {
	h0, l0 := bits.Mul64(t[4], 38)
	h1, l1 := bits.Mul64(t[5], 38)
	h2, l2 := bits.Mul64(t[6], 38)
	h3, l3 := bits.Mul64(t[7], 38)
	var c, d uint64
	l1, c = bits.Add64(l1, h0, 0)
	l2, c = bits.Add64(l2, h1, c)
	l3, c = bits.Add64(l3, h2, c)
	h3 += c
	l0, d = bits.Add64(l0, t[0], 0)
	l1, d = bits.Add64(l1, t[1], d)
	l2, d = bits.Add64(l2, t[2], d)
	l3, d = bits.Add64(l3, t[3], d)
	h3 += d // < 39
	// bits 255 and up, at once
	k := h3<<1 | l3>>63
	l3 &= 1<<63 - 1
	l0, c = bits.Add64(l0, k*19, 0)
	l1, c = bits.Add64(l1, 0, c)
	l2, c = bits.Add64(l2, 0, c)
	l3 += c
	return Fe{l0, l1, l2, l3}.norm()
}

func (a Fe) Sqr() Fe { return a.Mul(a) }

// Pow raises to a 256-bit exponent given in little-endian words.
func (a Fe) Pow(e Fe) Fe {
	var t [16]Fe
	t[0] = One
	for i := 1; i < 16; i++ {
		t[i] = t[i-1].Mul(a)
	}
	r := One
	for i := 252; i >= 0; i -= 4 {
		if i != 252 {
			r = r.Sqr().Sqr().Sqr().Sqr()
		}
		if w := e[i/64] >> (uint(i) % 64) & 15; w != 0 {
			r = r.Mul(t[w])
		}
	}
	return r
}

// Inv is a^(p-2); 0 for 0.
func (a Fe) Inv() Fe {
	if !Memo {
		return a.inv()
	}
	return memo(a.inv, "inv", a)
}

func (a Fe) inv() Fe {
	e := pw
	e[0] -= 2
	return a.Pow(e)
}

func (a Fe) IsZero() bool { return a == Zero }
func (a Fe) Odd() bool    { return a[0]&1 == 1 }

// FeFromBytes reads the low 255 bits of 32 little-endian bytes, modulo p.
func FeFromBytes(b []byte) Fe {
	var r Fe
	for i := 0; i < 32; i++ {
		r[i/8] |= uint64(b[i]) << (8 * uint(i%8))
	}
	r[3] &= 1<<63 - 1
	return r.norm()
}

func (a Fe) Bytes() []byte {
	r := make([]byte, 32)
	for i := range r {
		r[i] = byte(a[i/8] >> (8 * uint(i%8)))
	}
	return r
}

func FeFromBig(x *big.Int) Fe {
	m := new(big.Int).Mod(x, P)
	b := make([]byte, 32)
	m.FillBytes(b)
	for i := 0; i < 16; i++ {
		b[i], b[31-i] = b[31-i], b[i]
	}
	return FeFromBytes(b)
}

func (a Fe) Big() *big.Int { return LE(a.Bytes()) }

func FeFromInt(x int64) Fe {
	if x >= 0 {
		return Fe{uint64(x)}
	}
	return Fe{uint64(-x)}.Neg()
}

var limbExp = [10]uint{0, 26, 51, 77, 102, 128, 153, 179, 204, 230}

var limbPow = func() (r [10]Fe) {
	for i, e := range limbExp {
		r[i][e/64] = 1 << (e % 64)
	}
	return
}()

// FeFromLimbs is the value of the ten signed limbs of radix 2^25.5.
func FeFromLimbs(l [10]int64) Fe {
	// accumulate in a signed 512-bit-safe way: positive and negative parts apart
	var pos, neg [8]uint64
	for i, v := range l {
		if v >= 0 {
			addShifted(&pos, uint64(v), limbExp[i])
		} else {
			addShifted(&neg, uint64(-v), limbExp[i])
		}
	}
	return fold(pos).Sub(fold(neg))
}

func addShifted(t *[8]uint64, v uint64, e uint) {
	w, s := e/64, e%64
	lo := v << s
	hi := uint64(0)
	if s != 0 {
		hi = v >> (64 - s)
	}
	var c uint64
	t[w], c = bits.Add64(t[w], lo, 0)
	t[w+1], c = bits.Add64(t[w+1], hi, c)
	for i := w + 2; c != 0 && i < 8; i++ {
		t[i], c = bits.Add64(t[i], 0, c)
	}
}

// LE reads little-endian bytes as an integer.
func LE(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

// ToLE writes x >= 0 in n little-endian bytes.
func ToLE(x *big.Int, n int) []byte {
	b := make([]byte, n)
	x.FillBytes(b)
	for i := 0; i < n/2; i++ {
		b[i], b[n-1-i] = b[n-1-i], b[i]
	}
	return b
}
