package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"hash/crc64"
	"runtime"
	"sort"
	"strings"
	"time"

	crypto "github.com/proximax-storage/go-xpx-crypto"
)

// Results that the library returned belong to the caller: no later call may
// change them, and what the caller writes behind their end touches nothing.

type keptResult struct{ b, want []byte }

var (
	keeping bool
	kept    []keptResult
)

func keepResults() { keeping, kept = true, nil }
func dropResults() { keeping, kept = false, nil }

// keepResult remembers a slice that the library returned, and uses up its
// spare capacity as append would.
func keepResult(b []byte) {
	if !keeping || len(b) == 0 {
		return
	}
	useUp(b)
	kept = append(kept, keptResult{b, append([]byte{}, b...)})
}

func useUp(b []byte) {
	spare := b[len(b):cap(b)]
	for i := range spare {
		spare[i] = 0xee
	}
}

func checkResults(t *T, what string) {
	for i := range kept {
		if i == 0 || i%7 == 3 { // appending to an early result after later ones were made
			useUp(kept[i].b)
		}
	}
	for i, k := range kept {
		if !bytes.Equal(k.b, k.want) {
			t.Failf("%s: the result of an earlier call (number %d of %d kept) was changed: %s, was %s", what, i+1, len(kept), hx(k.b), hx(k.want))
			return
		}
	}
}

// collect runs the garbage collector and whatever waits for objects to be
// collected.
func collect() {
	for i := 0; i < 2; i++ {
		done := make(chan struct{})
		runtime.SetFinalizer(&struct{ a [64]byte }{}, func(*struct{ a [64]byte }) { close(done) })
		runtime.GC()
		select {
		case <-done:
		case <-time.After(2 * time.Second):
		}
	}
}

// variantOf: patterns and keys that are different for every variant.
func variantOf(variant int) (func(n int, seed byte) []byte, func(i int) []byte) {
	return func(n int, seed byte) []byte { return pattern(n, seed+byte(100*variant)) },
		func(i int) []byte { return seedKey(i + 10*variant) }
}

// sameSums: byte strings with the same checksum as b, for checksums in common
// use: Adler-32, polynomials in 31 and 33, CRCs of 16, 32 and 64 bits, FNV.
func sameSums(b []byte) [][]byte {
	if r, ok := sumsMemo[string(b)]; ok {
		return r
	}
	r := sameSums1(b)
	sumsMemo[string(b)] = r
	return r
}

var sumsMemo = map[string][][]byte{}

func sameSums1(b []byte) [][]byte {
	var r [][]byte
	n := len(b)
	if n < 16 {
		return nil
	}
	add := func(at []int, d ...byte) {
		c := append([]byte{}, b...)
		for i, p := range at {
			c[p] += d[i]
		}
		r = append(r, c)
	}
	for i := 0; i+6 <= n; i += 5 {
		add([]int{i, i + 1, i + 2}, 1, 254, 1)
		add([]int{i + 1, i + 3, i + 5}, 1, 254, 1)
		add([]int{i, i + 1}, 1, 225) // 31
		add([]int{i, i + 1}, 1, 223) // 33
		add([]int{i, i + 1}, 255, 31)
		add([]int{i, i + 1}, 255, 33)
	}
	// the generator polynomial, first bit first, in the order of bits from the
	// lowest (reflected) or the highest
	crc := func(poly uint64, bits int, reflected bool) {
		for k := 0; k < 6; k++ {
			off := k * (8*n - bits - 1) / 5
			c := append([]byte{}, b...)
			flipBit := func(j int) {
				if reflected {
					c[j/8] ^= 1 << uint(j%8)
				} else {
					c[j/8] ^= 0x80 >> uint(j%8)
				}
			}
			flipBit(off)
			for i := 0; i < bits; i++ {
				if poly>>uint(bits-1-i)&1 == 1 {
					flipBit(off + 1 + i)
				}
			}
			r = append(r, c)
		}
	}
	for _, refl := range []bool{true, false} {
		crc(0x04c11db7, 32, refl)
		crc(0x1edc6f41, 32, refl)
		crc(0x741b8cd7, 32, refl)
		crc(0x8005, 16, refl)
		crc(0x1021, 16, refl)
		if n > 9 {
			crc(0x1b, 64, refl)
			crc(0x42f0e1eba9ea3693, 64, refl)
		}
	}
	r = append(r, fnvSame(b, true)...)
	return append(r, fnvSame(b, false)...)
}

// fnvSame: strings with the same 32-bit FNV-1a (or FNV-1) value, found by
// meeting in the middle: four bytes changed forwards, four backwards.
func fnvSame(b []byte, a bool) [][]byte {
	const prime, inverse = 16777619, 0x359c449b
	step := func(h uint32, c byte) uint32 {
		if a {
			return (h ^ uint32(c)) * prime
		}
		return h*prime ^ uint32(c)
	}
	back := func(h uint32, c byte) uint32 {
		if a {
			return h*inverse ^ uint32(c)
		}
		return (h ^ uint32(c)) * inverse
	}
	h := uint32(2166136261)
	at := len(b)/2 - 4
	for _, c := range b[:at] {
		h = step(h, c)
	}
	end := h
	for _, c := range b[at : at+8] {
		end = step(end, c)
	}
	// from a middle to both sides; the third and fourth byte of each half change
	m := map[uint32]int{}
	for i := 1; i < 1<<17; i++ {
		g := step(step(step(step(h, b[at]^byte(i>>16)), b[at+1]^byte(i>>8)), b[at+2]^byte(i)), b[at+3])
		m[g] = i
	}
	var r [][]byte
	for j := 1; j < 1<<17 && len(r) < 4; j++ {
		g := back(back(back(back(end, b[at+7]), b[at+6]^byte(j)), b[at+5]^byte(j>>8)), b[at+4]^byte(j>>16))
		if i, ok := m[g]; ok {
			c := append([]byte{}, b...)
			c[at] ^= byte(i >> 16)
			c[at+1] ^= byte(i >> 8)
			c[at+2] ^= byte(i)
			c[at+4] ^= byte(j >> 16)
			c[at+5] ^= byte(j >> 8)
			c[at+6] ^= byte(j)
			r = append(r, c)
		}
	}
	return r
}

// sameSumsText: texts of hex digits (of other bytes than b's) with the same
// checksum as b.
func sameSumsText(b []byte) [][]byte {
	if len(b) < 48 {
		return nil
	}
	key := "text" + string(b)
	if r, ok := sumsMemo[key]; ok {
		return r
	}
	isHex := func(c byte) bool { return c >= '0' && c <= '9' || c|0x20 >= 'a' && c|0x20 <= 'f' }
	var r [][]byte
	add := func(c []byte) {
		for i := range c {
			if !isHex(c[i]) {
				return
			}
		}
		if !strings.EqualFold(string(c), string(b)) {
			r = append(r, c)
		}
	}
	put := func(at []int, d ...byte) {
		c := append([]byte{}, b...)
		for i, p := range at {
			c[p] += d[i]
		}
		add(c)
	}
	for i := 0; i+2 < len(b); i++ {
		put([]int{i, i + 1, i + 2}, 1, 254, 1)
		put([]int{i, i + 1, i + 2}, 255, 2, 255)
		put([]int{i, i + 1}, 1, 225)
		put([]int{i, i + 1}, 255, 31)
		put([]int{i, i + 1}, 1, 223)
		put([]int{i, i + 1}, 255, 33)
		put([]int{i, i + 1}, 1, 255)
	}
	if len(r) > 60 {
		r = r[:60]
	}
	// checksums that are linear in the bits: the bits that can be changed by
	// themselves so that hex digits remain, and a combination that cancels out
	type bit struct{ i, k int }
	var free []bit
	for i, c := range b {
		for k := 0; k < 3; k++ {
			if c >= '0' && (c <= '7' || k == 0 && c <= '9') {
				free = append(free, bit{i, k})
			}
		}
	}
	if len(free) > 512 {
		free = free[:512]
	}
	linear := func(f func(b []byte) uint64) {
		type row struct {
			v    uint64
			bits [8]uint64
		}
		zero := f(b)
		var basis []row
		found := 0
		for n := len(free) - 1; n >= 0 && found < 3; n-- {
			x := free[n]
			c := append([]byte{}, b...)
			c[x.i] ^= 1 << uint(x.k)
			cur := row{v: f(c) ^ zero}
			cur.bits[n/64] |= 1 << uint(n%64)
			for _, o := range basis {
				if cur.v^o.v < cur.v {
					cur.v ^= o.v
					for i := range cur.bits {
						cur.bits[i] ^= o.bits[i]
					}
				}
			}
			if cur.v != 0 {
				basis = append(basis, cur)
				sort.Slice(basis, func(i, j int) bool { return basis[i].v > basis[j].v })
				continue
			}
			c = append([]byte{}, b...)
			for m := range free {
				if cur.bits[m/64]>>uint(m%64)&1 == 1 {
					c[free[m].i] ^= 1 << uint(free[m].k)
				}
			}
			add(c)
			found++
		}
	}
	for _, poly := range []uint32{crc32.IEEE, crc32.Castagnoli, crc32.Koopman} {
		t := crc32.MakeTable(poly)
		linear(func(b []byte) uint64 { return uint64(crc32.Checksum(b, t)) })
	}
	for _, poly := range []uint64{crc64.ISO, crc64.ECMA} {
		t := crc64.MakeTable(poly)
		linear(func(b []byte) uint64 { return crc64.Checksum(b, t) })
	}
	for _, words := range []int{1, 2, 4, 8} { // words added without carry
		linear(func(b []byte) uint64 {
			var s [8]byte
			for i, c := range b {
				s[i%words] ^= c
			}
			return binary.LittleEndian.Uint64(s[:])
		})
	}
	for _, a := range []bool{true, false} {
		for _, c := range fnvSameOf(b, a, []byte("0123456789abcdefABCDEF")) {
			add(c)
		}
	}
	sumsMemo[key] = r
	return r
}

// fnvSameOf is fnvSame with bytes out of an alphabet.
func fnvSameOf(b []byte, a bool, alphabet []byte) [][]byte {
	const prime, inverse = 16777619, 0x359c449b
	step := func(h uint32, c byte) uint32 {
		if a {
			return (h ^ uint32(c)) * prime
		}
		return h*prime ^ uint32(c)
	}
	back := func(h uint32, c byte) uint32 {
		if a {
			return h*inverse ^ uint32(c)
		}
		return (h ^ uint32(c)) * inverse
	}
	h := uint32(2166136261)
	at := len(b)/2 - 4
	for _, c := range b[:at] {
		h = step(h, c)
	}
	end := h
	for _, c := range b[at : at+8] {
		end = step(end, c)
	}
	n := len(alphabet)
	four := func(i int) (w [4]byte) {
		for k := range w {
			w[k] = alphabet[i%n]
			i /= n
		}
		return
	}
	m := make(map[uint32]int, n*n*n*n)
	for i := 0; i < n*n*n*n; i++ {
		w := four(i)
		m[step(step(step(step(h, w[0]), w[1]), w[2]), w[3])] = i
	}
	var r [][]byte
	for j := 0; j < n*n*n*n && len(r) < 6; j++ {
		w := four(j)
		if i, ok := m[back(back(back(back(end, w[3]), w[2]), w[1]), w[0])]; ok {
			v := four(i)
			c := append([]byte{}, b...)
			copy(c[at:], v[:])
			copy(c[at+4:], w[:])
			if !bytes.Equal(b, c) {
				r = append(r, c)
			}
		}
	}
	return r
}

// spoil replaces the contents of objects that the library made and returned:
// they are the caller's, and nothing computed afterwards may depend on them.
// The bytes themselves stay as they are.
func spoil(objects ...interface{}) {
	for _, o := range objects {
		switch v := o.(type) {
		case *crypto.PrivateKey:
			if v != nil {
				v.Raw = []byte{1, 2, 3}
			}
		case *crypto.PublicKey:
			if v != nil {
				v.Raw = []byte{4, 5, 6}
			}
		case *crypto.Signature:
			if v != nil {
				v.R, v.S = []byte{7}, nil
			}
		case *crypto.Ed25519EncodedFieldElement:
			if v != nil {
				v.Raw = []byte{8, 9}
			}
		case *crypto.KeyPair:
			if v != nil {
				v.PrivateKey, v.PublicKey = nil, nil
			}
		default:
			panic(fmt.Sprintf("spoil: %T", o))
		}
	}
}

// rawKey: the bytes of a key or encoding that the library made, which is the
// caller's afterwards.
func rawKey(o interface{}) []byte {
	var b []byte
	switch v := o.(type) {
	case *crypto.PrivateKey:
		b = v.Raw
	case *crypto.PublicKey:
		b = v.Raw
	case *crypto.Ed25519EncodedFieldElement:
		b = v.Raw
	}
	keepResult(b)
	b = append([]byte{}, b...)
	spoil(o)
	return b
}
