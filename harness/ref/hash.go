package ref

import (
	"encoding/binary"
	"math/bits"
)

// keccak is the plain sponge with rate 136 (256-bit output) and the given domain byte.
func keccak(rate, out int, domain byte, in []byte) []byte {
	var st [25]uint64
	absorb := func(blk []byte) {
		for i := 0; i < rate/8; i++ {
			st[i] ^= binary.LittleEndian.Uint64(blk[8*i:])
		}
		keccakF(&st)
	}
	for len(in) >= rate {
		absorb(in[:rate])
		in = in[rate:]
	}
	last := make([]byte, rate)
	copy(last, in)
	last[len(in)] ^= domain
	last[rate-1] ^= 0x80
	absorb(last)
	r := make([]byte, rate)
	for i := 0; i < rate/8; i++ {
		binary.LittleEndian.PutUint64(r[8*i:], st[i])
	}
	return r[:out]
}

func keccakF(a *[25]uint64) {
	lfsr := byte(1)
	for round := 0; round < 24; round++ {
		var c [5]uint64
		for x := 0; x < 5; x++ {
			c[x] = a[x] ^ a[x+5] ^ a[x+10] ^ a[x+15] ^ a[x+20]
		}
		for x := 0; x < 5; x++ {
			d := c[(x+4)%5] ^ bits.RotateLeft64(c[(x+1)%5], 1)
			for y := 0; y < 25; y += 5 {
				a[x+y] ^= d
			}
		}
		x, y := 1, 0
		cur := a[1]
		for t := 0; t < 24; t++ {
			x, y = y, (2*x+3*y)%5
			i := x + 5*y
			a[i], cur = bits.RotateLeft64(cur, (t+1)*(t+2)/2), a[i]
		}
		for y := 0; y < 25; y += 5 {
			var row [5]uint64
			copy(row[:], a[y:y+5])
			for x := 0; x < 5; x++ {
				a[x+y] = row[x] ^ ^row[(x+1)%5]&row[(x+2)%5]
			}
		}
		for j := uint(0); j < 7; j++ {
			if lfsr&1 == 1 {
				a[0] ^= 1 << (1<<j - 1)
			}
			hi := lfsr >> 7
			lfsr = lfsr<<1 ^ hi*0x71
		}
	}
}

func Keccak256(b []byte) []byte   { return keccak(136, 32, 0x01, b) }
func ownSHA3_256(b []byte) []byte { return keccak(136, 32, 0x06, b) }
func ownSHA3_512(b []byte) []byte { return keccak(72, 64, 0x06, b) }

var (
	rmR = [80]byte{
		0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15,
		7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8,
		3, 10, 14, 4, 9, 15, 8, 1, 2, 7, 0, 6, 13, 11, 5, 12,
		1, 9, 11, 10, 0, 8, 12, 4, 13, 3, 7, 15, 14, 5, 6, 2,
		4, 0, 5, 9, 7, 12, 2, 10, 14, 1, 3, 8, 11, 6, 15, 13}
	rmRR = [80]byte{
		5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12,
		6, 11, 3, 7, 0, 13, 5, 10, 14, 15, 8, 12, 4, 9, 1, 2,
		15, 5, 1, 3, 7, 14, 6, 9, 11, 8, 12, 2, 10, 0, 4, 13,
		8, 6, 4, 1, 3, 11, 15, 0, 5, 12, 2, 13, 9, 7, 10, 14,
		12, 15, 10, 4, 1, 5, 8, 7, 6, 2, 13, 14, 0, 3, 9, 11}
	rmS = [80]byte{
		11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8,
		7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9, 11, 7, 13, 12,
		11, 13, 6, 7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5,
		11, 12, 14, 15, 14, 15, 9, 8, 9, 14, 5, 6, 8, 6, 5, 12,
		9, 15, 5, 11, 6, 8, 13, 12, 5, 12, 13, 14, 11, 8, 5, 6}
	rmSS = [80]byte{
		8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6,
		9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7, 6, 15, 13, 11,
		9, 7, 15, 11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5,
		15, 5, 8, 11, 14, 14, 6, 14, 6, 9, 12, 9, 12, 5, 15, 8,
		8, 5, 12, 9, 12, 5, 14, 6, 8, 13, 6, 5, 15, 13, 11, 11}
	rmK  = [5]uint32{0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e}
	rmKK = [5]uint32{0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0}
)

func rmF(j int, x, y, z uint32) uint32 {
	switch j {
	case 0:
		return x ^ y ^ z
	case 1:
		return x&y | ^x&z
	case 2:
		return (x | ^y) ^ z
	case 3:
		return x&z | y&^z
	}
	return x ^ (y | ^z)
}

// Ripemd160 follows the published pseudo-code.
func Ripemd160(in []byte) []byte {
	h := [5]uint32{0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0}
	m := append([]byte{}, in...)
	m = append(m, 0x80)
	for len(m)%64 != 56 {
		m = append(m, 0)
	}
	m = binary.LittleEndian.AppendUint64(m, uint64(len(in))*8)
	for ; len(m) > 0; m = m[64:] {
		var x [16]uint32
		for i := range x {
			x[i] = binary.LittleEndian.Uint32(m[4*i:])
		}
		a, b, c, d, e := h[0], h[1], h[2], h[3], h[4]
		aa, bb, cc, dd, ee := a, b, c, d, e
		for j := 0; j < 80; j++ {
			t := bits.RotateLeft32(a+rmF(j/16, b, c, d)+x[rmR[j]]+rmK[j/16], int(rmS[j])) + e
			a, e, d, c, b = e, d, bits.RotateLeft32(c, 10), b, t
			t = bits.RotateLeft32(aa+rmF(4-j/16, bb, cc, dd)+x[rmRR[j]]+rmKK[j/16], int(rmSS[j])) + ee
			aa, ee, dd, cc, bb = ee, dd, bits.RotateLeft32(cc, 10), bb, t
		}
		h[0], h[1], h[2], h[3], h[4] = h[1]+c+dd, h[2]+d+ee, h[3]+e+aa, h[4]+a+bb, h[0]+b+cc
	}
	var r []byte
	for _, v := range h {
		r = binary.LittleEndian.AppendUint32(r, v)
	}
	return r
}
