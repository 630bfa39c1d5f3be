package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"

	crypto "github.com/proximax-storage/go-xpx-crypto"
	"verifharness/ref"
)

// Guard is a byte slice that lies inside a larger buffer: writes to it, before
// it or into its spare capacity are noticed.
type Guard struct {
	B    []byte
	all  []byte
	want []byte
}

const guardPad = 80

func guard(b []byte) *Guard {
	g := &Guard{}
	g.all = make([]byte, guardPad+len(b)+guardPad)
	for i := range g.all {
		g.all[i] = byte(0xA5 ^ i*29)
	}
	copy(g.all[guardPad:], b)
	g.want = append([]byte{}, g.all...)
	g.B = g.all[guardPad : guardPad+len(b)]
	return g
}

func (g *Guard) Check(t *T, what string) bool {
	if !bytes.Equal(g.all, g.want) {
		for i := range g.all {
			if g.all[i] != g.want[i] {
				t.Failf("%s was modified: offset %d of a %d-byte argument (negative: before it; >= length: behind it)", what, i-guardPad, len(g.B))
				return false
			}
		}
	}
	return true
}

// Guards keeps several buffers.
type Guards struct {
	list []*Guard
	// reuse makes the n-th New since Again return the memory it returned the last
	// time, with new content, if that has the same length
	reuse bool
	pos   int
}

func (g *Guards) New(b []byte) []byte {
	if g.reuse && g.pos < len(g.list) && len(g.list[g.pos].B) == len(b) {
		x := g.list[g.pos]
		copy(x.B, b)
		copy(x.want[guardPad:], b)
		g.pos++
		return x.B
	}
	x := guard(b)
	if g.reuse && g.pos < len(g.list) {
		g.list[g.pos] = x
	} else {
		g.list = append(g.list, x)
	}
	g.pos++
	return x.B
}

// Again makes the following calls of New use the memory after the first n again.
func (g *Guards) Again(n int) { g.pos = n }

func (g *Guards) Check(t *T, what string) bool {
	for _, x := range g.list {
		if !x.Check(t, what) {
			return false
		}
	}
	return true
}

func hx(b []byte) string {
	if len(b) > 80 {
		return fmt.Sprintf("%s...(%d bytes)", hex.EncodeToString(b[:40]), len(b))
	}
	return hex.EncodeToString(b)
}

// pattern is a deterministic filler with no short period.
func pattern(n int, seed byte) []byte {
	b := make([]byte, n)
	x := uint32(seed)*2654435761 + 12345
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

func rep(v byte, n int) []byte { return bytes.Repeat([]byte{v}, n) }

func flip(b []byte, bit int) []byte {
	r := append([]byte{}, b...)
	r[bit/8] ^= 1 << uint(bit%8)
	return r
}

// seedKey is the i-th ordinary private key of the alphabet.
func seedKey(i int) []byte { return ref.SHA3_256([]byte(fmt.Sprintf("key %d", i))) }

// keyAlphabet: the private keys every property is explored with.
func keyAlphabet(thorough bool) [][]byte {
	var r [][]byte
	for i := 0; i < 6; i++ {
		r = append(r, seedKey(i))
	}
	r = append(r, rep(0, 32), rep(0xff, 32), rep(0x80, 32), rep(1, 32), rep(0x7f, 32))
	one := rep(0, 32)
	one[31] = 1
	r = append(r, one)
	for bit := 0; bit < 256; bit++ {
		r = append(r, flip(rep(0, 32), bit))
	}
	for i := 0; i < 32; i++ {
		k := seedKey(100)
		k[i] = 0
		r = append(r, k)
		k = seedKey(101)
		for j := 0; j <= i; j++ {
			k[j] = 0 // leading zeroes
		}
		r = append(r, k)
		k = seedKey(102)
		for j := i; j < 32; j++ {
			k[j] = 0 // trailing zeroes
		}
		r = append(r, k)
	}
	n := 60
	if thorough {
		n = 20000
	}
	for i := 200; i < 200+n; i++ {
		r = append(r, seedKey(i))
	}
	return r
}

// msgLengths: every length up to all, then lengths around block and buffer sizes.
func msgLengths(all int, max int) []int {
	var r []int
	for i := 0; i <= all; i++ {
		r = append(r, i)
	}
	seen := map[int]bool{}
	add := func(n int) {
		if n > all && n <= max && !seen[n] {
			seen[n] = true
			r = append(r, n)
		}
	}
	for p := 256; p <= max; p *= 2 {
		for _, d := range []int{-1, 0, 1, 31, 32, 33, p / 2} {
			add(p + d)
		}
	}
	for p := 1000; p <= max; p *= 10 {
		for _, m := range []int{1, 2, 3, 5, 7} {
			add(p*m - 1)
			add(p * m)
			add(p*m + 1)
		}
	}
	for _, m := range []int{3, 5, 7, 9, 11, 13, 15} { // whole numbers of odd pieces
		for p := m << 5; p <= max && p <= 1<<18; p *= 2 {
			add(p - 1)
			add(p)
			add(p + 1)
		}
	}
	for k := 1; k <= 40; k++ { // multiples of the Keccak rates
		for _, d := range []int{-1, 0, 1} {
			add(72*k + d)
			add(136*k + d)
		}
	}
	if max >= 1<<20 {
		for _, n := range largeLengths() {
			if n > max {
				r = append(r, n)
			} else {
				add(n)
			}
		}
	}
	return r
}

func newKeyPair(seed, pub []byte) *crypto.KeyPair {
	kp := &crypto.KeyPair{}
	if seed != nil {
		kp.PrivateKey = crypto.NewPrivateKey(seed)
	}
	if pub != nil {
		kp.PublicKey = crypto.NewPublicKey(pub)
	}
	return kp
}

var pubCache = map[string][]byte{}

// pubOf is the reference public key of a private key.
func pubOf(seed []byte) []byte {
	if p, ok := pubCache[string(seed)]; ok {
		return append([]byte{}, p...)
	}
	p := ref.Public(ref.SHA3_512, seed)
	if len(pubCache) < 100000 {
		pubCache[string(seed)] = p
	}
	return append([]byte{}, p...)
}

func bi(x int64) *big.Int { return big.NewInt(x) }

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

func addB(x *big.Int, d int64) *big.Int { return new(big.Int).Add(x, big.NewInt(d)) }

func mulB(x *big.Int, d int64) *big.Int { return new(big.Int).Mul(x, big.NewInt(d)) }

// le32 writes x mod 2^256.
func le32(x *big.Int) []byte {
	return ref.ToLE(new(big.Int).And(x, new(big.Int).Sub(pow2(256), big.NewInt(1))), 32)
}

func le64(x *big.Int) []byte {
	return ref.ToLE(new(big.Int).And(x, new(big.Int).Sub(pow2(512), big.NewInt(1))), 64)
}

func sigOf(R, S []byte) *crypto.Signature { return &crypto.Signature{R: R, S: S} }

type limbs = [10]int64

func fval(f *crypto.Ed25519FieldElement) ref.Fe { return ref.FeFromLimbs([10]int64(f.Raw)) }

// gval reads an element of any representation as a point, by the definition of
// the representation. ok is false if it is not a point (bad Z, T or off the curve).
func gval(g *crypto.Ed25519GroupElement) (p ref.Point, ok bool) {
	if g == nil || g.X == nil || g.Y == nil || g.Z == nil {
		return
	}
	X, Y, Z := fval(g.X), fval(g.Y), fval(g.Z)
	var T ref.Fe
	if g.T != nil {
		T = fval(g.T)
	}
	switch g.GetCoordinateSystem() {
	case crypto.AFFINE:
		p = ref.FromAffine(X, Y)
		return p, ref.OnCurve(X, Y)
	case crypto.P2:
		if Z.IsZero() {
			return
		}
		// scale: (XZ : YZ : ZZ : XY)
		p = ref.Point{X: X.Mul(Z), Y: Y.Mul(Z), Z: Z.Sqr(), T: X.Mul(Y)}
	case crypto.P3:
		if g.T == nil || Z.IsZero() || X.Mul(Y) != Z.Mul(T) {
			return
		}
		p = ref.Point{X: X, Y: Y, Z: Z, T: T}
	case crypto.P1xP1:
		if g.T == nil || Z.IsZero() || T.IsZero() {
			return
		}
		p = ref.Point{X: X.Mul(T), Y: Y.Mul(Z), Z: Z.Mul(T), T: X.Mul(Y)}
	case crypto.PRECOMPUTED: // (y+x, y-x, 2dxy)
		half := ref.FeFromInt(2).Inv()
		x, y := X.Sub(Y).Mul(half), X.Add(Y).Mul(half)
		p = ref.FromAffine(x, y)
		if Z != ref.D2.Mul(x).Mul(y) {
			return p, false
		}
		return p, ref.OnCurve(x, y)
	case crypto.CACHED: // (Y+X, Y-X, Z, 2dT)
		if g.T == nil || Z.IsZero() {
			return
		}
		half := ref.FeFromInt(2).Inv()
		x, y := X.Sub(Y).Mul(half), X.Add(Y).Mul(half)
		// x, y are projective with Z; T' = 2dXY/Z
		if T.Mul(Z) != ref.D2.Mul(x).Mul(y) {
			return
		}
		p = ref.Point{X: x.Mul(Z), Y: y.Mul(Z), Z: Z.Sqr(), T: x.Mul(y)}
	default:
		return
	}
	return p, projOnCurve(p)
}

// projOnCurve checks -X^2 Z^2 + Y^2 Z^2 = Z^4 + d X^2 Y^2 and XY = ZT without inversion.
func projOnCurve(p ref.Point) bool {
	xx, yy, zz := p.X.Sqr(), p.Y.Sqr(), p.Z.Sqr()
	return !p.Z.IsZero() && yy.Sub(xx).Mul(zz) == zz.Sqr().Add(ref.D.Mul(xx).Mul(yy)) && p.X.Mul(p.Y) == p.Z.Mul(p.T)
}

// limbsOf writes a field value in the radix-2^25.5 form with limbs centred on 0.
func limbsOf(f ref.Fe) limbs {
	x := f.Big()
	var l limbs
	bitsN := [10]uint{26, 25, 26, 25, 26, 25, 26, 25, 26, 25}
	for i := range l {
		m := new(big.Int).And(x, new(big.Int).Sub(pow2(bitsN[i]), bi(1)))
		l[i] = m.Int64()
		x = new(big.Int).Rsh(x, bitsN[i])
	}
	for i := 0; i < 9; i++ {
		if l[i] > 1<<(bitsN[i]-1) {
			l[i] -= 1 << bitsN[i]
			l[i+1]++
		}
	}
	if l[9] > 1<<24 {
		l[9] -= 1 << 25
		l[0] += 19
	}
	return l
}

func feOf(f ref.Fe) *crypto.Ed25519FieldElement {
	return crypto.NewEd25519FieldElement(crypto.FieldElements(limbsOf(f)))
}

// limbVariants gives other limb vectors of the same value within the bounds |l| <= 1.1*2^25 / 1.1*2^24.
func limbVariants(f ref.Fe) []limbs {
	base := limbsOf(f)
	r := []limbs{base}
	// non-negative form
	nn := base
	bitsN := [10]uint{26, 25, 26, 25, 26, 25, 26, 25, 26, 25}
	for i := 0; i < 10; i++ {
		v := base
		j := (i + 1) % 10
		carry := int64(1)
		if i == 9 {
			carry = 19
		}
		if v[i] > 0 {
			v[i] -= 1 << bitsN[i]
			v[j] += carry
		} else {
			v[i] += 1 << bitsN[i]
			v[j] -= carry
		}
		if inBounds(v, 110, 25) {
			r = append(r, v)
		}
		if nn[i] > 0 {
			nn[i] -= 1 << bitsN[i]
			nn[j] += carry
		}
	}
	if nn != base && inBounds(nn, 110, 25) {
		r = append(r, nn)
	}
	return r
}

// inBounds: |l[i]| <= pct% of 2^e for even i and of 2^(e-1) for odd i.
func inBounds(l limbs, pct int64, e uint) bool {
	for i, v := range l {
		if v < 0 {
			v = -v
		}
		b := int64(1) << e
		if i%2 == 1 {
			b /= 2
		}
		if v*100 > b*pct {
			return false
		}
	}
	return true
}

// element builds the point in the wanted representation, with Z (and T) scaled.
func element(p ref.Point, sys crypto.CoordinateSystem, z, t ref.Fe) *crypto.Ed25519GroupElement {
	x, y := p.Affine()
	switch sys {
	case crypto.AFFINE:
		return crypto.NewEd25519GroupElementAffine(feOf(x), feOf(y), feOf(ref.One))
	case crypto.P2:
		return crypto.NewEd25519GroupElementP2(feOf(x.Mul(z)), feOf(y.Mul(z)), feOf(z))
	case crypto.P3:
		return crypto.NewEd25519GroupElementP3(feOf(x.Mul(z)), feOf(y.Mul(z)), feOf(z), feOf(x.Mul(y).Mul(z)))
	case crypto.P1xP1:
		return crypto.NewEd25519GroupElementP1XP1(feOf(x.Mul(z)), feOf(y.Mul(t)), feOf(z), feOf(t))
	case crypto.PRECOMPUTED:
		return crypto.NewEd25519GroupElementPrecomputed(feOf(y.Add(x)), feOf(y.Sub(x)), feOf(ref.D2.Mul(x).Mul(y)))
	case crypto.CACHED:
		return crypto.NewEd25519GroupElementCached(feOf(y.Add(x).Mul(z)), feOf(y.Sub(x).Mul(z)), feOf(z), feOf(ref.D2.Mul(x).Mul(y).Mul(z)))
	}
	panic("representation")
}

func sysName(c crypto.CoordinateSystem) string {
	return [...]string{"AFFINE", "P2", "P3", "P1xP1", "PRECOMPUTED", "CACHED"}[c]
}

func errStr(e error) string {
	if e == nil {
		return "nil"
	}
	return e.Error()
}

func new2(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }
