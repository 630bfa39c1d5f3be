package ref

import "math/big"

// Point is a point of -x^2+y^2 = 1+d x^2 y^2 in extended coordinates.
type Point struct{ X, Y, Z, T Fe }

var (
	D      = FeFromInt(-121665).Mul(FeFromInt(121666).Inv())
	D2     = D.Add(D)
	SqrtM1 = FeFromInt(2).Pow(feFromBigRaw(new(big.Int).Rsh(new(big.Int).Sub(P, big.NewInt(1)), 2)))
	L, _   = new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)

	Neutral = Point{Zero, One, One, Zero}
	B       = mustDecode(basePointBytes())
	bTab    = windowTable(B)
)

func feFromBigRaw(x *big.Int) Fe {
	b := ToLE(x, 32)
	var r Fe
	for i := 0; i < 32; i++ {
		r[i/8] |= uint64(b[i]) << (8 * uint(i%8))
	}
	return r
}

func basePointBytes() []byte {
	// y = 4/5, x even
	return FeFromInt(4).Mul(FeFromInt(5).Inv()).Bytes()
}

func mustDecode(b []byte) Point {
	p, ok := Decode(b)
	if !ok {
		panic("ref: not a point")
	}
	return p
}

// Add is the complete unified addition (a=-1, d non-square).
func (p Point) Add(q Point) Point {
	a := p.Y.Sub(p.X).Mul(q.Y.Sub(q.X))
	b := p.Y.Add(p.X).Mul(q.Y.Add(q.X))
	c := p.T.Mul(D2).Mul(q.T)
	zz := p.Z.Mul(q.Z)
	d := zz.Add(zz)
	e := b.Sub(a)
	f := d.Sub(c)
	g := d.Add(c)
	h := b.Add(a)
	return Point{e.Mul(f), g.Mul(h), f.Mul(g), e.Mul(h)}
}

func (p Point) Neg() Point { return Point{p.X.Neg(), p.Y, p.Z, p.T.Neg()} }

func (p Point) Sub(q Point) Point { return p.Add(q.Neg()) }

func (p Point) Dbl() Point { return p.Add(p) }

func (p Point) Equal(q Point) bool {
	return p.X.Mul(q.Z) == q.X.Mul(p.Z) && p.Y.Mul(q.Z) == q.Y.Mul(p.Z)
}

func (p Point) Affine() (x, y Fe) {
	i := p.Z.Inv()
	return p.X.Mul(i), p.Y.Mul(i)
}

func FromAffine(x, y Fe) Point { return Point{x, y, One, x.Mul(y)} }

func OnCurve(x, y Fe) bool {
	xx, yy := x.Sqr(), y.Sqr()
	return yy.Sub(xx) == One.Add(D.Mul(xx).Mul(yy))
}

// Valid says that the coordinates are a point of the curve in extended form.
func (p Point) Valid() bool {
	if p.Z.IsZero() || p.X.Mul(p.Y) != p.Z.Mul(p.T) {
		return false
	}
	return OnCurve(p.Affine())
}

func (p Point) Encode() []byte {
	x, y := p.Affine()
	b := y.Bytes()
	if x.Odd() {
		b[31] |= 0x80
	}
	return b
}

// RecoverX returns the x with the wanted parity (0 has only one), if y is on the curve.
func RecoverX(y Fe, odd bool) (Fe, bool) {
	if !Memo {
		return recoverX(y, odd)
	}
	type res struct {
		x  Fe
		ok bool
	}
	r := memo(func() res { x, ok := recoverX(y, odd); return res{x, ok} }, "x", y, odd)
	return r.x, r.ok
}

func recoverX(y Fe, odd bool) (Fe, bool) {
	yy := y.Sqr()
	u := yy.Sub(One)
	v := D.Mul(yy).Add(One)
	// v is never 0 because -1/d is not a square
	w := u.Mul(v.Inv()) // x^2
	// candidate w^((p+3)/8)
	e := feFromBigRaw(new(big.Int).Rsh(new(big.Int).Add(P, big.NewInt(3)), 3))
	x := w.Pow(e)
	if x.Sqr() != w {
		x = x.Mul(SqrtM1)
	}
	if x.Sqr() != w {
		return Fe{}, false
	}
	if x.Odd() != odd {
		x = x.Neg()
	}
	return x, true
}

// Decode reads 32 bytes: y modulo p from the low 255 bits, parity of x from the top bit.
// x = 0 with the top bit set and y >= p are accepted, as in the library.
func Decode(b []byte) (Point, bool) {
	if len(b) != 32 {
		return Point{}, false
	}
	y := FeFromBytes(b)
	x, ok := RecoverX(y, b[31]&0x80 != 0)
	if !ok {
		return Point{}, false
	}
	return FromAffine(x, y), true
}

// PowTable lists 2^i * p for i = 0..255.
func PowTable(p Point) []Point {
	t := make([]Point, 256)
	for i := range t {
		t[i] = p
		p = p.Dbl()
	}
	return t
}

// MulTable computes k*p, 0 <= k < 2^256, from the table of p.
func MulTable(t []Point, k *big.Int) Point {
	if !Memo {
		return mulTable(t, k)
	}
	return memo(func() Point { return mulTable(t, k) }, "table", t[0], k)
}

func mulTable(t []Point, k *big.Int) Point {
	r := Neutral
	for i := 0; i < k.BitLen(); i++ {
		if k.Bit(i) == 1 {
			r = r.Add(t[i])
		}
	}
	return r
}

// windowTable lists j*16^i*p.
func windowTable(p Point) (t [64][16]Point) {
	for i := range t {
		t[i][0] = Neutral
		for j := 1; j < 16; j++ {
			x, y := t[i][j-1].Add(p).Affine()
			t[i][j] = FromAffine(x, y)
		}
		p = p.Dbl().Dbl().Dbl().Dbl()
	}
	return
}

// BaseMul computes k*B, 0 <= k < 2^256.
func BaseMul(k *big.Int) Point {
	if !Memo {
		return baseMul(k)
	}
	return memo(func() Point { return baseMul(k) }, "base", k)
}

func baseMul(k *big.Int) Point {
	b := ToLE(k, 32)
	r := Neutral
	for i, v := range b {
		if v&15 != 0 {
			r = r.Add(bTab[2*i][v&15])
		}
		if v>>4 != 0 {
			r = r.Add(bTab[2*i+1][v>>4])
		}
	}
	return r
}

// Mul computes k*p for any k (negative ones included).
func (p Point) Mul(k *big.Int) Point {
	if !Memo {
		return p.mul(k)
	}
	return memo(func() Point { return p.mul(k) }, "mul", p, k)
}

func (p Point) mul(k *big.Int) Point {
	if k.Sign() < 0 {
		return p.Neg().mul(new(big.Int).Neg(k))
	}
	r := Neutral
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = r.Dbl()
		if k.Bit(i) == 1 {
			r = r.Add(p)
		}
	}
	return r
}

func (p Point) MulInt(k int64) Point { return p.Mul(big.NewInt(k)) }

// Torsion lists the eight points of small order: Torsion[i] = i*T with T of order 8.
var Torsion = func() (r [8]Point) {
	for v := int64(2); ; v++ {
		p, ok := Decode(FeFromInt(v).Bytes())
		if !ok {
			continue
		}
		t := p.Mul(L)
		if t.MulInt(4).Equal(Neutral) {
			continue
		}
		if !t.MulInt(8).Equal(Neutral) {
			panic("ref: torsion")
		}
		r[0] = Neutral
		for i := 1; i < 8; i++ {
			x, y := r[i-1].Add(t).Affine()
			r[i] = FromAffine(x, y)
		}
		return
	}
}()
