package main

import (
	"fmt"
	"math/big"

	crypto "github.com/proximax-storage/go-xpx-crypto"
	"verifharness/ref"
)

func init() {
	checks["C15"] = checkC15
	checks["C16"] = checkC16
}

// bnd gives limb bounds of f*2^e / f*2^(e-1), in hundredths.
func bnd(pct int64, e uint) (b limbs) {
	for i := range b {
		v := int64(1) << e
		if i%2 == 1 {
			v /= 2
		}
		b[i] = v * pct / 100
	}
	return
}

func mkFe(l limbs) fe { return *crypto.NewEd25519FieldElement(crypto.FieldElements(l)) }

// feAlphabet: limb vectors inside the bound b.
func feAlphabet(b limbs) []limbs {
	var r []limbs
	r = append(r, limbs{})
	for i := 0; i < 10; i++ {
		for _, v := range []int64{1, -1, 2, b[i], -b[i], b[i] / 2, b[i]/2 + 1} {
			var l limbs
			l[i] = v
			r = append(r, l)
		}
	}
	var all, neg, alt, alt2, ev, od limbs
	for i := range b {
		all[i], neg[i] = b[i], -b[i]
		alt[i], alt2[i] = b[i], -b[i]
		if i%2 == 1 {
			alt[i], alt2[i] = -b[i], b[i]
			od[i] = b[i]
		} else {
			ev[i] = b[i]
		}
	}
	r = append(r, all, neg, alt, alt2, ev, od)
	for i := 0; i < 10; i++ {
		x, y := all, neg
		x[i], y[i] = -x[i], -y[i]
		r = append(r, x, y)
		x, y = all, neg
		x[i], y[i] = 0, 0
		r = append(r, x, y)
	}
	// values next to multiples of p and 2^255
	for k := int64(-3); k <= 3; k++ {
		for d := int64(-3); d <= 3; d++ {
			for _, base := range []*big.Int{ref.P, pow2(255)} {
				l := bigLimbs(addB(mulB(base, k), d))
				if within(l, b) {
					r = append(r, l)
				}
			}
		}
	}
	for i := 0; i < 24; i++ {
		h := ref.SHA3_512([]byte{byte(i), 42})
		var l limbs
		for j := range l {
			l[j] = ref.LE(h[6*j:6*j+6]).Int64()%(2*b[j]+1) - b[j]
		}
		r = append(r, l)
	}
	return r
}

func within(l, b limbs) bool {
	for i := range l {
		if l[i] > b[i] || l[i] < -b[i] {
			return false
		}
	}
	return true
}

// bigLimbs writes any integer of up to ~258 bits as limbs, low ones balanced, the top one taking the rest.
func bigLimbs(x *big.Int) limbs {
	var l limbs
	bitsN := [10]uint{26, 25, 26, 25, 26, 25, 26, 25, 26, 25}
	y := new(big.Int).Set(x)
	for i := 0; i < 9; i++ {
		m := new(big.Int).And(y, new(big.Int).Sub(pow2(bitsN[i]), bi(1)))
		v := m.Int64()
		if v > 1<<(bitsN[i]-1) {
			v -= 1 << bitsN[i]
		}
		l[i] = v
		y = new(big.Int).Rsh(new(big.Int).Sub(y, bi(v)), bitsN[i])
	}
	l[9] = y.Int64()
	return l
}

type fops struct {
	add, sub, mul          func(a, b fe) fe
	neg, sqr, sqrDbl, invt func(a fe) fe
	missing                []string
}

func fieldOps() *fops {
	o := &fops{}
	two := func(n string, p *func(a, b fe) fe) {
		f, ok := hook[func(a, b fe) fe](n)
		if !ok {
			o.missing = append(o.missing, n)
		}
		*p = f
	}
	one := func(n string, p *func(a fe) fe) {
		f, ok := hook[func(a fe) fe](n)
		if !ok {
			o.missing = append(o.missing, n)
		}
		*p = f
	}
	two("field.add", &o.add)
	two("field.sub", &o.sub)
	two("field.mul", &o.mul)
	one("field.neg", &o.neg)
	one("field.sqr", &o.sqr)
	one("field.sqrDbl", &o.sqrDbl)
	one("field.inv", &o.invt)
	return o
}

func checkC15(c *Ctx) {
	o := fieldOps()
	if len(o.missing) > 0 {
		c.Note("adapters that did not compile and are left out: %v", o.missing)
	}
	mulB0 := bnd(165, 26) // documented precondition of products
	addB0 := bnd(110, 25) // of sums
	encB0 := bnd(110, 26) // of encoding

	want := func(t *T, got fe, w ref.Fe, what func() string) bool {
		if fval(&got) != w {
			t.Failf("%s: value %x, want %x", what(), fval(&got).Bytes(), w.Bytes())
			return false
		}
		return true
	}

	// --- encoding, zero test, sign, equality
	encOne := func(t *T, l limbs) {
		f := mkFe(l)
		w := ref.FeFromLimbs(l)
		e := f.Encode()
		t.Ops(3)
		if !eq(e.Raw, w.Bytes()) {
			t.Failf("Encode of %v = %x, want %x", l, e.Raw, w.Bytes())
			return
		}
		if f.IsNonZero() == w.IsZero() {
			t.Failf("IsNonZero of %v = %v", l, f.IsNonZero())
			return
		}
		if f.IsNegative() != w.Odd() {
			t.Failf("IsNegative of %v = %v", l, f.IsNegative())
			return
		}
		if e.IsNonZero() == w.IsZero() || e.IsNegative() != w.Odd() {
			t.Failf("zero test or sign of the encoding of %v", l)
			return
		}
		if limbs(f.Raw) != l {
			t.Failf("encoding changed the element %v", l)
		}
		t.State(e.Raw)
		t.Outcome([]byte{byte(b2i(w.IsZero())), byte(b2i(w.Odd()))})
	}
	c.Section("encode-patterns", "Encode, IsNonZero, IsNegative of every limb vector over {-max,0,max} (documented bound 1.1*2^26): 3^10", func(s *Sec) {
		for v := 0; v < 59049; v++ {
			s.Case(func(t *T) {
				var l limbs
				x := v
				for i := range l {
					l[i] = int64(x%3-1) * encB0[i]
					x /= 3
				}
				t.Sample(func() string { return fmt.Sprint(l) })
				encOne(t, l)
			})
		}
	})
	c.Section("encode-multiples", "every representation near k*p + d and k*2^255 + d, k = -4..4, |d| <= 40 (400 thorough), with carries moved between limbs", func(s *Sec) {
		D := int64(40)
		if c.Thorough {
			D = 400
		}
		bitsN := [10]uint{26, 25, 26, 25, 26, 25, 26, 25, 26, 25}
		for k := int64(-4); k <= 4; k++ {
			for d := -D; d <= D; d++ {
				for _, base := range []*big.Int{ref.P, pow2(255)} {
					l := bigLimbs(addB(mulB(base, k), d))
					s.Case(func(t *T) {
						if within(l, encB0) {
							encOne(t, l)
						}
						for i := 0; i < 9; i++ {
							for _, m := range []int64{-1, 1} {
								v := l
								v[i] += m << bitsN[i]
								v[i+1] -= m
								if within(v, encB0) {
									encOne(t, v)
								}
							}
						}
					})
				}
			}
		}
	})
	c.Section("encode-forms", "Encode, IsNonZero, IsNegative and Equals with zero of k*p + d and k*2^255 + d, k = -2..2, |d| <= 20 (120 thorough), in all 2^9 digit forms (every digit either of the two values with the same residue below its base)", func(s *Sec) {
		D := int64(20)
		if c.Thorough {
			D = 120
		}
		zero := mkFe(limbs{})
		for k := int64(-2); k <= 2; k++ {
			for d := -D; d <= D; d++ {
				for _, base := range []*big.Int{ref.P, pow2(255)} {
					s.Case(func(t *T) {
						for _, l := range digitForms(addB(mulB(base, k), d)) {
							if !within(l, encB0) {
								continue
							}
							encOne(t, l)
							f := mkFe(l)
							if w := ref.FeFromLimbs(l).IsZero(); f.Equals(&zero) != w || zero.Equals(&f) != w {
								t.Failf("Equals of %v and zero = %v", l, !w)
								return
							}
						}
					})
				}
			}
		}
	})
	ea := feAlphabet(encB0)
	c.Section("encode-bits", "Encode and Equals of 2^i + d at every bit i, and all pairs of the limb alphabet", func(s *Sec) {
		for i := uint(0); i < 257; i++ {
			for d := int64(-2); d <= 2; d++ {
				s.Case(func(t *T) { encOne(t, bigLimbs(addB(pow2(i), d))) })
			}
		}
		for i, a := range ea {
			s.Case(func(t *T) {
				fa := mkFe(a)
				for _, b := range ea {
					fb := mkFe(b)
					w := ref.FeFromLimbs(a) == ref.FeFromLimbs(b)
					t.Ops(1)
					if fa.Equals(&fb) != w {
						t.Failf("Equals of %v and %v = %v", a, b, !w)
						return
					}
				}
				t.StateH(uint64(i))
			})
		}
	})
	// --- decoding
	c.Section("decode", "decoding every byte value at every position over 3 fillings, every bit pair, values around p and 2^255", func(s *Sec) {
		one := func(b []byte) {
			s.Case(func(t *T) {
				var g Guards
				e, err := crypto.NewEd25519EncodedFieldElement(g.New(b))
				if err != nil {
					t.Failf("%x refused: %v", b, err)
					return
				}
				f := e.Decode()
				t.Ops(2)
				w := ref.FeFromBytes(b)
				if fval(f) != w {
					t.Failf("Decode of %x has the value %x, want %x", b, fval(f).Bytes(), w.Bytes())
					return
				}
				if r := f.Encode(); !eq(r.Raw, w.Bytes()) {
					t.Failf("Encode of Decode of %x = %x, want %x", b, r.Raw, w.Bytes())
					return
				}
				g.Check(t, "the encoding")
				t.State(b)
			})
		}
		for _, base := range [][]byte{rep(0, 32), rep(0xff, 32), seedKey(5)} {
			for pos := 0; pos < 32; pos++ {
				for v := 0; v < 256; v++ {
					b := append([]byte{}, base...)
					b[pos] = byte(v)
					one(b)
				}
			}
		}
		for i := uint(0); i < 256; i++ {
			for j := uint(0); j < i; j++ {
				one(le32(new(big.Int).Add(pow2(i), pow2(j))))
				one(le32(new(big.Int).Sub(pow2(i), pow2(j))))
			}
		}
		for d := int64(-300); d < 300; d++ {
			one(le32(addB(ref.P, d)))
			one(le32(addB(pow2(255), d)))
		}
	})
	c.Section("encoded-lengths", "NewEd25519EncodedFieldElement for lengths 0..130: 32 and 64 only", func(s *Sec) {
		for n := 0; n <= 130; n++ {
			s.Case(func(t *T) {
				e, err := crypto.NewEd25519EncodedFieldElement(pattern(n, 4))
				t.Ops(1)
				if (err == nil) != (n == 32 || n == 64) || (err == nil) != (e != nil) {
					t.Failf("NewEd25519EncodedFieldElement of %d bytes: %v %s", n, e, errStr(err))
					return
				}
				if e != nil {
					z, _ := crypto.NewEd25519EncodedFieldElement(make([]byte, n))
					if z.IsNonZero() || !e.IsNonZero() || z.Equals(e) || !e.Equals(e) {
						t.Failf("zero test or equality of encodings of %d bytes", n)
					}
					for i := 0; i < n; i++ {
						b := make([]byte, n)
						b[i] = 1
						x, _ := crypto.NewEd25519EncodedFieldElement(b)
						t.Ops(1)
						if !x.IsNonZero() || x.Equals(z) {
							t.Failf("byte %d of %d is not seen by the zero test", i, n)
							return
						}
					}
				}
				t.State([]byte{byte(n)})
			})
		}
	})

	// --- one- and two-operand operations
	ma := feAlphabet(mulB0)
	aa := feAlphabet(addB0)
	if o.add != nil && o.sub != nil && o.neg != nil {
		c.Section("sums", fmt.Sprintf("sum, difference, negation of all pairs of %d limb vectors", len(aa)), func(s *Sec) {
			for i, a := range aa {
				for j, b := range aa {
					s.Case(func(t *T) {
						fa, fb := mkFe(a), mkFe(b)
						va, vb := ref.FeFromLimbs(a), ref.FeFromLimbs(b)
						t.Ops(3)
						what := func() string { return fmt.Sprintf("sum/difference/negation of %v and %v", a, b) }
						r := o.add(fa, fb)
						if !want(t, r, va.Add(vb), what) || !want(t, o.sub(fa, fb), va.Sub(vb), what) || !want(t, o.neg(fa), va.Neg(), what) {
							return
						}
						if e := r.Encode(); !eq(e.Raw, va.Add(vb).Bytes()) {
							t.Failf("Encode of the sum of %v and %v = %x", a, b, e.Raw)
						}
						t.StateH(uint64(i)<<16 | uint64(j))
					})
				}
			}
		})
	}
	if o.mul != nil && o.sqr != nil {
		mulCase := func(t *T, a, b limbs) {
			fa, fb := mkFe(a), mkFe(b)
			va, vb := ref.FeFromLimbs(a), ref.FeFromLimbs(b)
			t.Ops(1)
			r := o.mul(fa, fb)
			w := va.Mul(vb)
			if !want(t, r, w, func() string { return fmt.Sprintf("product of %v and %v", a, b) }) {
				return
			}
			// the product is fit for use: encode it, and square it
			if e := r.Encode(); !eq(e.Raw, w.Bytes()) {
				t.Failf("Encode of the product of %v and %v = %x, want %x", a, b, e.Raw, w.Bytes())
				return
			}
			if o.add != nil {
				d := o.add(r, r)
				want(t, o.mul(d, fb), w.Add(w).Mul(vb), func() string { return fmt.Sprintf("2ab*b with a=%v b=%v", a, b) })
				t.Ops(2)
			}
		}
		sqrCase := func(t *T, a limbs) {
			fa := mkFe(a)
			va := ref.FeFromLimbs(a)
			t.Ops(1)
			r := o.sqr(fa)
			w := va.Sqr()
			if !want(t, r, w, func() string { return fmt.Sprintf("square of %v", a) }) {
				return
			}
			if e := r.Encode(); !eq(e.Raw, w.Bytes()) {
				t.Failf("Encode of the square of %v = %x, want %x", a, e.Raw, w.Bytes())
				return
			}
			if o.sqrDbl != nil {
				d := o.sqrDbl(fa)
				t.Ops(1)
				if !want(t, d, w.Add(w), func() string { return fmt.Sprintf("doubled square of %v", a) }) {
					return
				}
				if e := d.Encode(); !eq(e.Raw, w.Add(w).Bytes()) {
					t.Failf("Encode of the doubled square of %v = %x", a, e.Raw)
				}
			}
		}
		c.Section("products", fmt.Sprintf("all pairs of %d limb vectors at the documented bound 1.65*2^26", len(ma)), func(s *Sec) {
			for i, a := range ma {
				for j, b := range ma {
					s.Case(func(t *T) {
						t.Sample(func() string { return fmt.Sprintf("%v * %v", a, b) })
						mulCase(t, a, b)
						t.StateH(uint64(i)<<16 | uint64(j))
					})
				}
			}
		})
		var part []limbs
		part = append(part, ma[71], ma[72], ma[73], ma[74], ma[len(ma)-1], ma[len(ma)-2]) // all, neg, alt, alt2, two hashed ones
		vals := 3
		if c.Thorough {
			vals = 5
		}
		total := 1
		for i := 0; i < 10; i++ {
			total *= vals
		}
		pat := func(v int) limbs {
			var l limbs
			for i := range l {
				switch {
				case vals == 3:
					l[i] = int64(v%3-1) * mulB0[i]
				default:
					l[i] = [5]int64{0, mulB0[i], -mulB0[i], mulB0[i]/2 + 1, 1}[v%5]
				}
				v /= vals
			}
			return l
		}
		c.Section("product-patterns", fmt.Sprintf("every limb vector over %d values (%d vectors) times 6 vectors, both orders", vals, total), func(s *Sec) {
			for v := 0; v < total; v++ {
				s.Case(func(t *T) {
					l := pat(v)
					n := len(part)
					if vals == 5 {
						n = 1
					}
					for k := 0; k < n; k++ {
						p := part[(k+v)%len(part)]
						mulCase(t, l, p)
						if t.failed {
							return
						}
						if vals == 3 {
							mulCase(t, p, l)
							if t.failed {
								return
							}
						}
					}
					t.StateH(uint64(v))
				})
			}
		})
		c.Section("square-patterns", fmt.Sprintf("square and doubled square of every limb vector over %d values (%d vectors)", vals, total), func(s *Sec) {
			for v := 0; v < total; v++ {
				s.Case(func(t *T) {
					sqrCase(t, pat(v))
					t.StateH(uint64(v))
				})
			}
			for _, a := range ma {
				s.Case(func(t *T) { sqrCase(t, a) })
			}
		})
		// every chain of operations of depth 3 (4 thorough) on the values reached
		if o.add != nil && o.sub != nil && o.neg != nil && o.invt != nil {
			type st struct {
				f fe
				v ref.Fe
				r bool // reduced: fit for a sum
			}
			type opn struct {
				name string
				f    func(a, b st) (st, bool)
			}
			ops := []opn{
				{"mul", func(a, b st) (st, bool) { return st{o.mul(a.f, b.f), a.v.Mul(b.v), true}, true }},
				{"sqr", func(a, b st) (st, bool) { return st{o.sqr(a.f), a.v.Sqr(), true}, true }},
				{"add", func(a, b st) (st, bool) {
					if !a.r || !b.r {
						return a, false
					}
					return st{o.add(a.f, b.f), a.v.Add(b.v), false}, true
				}},
				{"sub", func(a, b st) (st, bool) {
					if !a.r || !b.r {
						return a, false
					}
					return st{o.sub(a.f, b.f), a.v.Sub(b.v), false}, true
				}},
				{"neg", func(a, b st) (st, bool) { return st{o.neg(a.f), a.v.Neg(), a.r}, true }},
				{"recode", func(a, b st) (st, bool) { return st{*a.f.Encode().Decode(), a.v, true}, true }},
			}
			if o.sqrDbl != nil {
				ops = append(ops, opn{"sqrDbl", func(a, b st) (st, bool) { return st{o.sqrDbl(a.f), a.v.Sqr().Add(a.v.Sqr()), true}, true }})
			}
			depth := 4
			if c.Thorough {
				depth = 6
			}
			starts := [][2]limbs{{aa[71], aa[72]}, {aa[73], aa[71]}, {aa[len(aa)-1], aa[74]}, {aa[len(aa)-3], aa[len(aa)-4]}}
			c.Section("chains", fmt.Sprintf("every sequence of %d operations out of %d on two registers, from 4 extreme starting pairs", depth, len(ops)), func(s *Sec) {
				nc := 1
				for i := 0; i < depth; i++ {
					nc *= len(ops)
				}
				for si, start := range starts {
					for v := 0; v < nc; v++ {
						s.Case(func(t *T) {
							a := st{mkFe(start[0]), ref.FeFromLimbs(start[0]), true}
							b := st{mkFe(start[1]), ref.FeFromLimbs(start[1]), true}
							x := v
							var trace []string
							for i := 0; i < depth; i++ {
								op := ops[x%len(ops)]
								x /= len(ops)
								r, ok := op.f(a, b)
								if !ok {
									return
								}
								t.Ops(1)
								trace = append(trace, op.name)
								if fval(&r.f) != r.v {
									t.Failf("chain %v from %v: value %x, want %x", trace, start, fval(&r.f).Bytes(), r.v.Bytes())
									return
								}
								a, b = r, a
							}
							if e := a.f.Encode(); !eq(e.Raw, a.v.Bytes()) {
								t.Failf("chain %v from %v: Encode %x, want %x", trace, start, e.Raw, a.v.Bytes())
							}
							t.StateH(mix(uint64(si), a.v.Bytes()))
						})
					}
				}
			})
		}
	}
	if o.mul != nil && o.sqr != nil && o.add != nil && o.sub != nil {
		sp := sparseLimbs(c.Thorough)
		c.Section("sparse", fmt.Sprintf("all pairs of %d limb vectors with few nonzero limbs: product, square, sum, difference, and the product, square and encoding of these", len(sp)), func(s *Sec) {
			for i, a := range sp {
				for j, b := range sp {
					s.Case(func(t *T) {
						fa, fb := mkFe(a), mkFe(b)
						va, vb := ref.FeFromLimbs(a), ref.FeFromLimbs(b)
						t.Ops(8)
						what := func() string { return fmt.Sprintf("operations on %v and %v", a, b) }
						m, d := o.mul(fa, fb), o.sub(fa, fb)
						wm, wd := va.Mul(vb), va.Sub(vb)
						if !want(t, m, wm, what) || !want(t, d, wd, what) || !want(t, o.add(fa, fb), va.Add(vb), what) ||
							!want(t, o.mul(m, d), wm.Mul(wd), what) || !want(t, o.sqr(m), wm.Sqr(), what) || !want(t, o.sqr(d), wd.Sqr(), what) {
							return
						}
						if e := m.Encode(); !eq(e.Raw, wm.Bytes()) {
							t.Failf("Encode of the product of %v and %v = %x", a, b, e.Raw)
							return
						}
						if fa.Equals(&fb) != (va == vb) || d.IsNonZero() == (va == vb) {
							t.Failf("Equals, or zero test of the difference, of %v and %v", a, b)
						}
						t.StateH(uint64(i)<<16 | uint64(j))
					})
				}
				if o.invt != nil {
					s.Case(func(t *T) {
						q := o.sqr(o.sqr(o.sqr(mkFe(a))))
						w := ref.FeFromLimbs(a).Sqr().Sqr().Sqr()
						t.Ops(5)
						want(t, q, w, func() string { return fmt.Sprintf("eighth power of %v", a) })
						want(t, o.invt(q), w.Inv(), func() string { return fmt.Sprintf("inverse of the eighth power of %v", a) })
						want(t, o.invt(mkFe(a)), ref.FeFromLimbs(a).Inv(), func() string { return fmt.Sprintf("inverse of %v", a) })
						t.StateH(uint64(i)<<16 | 0xffff)
					})
				}
			}
		})
	}
	if o.invt != nil {
		c.Section("inverse", "inverse of the limb alphabet and of values around 0, p, powers of two", func(s *Sec) {
			ls := append([]limbs{}, ma...)
			for i := uint(0); i < 255; i += 3 {
				for d := int64(-1); d <= 1; d++ {
					ls = append(ls, limbsOf(ref.FeFromBig(addB(pow2(i), d))))
				}
			}
			for _, l := range ls {
				s.Case(func(t *T) {
					w := ref.FeFromLimbs(l).Inv()
					t.Ops(1)
					want(t, o.invt(mkFe(l)), w, func() string { return fmt.Sprintf("inverse of %v", l) })
					t.State([]byte(fmt.Sprint(l)))
				})
			}
		})
	}
	// --- square-root candidate: u*v^3*(u*v^7)^((p-5)/8)
	c.Section("sqrt", "square-root candidate of u/v for all pairs of a value alphabet: the defined value, squares recovered", func(s *Sec) {
		var vs []ref.Fe
		for i := int64(0); i < 12; i++ {
			vs = append(vs, ref.FeFromInt(i), ref.FeFromInt(-i), ref.FeFromInt(i).Mul(ref.D))
		}
		for i := 0; i < 14; i++ {
			vs = append(vs, ref.FeFromBytes(seedKey(i)))
		}
		e := new(big.Int).Rsh(new(big.Int).Sub(ref.P, bi(5)), 3)
		var ew ref.Fe
		for i := 0; i < 4; i++ {
			ew[i] = new(big.Int).And(new(big.Int).Rsh(e, uint(64*i)), new(big.Int).Sub(pow2(64), bi(1))).Uint64()
		}
		for i, u := range vs {
			for j, v := range vs {
				s.Case(func(t *T) {
					x := crypto.Ed25519FieldElementSqrt(*feOf(u), *feOf(v))
					t.Ops(1)
					v3 := v.Sqr().Mul(v)
					w := u.Mul(v3).Mul(u.Mul(v3.Sqr()).Mul(v).Pow(ew))
					if fval(&x) != w {
						t.Failf("square-root candidate of %x / %x = %x, want %x", u.Bytes(), v.Bytes(), fval(&x).Bytes(), w.Bytes())
					}
					t.StateH(uint64(i)<<16 | uint64(j))
				})
			}
		}
	})
	c.Section("constants", "field constants, two calls each; a caller changes the zero byte slices he got", func(s *Sec) {
		type k struct {
			name string
			f    func() *fe
			w    ref.Fe
		}
		for _, x := range []k{{"D", crypto.Ed25519FieldD, ref.D}, {"2D", crypto.Ed25519FieldDTimesTwo, ref.D2}, {"0", crypto.Ed25519FieldZero, ref.Zero},
			{"1", crypto.Ed25519FieldOne, ref.One}, {"2", crypto.Ed25519FieldTWO, ref.FeFromInt(2)}} {
			s.Case(func(t *T) {
				for i := 0; i < 2; i++ {
					f := x.f()
					t.Ops(1)
					if fval(f) != x.w {
						t.Failf("constant %s has the value %x (call %d)", x.name, fval(f).Bytes(), i)
						return
					}
				}
				t.State([]byte(x.name))
			})
		}
		s.Case(func(t *T) {
			for i := 0; i < 2; i++ {
				p := crypto.Ed25519FieldP()
				z, zl := crypto.Ed25519FieldZeroShort(), crypto.Ed25519FieldZeroLong()
				t.Ops(3)
				if p.Cmp(ref.P) != 0 || !eq(z, rep(0, 32)) || !eq(zl, rep(0, 64)) {
					t.Failf("P or zero encodings are wrong in call %d", i)
					return
				}
				z[0], zl[0] = 1, 1
			}
		})
	})
}

// ---------------------------------------------------------------- C16

func checkC16(c *Ctx) {
	modQ, ok1 := hook[func(a []byte) []byte]("efe.modQ")
	mulAdd, ok2 := hook[func(a, b, c []byte) []byte]("efe.mulAdd")
	max21 := int64(1<<21 - 1)

	reduceCase := func(t *T, x *big.Int, what string) {
		var g Guards
		got := modQ(g.New(le64(x)))
		t.Ops(1)
		w := ref.ToLE(new(big.Int).Mod(x, ref.L), 32)
		if !eq(got, w) {
			t.Failf("%s: %x mod L (little-endian) = %x, want %x", what, le64(x), got, w)
			return
		}
		g.Check(t, "the number")
		t.State(w)
	}
	if ok1 {
		c.Section("reduce-multiples", "k*L + d: k = 0..255, 2^i, 2^i-1 up to 2^260 and the largest ones, |d| <= 20", func(s *Sec) {
			var ks []*big.Int
			for i := int64(0); i < 256; i++ {
				ks = append(ks, bi(i))
			}
			for i := uint(8); i <= 260; i++ {
				ks = append(ks, pow2(i), addB(pow2(i), -1), addB(pow2(i), 1))
			}
			top := new(big.Int).Div(pow2(512), ref.L)
			for i := int64(0); i < 40; i++ {
				ks = append(ks, addB(top, -i))
			}
			for i := 0; i < 200; i++ {
				h := ref.SHA3_512([]byte{byte(i), 61})
				ks = append(ks, new(big.Int).Mod(ref.LE(h[:33]), top))
			}
			for _, k := range ks {
				for d := int64(-20); d <= 20; d++ {
					x := addB(new(big.Int).Mul(k, ref.L), d)
					if x.Sign() < 0 || x.BitLen() > 512 {
						continue
					}
					s.Case(func(t *T) {
						t.Sample(func() string { return fmt.Sprintf("%v*L + %d", k, d) })
						reduceCase(t, x, "near a multiple of L")
					})
				}
			}
		})
		c.Section("reduce-bits", "2^i +- 2^j for every i, j < 512", func(s *Sec) {
			for i := uint(0); i <= 512; i++ {
				for j := uint(0); j < i; j++ {
					s.Case(func(t *T) {
						reduceCase(t, new(big.Int).Sub(pow2(i), pow2(j)), "two bits")
						if i < 512 {
							reduceCase(t, new(big.Int).Add(pow2(i), pow2(j)), "two bits")
						}
					})
				}
			}
		})
		c.Section("reduce-bytes", "every byte value at every one of 64 positions over 3 fillings", func(s *Sec) {
			for _, base := range [][]byte{rep(0, 64), rep(0xff, 64), pattern(64, 9)} {
				for pos := 0; pos < 64; pos++ {
					for v := 0; v < 256; v++ {
						s.Case(func(t *T) {
							b := append([]byte{}, base...)
							b[pos] = byte(v)
							reduceCase(t, ref.LE(b), "bytes")
						})
					}
				}
			}
		})
		nb := uint(22)
		if c.Thorough {
			nb = 24
		}
		c.Section("reduce-limbs", fmt.Sprintf("every vector of %d 21-bit digits that are 0 or all ones (the highest ones of the 512-bit number), 2^%d numbers", nb, nb), func(s *Sec) {
			// digits of 21 bits; the top one has 29 bits
			var w [24]*big.Int
			for i := range w {
				m := max21
				if i == 23 {
					m = 1<<29 - 1
				}
				w[i] = new(big.Int).Lsh(bi(m), uint(21*i))
			}
			x := new(big.Int)
			out := make([]byte, 64)
			mod := new(big.Int)
			for v := uint32(0); v < 1<<nb; v++ {
				s.Case(func(t *T) {
					x.SetInt64(0)
					for i := 0; i < 24; i++ {
						on := false
						if uint(i) >= 24-nb {
							on = v>>(uint(i)-(24-nb))&1 == 1
						} else {
							on = v&1 == 1
						}
						if on {
							x.Or(x, w[i])
						}
					}
					x.FillBytes(out)
					for i := 0; i < 32; i++ {
						out[i], out[63-i] = out[63-i], out[i]
					}
					got := modQ(out)
					t.Ops(1)
					mod.Mod(x, ref.L)
					wb := ref.ToLE(mod, 32)
					if !eq(got, wb) {
						t.Failf("%x mod L (little-endian) = %x, want %x", out, got, wb)
					}
					t.State(wb)
				})
			}
		})
		c.Section("reduce-digit-pairs", "two 21-bit digits out of 24 with values from {1, 2^20-1, 2^20, 2^20+1, max-1, max}, the others all 0 or all max", func(s *Sec) {
			vals := []int64{1, 1<<20 - 1, 1 << 20, 1<<20 + 1, max21 - 1, max21, 0}
			for bg := 0; bg < 2; bg++ {
				for i := 0; i < 24; i++ {
					for j := 0; j <= i; j++ {
						for _, a := range vals {
							for _, b := range vals {
								s.Case(func(t *T) {
									x := new(big.Int)
									for k := 23; k >= 0; k-- {
										d := int64(0)
										if bg == 1 {
											d = max21
											if k == 23 {
												d = 1<<29 - 1
											}
										}
										if k == i {
											d = a
										}
										if k == j {
											d = b
										}
										x.Or(x, new(big.Int).Lsh(bi(d), uint(21*k)))
									}
									reduceCase(t, x, "two digits")
								})
							}
						}
					}
				}
			}
		})
	} else {
		c.Skip("reduce", "adapter efe.modQ missing")
	}
	if ok2 {
		maCase := func(t *T, a, b, d []byte, what string) {
			var g Guards
			got := mulAdd(g.New(a), g.New(b), g.New(d))
			t.Ops(1)
			x := new(big.Int).Mul(ref.LE(a), ref.LE(b))
			x.Add(x, ref.LE(d)).Mod(x, ref.L)
			w := ref.ToLE(x, 32)
			if !eq(got, w) {
				t.Failf("%s: a*b+c mod L with a=%x b=%x c=%x (little-endian) = %x, want %x", what, a, b, d, got, w)
				return
			}
			g.Check(t, "an operand")
			t.State(w)
		}
		var al [][]byte
		addA := func(x *big.Int) { al = append(al, le32(x)) }
		for i := int64(0); i < 4; i++ {
			addA(bi(i))
			addA(addB(pow2(256), -1-i))
			for k := int64(1); k <= 15; k += 7 {
				addA(addB(mulB(ref.L, k), i))
				addA(addB(mulB(ref.L, k), -1-i))
			}
			addA(addB(pow2(252), i))
			addA(addB(pow2(255), -i))
		}
		for i := uint(20); i < 256; i += 21 {
			addA(pow2(i))
			addA(addB(pow2(i), -1))
			addA(pow2(i + 1))
		}
		for i := 0; i < 6; i++ {
			al = append(al, seedKey(i))
		}
		c.Section("muladd", fmt.Sprintf("a*b+c for all triples of %d values", len(al)), func(s *Sec) {
			for i, a := range al {
				for j, b := range al {
					for k, d := range al {
						if !c.Thorough && (i+j+k)%3 != 0 {
							s.idx++
							continue
						}
						s.Case(func(t *T) {
							t.Sample(func() string { return fmt.Sprintf("a=%x b=%x c=%x", a, b, d) })
							maCase(t, a, b, d, "triple")
						})
					}
				}
			}
		})
		digits := func(v int) []byte {
			x := new(big.Int)
			for i := 11; i >= 0; i-- {
				if v>>uint(i)&1 == 1 {
					m := max21
					if i == 11 {
						m = 1<<25 - 1
					}
					x.Or(x, new(big.Int).Lsh(bi(m), uint(21*i)))
				}
			}
			return le32(x)
		}
		var dg [4096][]byte
		for v := range dg {
			dg[v] = digits(v)
		}
		c.Section("muladd-limbs", "every a whose twelve 21-bit digits are 0 or all ones times such b of a smaller set (thorough: all 4096 x 4096), c of three kinds", func(s *Sec) {
			var bs []int
			if c.Thorough {
				for v := 0; v < 4096; v++ {
					bs = append(bs, v)
				}
			} else {
				for i := 0; i < 12; i++ {
					bs = append(bs, 1<<uint(i), 4095^1<<uint(i))
				}
				bs = append(bs, 4095, 0xaaa, 0x555, 0xf0f, 0x0f0, 0x333, 0xccc, 0x7ff, 0xffe)
			}
			cs := [][]byte{rep(0, 32), rep(0xff, 32), le32(addB(ref.L, -1))}
			for a := 0; a < 4096; a++ {
				for bi, b := range bs {
					s.Case(func(t *T) {
						maCase(t, dg[a], dg[b], cs[(a+bi)%3], "saturated digits")
					})
				}
			}
		})
		c.Section("muladd-small", "a*b+c where the result is next to 0 or L: a*b = q*L + r with small r, c cancelling", func(s *Sec) {
			for i := 0; i < 300; i++ {
				a, b := ref.SHA3_256([]byte{byte(i), byte(i >> 8), 1}), ref.SHA3_256([]byte{byte(i), byte(i >> 8), 2})
				x := new(big.Int).Mul(ref.LE(a), ref.LE(b))
				neg := new(big.Int).Sub(ref.L, x.Mod(x, ref.L))
				for d := int64(-12); d <= 12; d++ {
					cc := addB(neg, d)
					if cc.Sign() < 0 {
						continue
					}
					s.Case(func(t *T) {
						maCase(t, a, b, le32(cc), "next to 0")
						maCase(t, a, b, le32(new(big.Int).Add(cc, mulB(ref.L, 14))), "next to 0, big c")
					})
				}
			}
		})
	} else {
		c.Skip("muladd", "adapter efe.mulAdd missing")
	}
	if !ok1 || !ok2 {
		// by the exported surface: MakeSignatureCanonical reduces 32-byte S
		c.Section("api", "reduction through MakeSignatureCanonical", func(s *Sec) {
			for _, S := range sAlphabet(false) {
				s.Case(func(t *T) {
					sg := crypto.NewEd25519DsaSigner(newKeyPair(nil, pubOf(seedKey(0))))
					can, err := sg.MakeSignatureCanonical(sigOf(rep(1, 32), S))
					t.Ops(1)
					w := le32(new(big.Int).Mod(ref.LE(S), ref.L))
					if err != nil || !eq(can.S, w) {
						t.Failf("S=%x reduces to %v, want %x", S, can, w)
					}
					t.State(S)
				})
			}
		})
	}
}

// digitForms are the 512 limb vectors of v that differ in whether a carry is
// taken out of each of the nine lower limbs.
func digitForms(v *big.Int) []limbs {
	bits := [10]uint{26, 25, 26, 25, 26, 25, 26, 25, 26, 25}
	var out []limbs
	base := bigLimbs(v)
	for mask := 0; mask < 512; mask++ {
		l := base
		for i := 0; i < 9; i++ {
			if mask>>i&1 == 0 {
				continue
			}
			m := int64(1)
			if l[i] > 0 {
				m = -1
			}
			l[i] += m << bits[i]
			l[i+1] -= m
		}
		out = append(out, l)
	}
	return out
}
