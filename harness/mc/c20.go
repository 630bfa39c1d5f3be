package main

import (
	"fmt"
	"math/big"

	crypto "github.com/proximax-storage/go-xpx-crypto"
	"verifharness/prerand"
	"verifharness/ref"
)

func init() { checks["C20"] = checkC20 }

var allSystems = []crypto.CoordinateSystem{crypto.AFFINE, crypto.P2, crypto.P3, crypto.P1xP1, crypto.PRECOMPUTED, crypto.CACHED}

// intAlphabet: integers in [0, 2^256).
func intAlphabet(thorough bool) []*big.Int {
	var r []*big.Int
	for i := int64(0); i < 40; i++ {
		r = append(r, bi(i))
	}
	for b := uint(5); b <= 256; b++ {
		for d := int64(-2); d <= 2; d++ {
			x := addB(pow2(b), d)
			if x.BitLen() <= 256 {
				r = append(r, x)
			}
		}
	}
	for k := int64(1); k <= 16; k++ {
		for d := int64(-20); d <= 20; d++ {
			for _, m := range []*big.Int{ref.L, ref.P} {
				x := addB(mulB(m, k), d)
				if x.BitLen() <= 256 {
					r = append(r, x)
				}
			}
		}
	}
	for i := 0; i < 32; i++ {
		for v := 1; v < 256; v += 6 {
			r = append(r, new(big.Int).Lsh(bi(int64(v)), uint(8*i)))
		}
		e := rep(0xff, 32)
		e[i] = 0
		r = append(r, ref.LE(e))
		r = append(r, ref.LE(ref.SHA3_256([]byte{byte(i)})[:i]))
	}
	n := 300
	if thorough {
		n = 20000
	}
	for i := 0; i < n; i++ {
		r = append(r, ref.LE(ref.SHA3_256([]byte{byte(i), byte(i >> 8), 20})))
	}
	return r
}

func checkC20(c *Ctx) {
	M := &crypto.MathUtils
	ints := intAlphabet(c.Thorough)

	c.Section("integers", fmt.Sprintf("%d integers below 2^256 (around powers of two and multiples of L and p, every byte position): bytes, field elements, encodings, reduction", len(ints)), func(s *Sec) {
		for i, x := range ints {
			s.Case(func(t *T) {
				x0 := new(big.Int).Set(x)
				b := le32(x)
				t.State(b)
				t.Sample(func() string { return fmt.Sprintf("integer %x", x) })
				if got := M.ToByteArray(x); !eq(got, b) {
					t.Failf("ToByteArray(%x) = %x", x0, got)
				}
				g := guard(b)
				if got := M.BytesToBigInteger(g.B); got.Cmp(x0) != 0 {
					t.Failf("BytesToBigInteger(%x) = %x, should be %x", b, got, x0)
				}
				e := M.ToEncodedFieldElement(x)
				if e == nil || !eq(e.Raw, b) || e.IsNonZero() != (x0.Sign() != 0) || e.IsNegative() != (x0.Bit(0) == 1) {
					t.Failf("ToEncodedFieldElement(%x) is wrong", x0)
					return
				}
				if got := M.EncodedFieldToBigInteger(e); got.Cmp(x0) != 0 {
					t.Failf("EncodedFieldToBigInteger(%x) = %x", b, got)
				}
				enc, _ := crypto.NewEd25519EncodedFieldElement(g.B)
				if red := M.ReduceModGroupOrder(enc); red == nil || !eq(red.Raw, le32(new(big.Int).Mod(x0, ref.L))) {
					t.Failf("ReduceModGroupOrder(%x) is wrong", x0)
				}
				if x0.BitLen() <= 255 {
					f := M.ToFieldElement(x)
					if f == nil || fval(f) != ref.FeFromBig(x0) {
						t.Failf("ToFieldElement(%x) is another value", x0)
						return
					}
					if got := M.FieldToBigInteger(f); got.Cmp(new(big.Int).Mod(x0, ref.P)) != 0 {
						t.Failf("FieldToBigInteger(ToFieldElement(%x)) = %x", x0, got)
					}
				}
				// 64 bytes
				y := new(big.Int).Add(new(big.Int).Lsh(ints[(i*7+3)%len(ints)], 256), x0)
				enc64, _ := crypto.NewEd25519EncodedFieldElement(le64(y))
				if red := M.ReduceModGroupOrder(enc64); red == nil || !eq(red.Raw, le32(new(big.Int).Mod(y, ref.L))) {
					t.Failf("ReduceModGroupOrder(%x) is wrong", y)
				}
				if got := M.EncodedFieldToBigInteger(enc64); got.Cmp(y) != 0 {
					t.Failf("EncodedFieldToBigInteger(%x) = %x", le64(y), got)
				}
				t.Ops(9)
				if x.Cmp(x0) != 0 {
					t.Failf("the integer %x was changed to %x", x0, x)
				}
				g.Check(t, "the bytes")
			})
		}
	})

	c.Section("byte-strings", "BytesToBigInteger of every length 0..130, every byte value at every position of 33", func(s *Sec) {
		for n := 0; n <= 130; n++ {
			for v := 0; v < 3; v++ {
				s.Case(func(t *T) {
					b := [][]byte{pattern(n, byte(n)), rep(0xff, n), append(rep(0, n/2), rep(0x80, n-n/2)...)}[v]
					g := guard(b)
					got := M.BytesToBigInteger(g.B)
					t.Ops(1)
					t.State(b)
					if got.Cmp(ref.LE(b)) != 0 {
						t.Failf("BytesToBigInteger(%x) = %x", b, got)
					}
					g.Check(t, "the bytes")
				})
			}
		}
		for i := 0; i < 33; i++ {
			s.Case(func(t *T) {
				for v := 0; v < 256; v++ {
					b := pattern(33, 5)
					b[i] = byte(v)
					if got := M.BytesToBigInteger(b); got.Cmp(ref.LE(b)) != 0 {
						t.Failf("BytesToBigInteger(%x) = %x", b, got)
						return
					}
					t.State(b)
				}
				t.Ops(256)
			})
		}
	})

	c.Section("limbs", "limb vectors (bounds, patterns, negative values): integer value and field value", func(s *Sec) {
		for _, l := range feAlphabet(bnd(110, 26)) {
			s.Case(func(t *T) {
				got := M.IntsToBigInteger(crypto.FieldElements(l))
				want := new(big.Int)
				for i, v := range l {
					want.Add(want, new(big.Int).Lsh(bi(v), []uint{0, 26, 51, 77, 102, 128, 153, 179, 204, 230}[i]))
				}
				t.Ops(2)
				t.State([]byte(fmt.Sprint(l)))
				if got.Cmp(want) != 0 {
					t.Failf("IntsToBigInteger(%v) = %x, should be %x", l, got, want)
				}
				f := mkFe(l)
				if got := M.FieldToBigInteger(&f); got.Cmp(new(big.Int).Mod(want, ref.P)) != 0 {
					t.Failf("FieldToBigInteger(%v) = %x, should be %x", l, got, new(big.Int).Mod(want, ref.P))
				}
				if limbs(f.Raw) != l {
					t.Failf("FieldToBigInteger changed its argument")
				}
			})
		}
	})

	if mulAdd, ok := hook[func(a, b, c []byte) []byte]("math.mulAdd"); ok {
		opt, okOpt := hook[func(a, b, c []byte) []byte]("efe.mulAdd")
		c.Section("mul-add", "(a*b+c) mod L for all triples of 24 integers, compared with the definition and the optimised function", func(s *Sec) {
			var xs []*big.Int
			for i := 0; i < len(ints); i += len(ints)/24 + 1 {
				xs = append(xs, ints[i])
			}
			xs = append(xs, ref.L, addB(ref.L, -1), addB(pow2(256), -1))
			for _, a := range xs {
				for _, b := range xs {
					s.Case(func(t *T) {
						for _, d := range xs {
							var g Guards
							A, B, C := g.New(le32(a)), g.New(le32(b)), g.New(le32(d))
							want := new(big.Int).Mul(a, b)
							want.Add(want, d).Mod(want, ref.L)
							got := mulAdd(A, B, C)
							t.Ops(1)
							t.State(A, B, C)
							if !eq(got, le32(want)) {
								t.Failf("multiplyAndAddModGroupOrder(%x, %x, %x) = %x, should be %x", a, b, d, got, le32(want))
								return
							}
							if okOpt {
								if o := opt(A, B, C); !eq(o, got) {
									t.Failf("the optimised a*b+c differs: %x %x %x: %x, %x", a, b, d, o, got)
									return
								}
							}
							if !g.Check(t, "an argument") {
								return
							}
						}
					})
				}
			}
		})
	} else {
		c.Skip("mul-add", "adapter missing")
	}

	if xm, ok := hook[func(x, y, z, t, d *big.Int) *big.Int]("math.xmuly"); ok {
		c.Section("quotient", "(x*y+z*t)/d modulo p for all quintuples of 12 integers (d not a multiple of p); the arguments stay as they are", func(s *Sec) {
			var xs []*big.Int
			for _, v := range []*big.Int{bi(0), bi(1), bi(2), addB(ref.P, -1), ref.P, addB(ref.P, 1), addB(pow2(255), -1), pow2(254), addB(pow2(64), -1), ref.LE(pattern(31, 77)), ref.LE(pattern(31, 78)), ref.L} {
				xs = append(xs, v)
			}
			for _, x := range xs {
				for _, y := range xs {
					s.Case(func(t *T) {
						for _, z := range xs {
							for _, u := range xs {
								for _, d := range xs {
									if new(big.Int).Mod(d, ref.P).Sign() == 0 {
										continue
									}
									var in [5]*big.Int
									for i, v := range []*big.Int{x, y, z, u, d} {
										in[i] = new(big.Int).Set(v)
									}
									got := xm(in[0], in[1], in[2], in[3], in[4])
									t.Ops(1)
									fx := func(b *big.Int) ref.Fe { return ref.FeFromBig(b) }
									want := fx(x).Mul(fx(y)).Add(fx(z).Mul(fx(u))).Mul(fx(d).Inv())
									if got == nil || got.Cmp(want.Big()) != 0 {
										t.Failf("(%v*%v+%v*%v)/%v = %v, should be %v", x, y, z, u, d, got, want.Big())
										return
									}
									for i, v := range []*big.Int{x, y, z, u, d} {
										if in[i].Cmp(v) != 0 {
											t.Failf("(%v*%v+%v*%v)/%v changed its argument %d", x, y, z, u, d, i)
											return
										}
									}
								}
							}
						}
						t.State(x.Bytes(), []byte{0}, y.Bytes())
					})
				}
			}
		})
	} else {
		c.Skip("quotient", "adapter missing")
	}

	ymax := int64(1500)
	if c.Thorough {
		ymax = 60000
	}
	pt := append(pts(12), bigPts(60)...)
	c.Section("decode", fmt.Sprintf("ToGroupElement and GetAffineXFromAffineY: every y < %d, y around p, single bits, %d points, both signs; compared with the definition and with Decode", ymax, len(pt)), func(s *Sec) {
		try := func(e []byte) {
			s.Case(func(t *T) {
				g := guard(e)
				got, err := M.ToGroupElement(g.B)
				p, ok := ref.Decode(e)
				t.Ops(2)
				t.State(e, []byte{byte(b2i(ok))})
				t.Outcome([]byte{byte(b2i(ok))})
				what := func() string { return fmt.Sprintf("ToGroupElement(%x)", e) }
				if ok != (err == nil) {
					t.Failf("%s: error %s; on the curve: %v", what(), errStr(err), ok)
					return
				}
				if ok && !isPoint(t, got, p, what) {
					return
				}
				if !g.Check(t, "the bytes") {
					return
				}
				yb := append([]byte{}, e...)
				yb[31] &= 0x7f
				y := ref.LE(yb)
				y0 := new(big.Int).Set(y)
				x, err := M.GetAffineXFromAffineY(y, e[31]>>7 == 1)
				if ok != (err == nil) {
					t.Failf("GetAffineXFromAffineY(%x): error %s; on the curve: %v", y0, errStr(err), ok)
					return
				}
				if ok {
					wx, _ := p.Affine()
					if x == nil || x.Cmp(wx.Big()) != 0 {
						t.Failf("GetAffineXFromAffineY(%x, %d) = %x, should be %x", y0, e[31]>>7, x, wx.Big())
						return
					}
				}
				if y.Cmp(y0) != 0 {
					t.Failf("GetAffineXFromAffineY changed its argument")
					return
				}
				opt, err2 := (&crypto.Ed25519EncodedGroupElement{Raw: append([]byte{}, e...)}).Decode()
				if ok != (err2 == nil) {
					t.Failf("Decode(%x): error %s, ToGroupElement: ok=%v", e, errStr(err2), ok)
					return
				}
				if ok {
					isPoint(t, opt, p, func() string { return fmt.Sprintf("Decode(%x)", e) })
				}
			})
		}
		for y := int64(0); y < ymax; y++ {
			for sign := byte(0); sign < 2; sign++ {
				e := le32(bi(y))
				e[31] |= sign << 7
				try(e)
				if y < 40 {
					e = le32(addB(ref.P, y-20))
					e[31] |= sign << 7
					try(e)
				}
			}
		}
		for bit := 0; bit < 256; bit++ {
			try(flip(rep(0, 32), bit))
			try(flip(rep(0xff, 32), bit))
			try(flip(pubOf(seedKey(0)), bit))
		}
		for _, p := range pt {
			try(p.p.Encode())
			try(flip(p.p.Encode(), 255))
		}
	})

	zv := zVariants()
	c.Section("representations", "every point of k*B+T8 (|k| <= 12) and 60 large ones x 6 x 6 representations x 5 scalings", func(s *Sec) {
		for _, p := range pt {
			for _, from := range allSystems {
				for zi, z := range zv {
					if (from == crypto.AFFINE || from == crypto.PRECOMPUTED) && zi > 0 {
						continue
					}
					s.Case(func(t *T) {
						g := element(p.p, from, z, zv[(zi+2)%len(zv)])
						sn := snapOf(g)
						for _, to := range allSystems {
							got, err := M.ToRepresentation(g, to)
							t.Ops(1)
							what := func() string {
								return fmt.Sprintf("ToRepresentation of %s from %s (scaling %d) to %s", p.name, sysName(from), zi, sysName(to))
							}
							if err != nil || got == nil || got.GetCoordinateSystem() != to {
								t.Failf("%s: error %s", what(), errStr(err))
								return
							}
							if !isPoint(t, got, p.p, what) {
								return
							}
							t.State([]byte(p.name), []byte{byte(from), byte(zi), byte(to)})
							if !sn.same() {
								t.Failf("%s changed its argument", what())
								return
							}
						}
					})
				}
			}
		}
	})

	o := groupOps()
	kp := int64(4)
	if c.Thorough {
		kp = 12
	}
	small := append(pts(kp), bigPts(8)...)
	c.Section("addition", fmt.Sprintf("all pairs of %d points (k*B+T8, |k| <= %d), P2 and P3, scaled: sum, and doubling and negation of each", len(small), kp), func(s *Sec) {
		for i, p := range small {
			for j, q := range small {
				s.Case(func(t *T) {
					sys := []crypto.CoordinateSystem{crypto.P2, crypto.P3}
					a := element(p.p, sys[(i+j)%2], zv[i%5], ref.One)
					b := element(q.p, sys[(i/2+j)%2], zv[j%5], ref.One)
					sa, sb := snapOf(a), snapOf(b)
					what := func() string {
						return fmt.Sprintf("AddGroupElements(%s (%s), %s (%s))", p.name, repName(a), q.name, repName(b))
					}
					got := M.AddGroupElements(a, b)
					t.Ops(1)
					t.State([]byte(p.name), []byte(q.name))
					if !isPoint(t, got, p.p.Add(q.p), what) {
						return
					}
					if got.GetCoordinateSystem() != crypto.P3 {
						t.Failf("%s: the result is not P3", what())
					}
					if !sa.same() || !sb.same() {
						t.Failf("%s changed an argument", what())
					}
					if o.add != nil && o.ca != nil {
						opt := o.toP3(o.add(element(p.p, crypto.P3, zv[i%5], ref.One), o.ca(element(q.p, crypto.P3, zv[j%5], ref.One))))
						isPoint(t, opt, p.p.Add(q.p), func() string { return "optimised sum of " + p.name + " and " + q.name })
					}
				})
			}
			s.Case(func(t *T) {
				for zi, z := range zv {
					for _, sys := range []crypto.CoordinateSystem{crypto.P2, crypto.P3} {
						a := element(p.p, sys, z, ref.One)
						sn := snapOf(a)
						if !isPoint(t, M.DoubleGroupElement(a), p.p.Add(p.p), func() string { return "DoubleGroupElement of " + p.name }) {
							return
						}
						if !sn.same() {
							t.Failf("DoubleGroupElement changed its argument")
						}
					}
					a := element(p.p, crypto.P3, z, ref.One)
					sn := snapOf(a)
					n := M.NegateGroupElement(a)
					if !isPoint(t, n, p.p.Neg(), func() string { return "NegateGroupElement of " + p.name }) {
						return
					}
					if !sn.same() {
						t.Failf("NegateGroupElement changed its argument")
					}
					t.Ops(3)
					t.State([]byte(p.name), []byte{byte(zi)})
				}
			})
		}
	})

	c.Section("scalar-multiplication", "scalars (0..16, single bits, around L and p, long runs) x points of every order; b*B-a*A", func(s *Sec) {
		var ks []*big.Int
		for k := int64(0); k <= 16; k++ {
			ks = append(ks, bi(k))
		}
		step := uint(9)
		if c.Thorough {
			step = 1
		}
		for b := uint(0); b < 255; b += step {
			ks = append(ks, pow2(b))
		}
		for _, m := range []*big.Int{ref.L, ref.P, mulB(ref.L, 8), mulB(ref.L, 4), pow2(254)} {
			for d := int64(-1); d <= 1; d++ {
				if x := addB(m, d); x.Cmp(ref.P) < 0 {
					ks = append(ks, x)
				}
			}
		}
		for i := 0; i < 6; i++ {
			ks = append(ks, new(big.Int).Mod(ref.LE(ref.SHA3_256([]byte{byte(i), 7})), ref.P))
		}
		pp := []point{pts(1)[8], pts(1)[9], pts(1)[12], pts(1)[16], pts(1)[17], bigPts(2)[0]}
		if c.Thorough {
			pp = append(pp, pts(1)...)
		}
		dsm, okD := hook[func(g1 ge, f1 fe, g2 ge, f2 fe) ge]("math.doubleScalar")
		for ki, k := range ks {
			for pi, p := range pp {
				if !c.Thorough && (ki+pi)%2 == 1 && ki > 24 {
					continue
				}
				s.Case(func(t *T) {
					g := element(p.p, crypto.P3, zv[(ki+pi)%5], ref.One)
					f := feOf(ref.FeFromBig(k))
					sn := snapOf(g)
					got := M.ScalarMultiplyGroupElement(g, *f)
					t.Ops(1)
					t.State([]byte(p.name), le32(k))
					isPoint(t, got, p.p.Mul(k), func() string { return fmt.Sprintf("ScalarMultiplyGroupElement(%s, %x)", p.name, k) })
					if !sn.same() {
						t.Failf("ScalarMultiplyGroupElement changed its argument")
					}
					if okD && ki%3 == 0 {
						k2 := ks[(ki*5+pi)%len(ks)]
						g2 := element(pp[(pi+1)%len(pp)].p, crypto.P3, zv[ki%5], ref.One)
						got := dsm(g, *f, g2, *feOf(ref.FeFromBig(k2)))
						t.Ops(1)
						isPoint(t, got, p.p.Mul(k).Sub(pp[(pi+1)%len(pp)].p.Mul(k2)), func() string {
							return fmt.Sprintf("doubleScalarMultiplyGroupElements(%s, %x, %s, %x)", p.name, k, pp[(pi+1)%len(pp)].name, k2)
						})
					}
				})
			}
		}
	})

	sparseHelpers(c)
	c.Section("random-helpers", "every random helper on 30 different streams: length, validity, and different streams give different values", func(s *Sec) {
		helpers := []struct {
			name string
			f    func(t *T) []byte
		}{
			{"GetRandomByteArray", func(t *T) []byte { return M.GetRandomByteArray(40) }},
			{"GetRandomInt64", func(t *T) []byte { return []byte(fmt.Sprint(M.GetRandomInt64())) }},
			{"GetRandomEncodedFieldElement(32)", func(t *T) []byte { return M.GetRandomEncodedFieldElement(32).Raw }},
			{"GetRandomEncodedFieldElement(64)", func(t *T) []byte { return M.GetRandomEncodedFieldElement(64).Raw }},
			{"GetRandomGroupElement", func(t *T) []byte {
				g := M.GetRandomGroupElement()
				p, ok := gval(g)
				if !ok || g.GetCoordinateSystem() != crypto.P3 {
					t.Failf("GetRandomGroupElement: not a point of the curve in P3: %s", dump(g))
					return nil
				}
				return p.Encode()
			}},
			{"GetRandomEncodedGroupElement", func(t *T) []byte {
				e := M.GetRandomEncodedGroupElement()
				if _, ok := ref.Decode(e.Raw); !ok || len(e.Raw) != 32 {
					t.Failf("GetRandomEncodedGroupElement: not a point of the curve: %x", e.Raw)
				}
				return e.Raw
			}},
			{"GetRandomFieldElement", func(t *T) []byte {
				f := M.GetRandomFieldElement()
				return []byte(fmt.Sprint(f.Raw))
			}},
		}
		for _, h := range helpers {
			s.Case(func(t *T) {
				seen := map[string]int{}
				for i := 0; i < 30; i++ {
					undo := prerand.Set(&tape{b: pattern(1<<16, byte(i+1))})
					v := h.f(t)
					undo()
					t.Ops(1)
					t.State([]byte(h.name), v)
					if h.name == "GetRandomByteArray" && len(v) != 40 {
						t.Failf("GetRandomByteArray(40) gives %d bytes", len(v))
						return
					}
					if j, dup := seen[string(v)]; dup {
						key := ""
						if h.name == "GetRandomFieldElement" && string(v) == "[16777216 16777216 16777216 16777216 16777216 16777216 16777216 16777216 16777216 16777216]" {
							key = "random-field-element-constant"
						}
						t.FailKey(key, "%s gives the same value %s on the random streams %d and %d", h.name, hx(v), j, i)
						return
					}
					seen[string(v)] = i
				}
			})
		}
		for n := 0; n <= 100; n++ {
			s.Case(func(t *T) {
				undo := prerand.Set(&tape{b: pattern(1000, byte(n))})
				v := M.GetRandomByteArray(n)
				undo()
				t.Ops(1)
				t.State(v)
				if len(v) != n {
					t.Failf("GetRandomByteArray(%d) gives %d bytes", n, len(v))
				}
			})
		}
	})
}
