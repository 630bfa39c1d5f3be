package main

import (
	"fmt"
	"math/big"

	crypto "github.com/proximax-storage/go-xpx-crypto"
	"verifharness/ref"
)

func init() {
	checks["C13"] = checkC13
	checks["C14"] = checkC14
	checks["C17"] = checkC17
}

type (
	ge = *crypto.Ed25519GroupElement
	fe = crypto.Ed25519FieldElement
)

type point struct {
	name string
	k    int64
	t    int
	p    ref.Point
}

// pts: k*B + T for small k and every T of small order, and a few large multiples.
func pts(kmax int64) []point {
	var r []point
	for k := -kmax; k <= kmax; k++ {
		for t := range ref.Torsion {
			x, y := ref.B.MulInt(k).Add(ref.Torsion[t]).Affine()
			r = append(r, point{fmt.Sprintf("%d*B+%d*T8", k, t), k, t, ref.FromAffine(x, y)})
		}
	}
	return r
}

func bigPts(n int) []point {
	var r []point
	for i := 0; i < n; i++ {
		s := new(big.Int).Mod(ref.LE(ref.SHA3_512([]byte{byte(i), byte(i >> 8), 99})), ref.L)
		x, y := ref.BaseMul(s).Add(ref.Torsion[i%8]).Affine()
		r = append(r, point{fmt.Sprintf("hash(%d)*B+%d*T8", i, i%8), int64(1000 + i), i % 8, ref.FromAffine(x, y)})
	}
	return r
}

func zVariants() []ref.Fe {
	return []ref.Fe{ref.One, ref.FeFromInt(-1), ref.FeFromInt(2), ref.FeFromBytes(append(ref.SHA3_256([]byte("z"))[:31], 0x7f)), ref.SqrtM1}
}

type snap struct {
	g ge
	f [4]limbs
	n [4]bool
	c crypto.CoordinateSystem
}

func snapOf(g ge) snap {
	s := snap{g: g, c: g.GetCoordinateSystem()}
	for i, f := range []*fe{g.X, g.Y, g.Z, g.T} {
		if f != nil {
			s.n[i] = true
			s.f[i] = limbs(f.Raw)
		}
	}
	return s
}

func (s snap) same() bool {
	t := snapOf(s.g)
	return t.f == s.f && t.n == s.n && t.c == s.c
}

func isPoint(t *T, g ge, want ref.Point, what func() string) bool {
	p, ok := gval(g)
	if !ok {
		t.Failf("%s: the result (%s) is not a point of the curve in its representation: %s", what(), repName(g), dump(g))
		return false
	}
	if !p.Equal(want) {
		x, y := p.Affine()
		wx, wy := want.Affine()
		t.Failf("%s: got the point (%x, %x), want (%x, %x)", what(), x.Bytes(), y.Bytes(), wx.Bytes(), wy.Bytes())
		return false
	}
	return true
}

func repName(g ge) string {
	if g == nil {
		return "nil"
	}
	return sysName(g.GetCoordinateSystem())
}

func dump(g ge) string {
	if g == nil {
		return "nil"
	}
	s := ""
	for i, f := range []*fe{g.X, g.Y, g.Z, g.T} {
		if f != nil {
			s += fmt.Sprintf("%c=%v ", "XYZT"[i], f.Raw)
		}
	}
	return s
}

type gops struct {
	add, sub           func(a, b ge) ge
	dbl, p2, p3, ca    func(a ge) ge
	neg                func(a ge) (ge, error)
	padd               func(a, b ge) (ge, error)
	psub               func(a, b ge) ge
	scal               func(g ge, a []byte) (ge, error)
	dscal              func(A ge, a, b []byte) (ge, error)
	missing            []string
	hasP3, hasPA, hasC bool
}

func groupOps() *gops {
	o := &gops{}
	get := func(name string, p interface{}) {
		ok := false
		switch f := p.(type) {
		case *func(a, b ge) ge:
			*f, ok = hook[func(a, b ge) ge](name)
		case *func(a ge) ge:
			*f, ok = hook[func(a ge) ge](name)
		case *func(a ge) (ge, error):
			*f, ok = hook[func(a ge) (ge, error)](name)
		case *func(a, b ge) (ge, error):
			*f, ok = hook[func(a, b ge) (ge, error)](name)
		case *func(g ge, a []byte) (ge, error):
			*f, ok = hook[func(g ge, a []byte) (ge, error)](name)
		case *func(A ge, a, b []byte) (ge, error):
			*f, ok = hook[func(A ge, a, b []byte) (ge, error)](name)
		}
		if !ok {
			o.missing = append(o.missing, name)
		}
	}
	get("group.add", &o.add)
	get("group.sub", &o.sub)
	get("group.dbl", &o.dbl)
	get("group.toP2", &o.p2)
	get("group.toP3", &o.p3)
	get("group.toCached", &o.ca)
	get("group.neg", &o.neg)
	get("group.precAdd", &o.padd)
	get("group.precSub", &o.psub)
	get("group.scalarMul", &o.scal)
	get("group.doubleScalar", &o.dscal)
	o.hasP3 = o.p3 != nil
	o.hasPA = o.padd != nil && o.psub != nil
	o.hasC = o.ca != nil
	return o
}

// toP3 converts by the hook or, when there is none, by the definition.
func (o *gops) toP3(g ge) ge {
	if o.p3 != nil {
		return o.p3(g)
	}
	x := fval(g.X).Mul(fval(g.T))
	y := fval(g.Y).Mul(fval(g.Z))
	z := fval(g.Z).Mul(fval(g.T))
	t := fval(g.X).Mul(fval(g.Y))
	return crypto.NewEd25519GroupElementP3(feOf(x), feOf(y), feOf(z), feOf(t))
}

func checkC13(c *Ctx) {
	o := groupOps()
	if len(o.missing) > 0 {
		c.Note("adapters that did not compile and are left out: %v", o.missing)
	}
	kmax := int64(3)
	zn := 3
	if c.Thorough {
		kmax, zn = 8, 5
	}
	ps := append(pts(kmax), bigPts(8)...)
	zs := zVariants()[:zn]

	// representatives of every point in P3 and CACHED, with every Z
	p3 := make([][]ge, len(ps))
	for i, p := range ps {
		for _, z := range zs {
			p3[i] = append(p3[i], element(p.p, crypto.P3, z, z))
		}
	}

	// --- breadth-first search over the points k*B + t*T8 with the real operations
	if o.add != nil && o.sub != nil && o.dbl != nil && o.hasC {
		bound := int64(24)
		if c.Thorough {
			bound = 200
		}
		c.Section("state-graph", fmt.Sprintf("breadth-first: states k*B + t*T8 with |k| <= %d, t mod 8; every operation of the code from every state, on the element the code produced", bound), func(s *Sec) {
			type key struct {
				k int64
				t int
			}
			gen := map[string]ge{"B": crypto.Ed25519Group.BASE_POINT(), "T": element(ref.Torsion[1], crypto.P3, ref.One, ref.One), "N": crypto.Ed25519Group.ZERO_P3()}
			genv := map[string]key{"B": {1, 0}, "T": {0, 1}, "N": {0, 0}}
			value := map[key]ref.Point{}
			kb := map[int64]ref.Point{}
			val := func(x key) ref.Point {
				v, ok := value[x]
				if !ok {
					b, ok := kb[x.k]
					if !ok {
						b = ref.B.MulInt(x.k)
						kb[x.k] = b
					}
					v = b.Add(ref.Torsion[x.t])
					value[x] = v
				}
				return v
			}
			// the search is deterministic and needs the states of all shards: every shard
			// walks the graph, each checks its part of the transitions
			found := map[key][]ge{}
			queue := []struct {
				k key
				g ge
			}{}
			push := func(k key, g ge) {
				if k.k > bound || k.k < -bound || len(found[k]) >= 2 {
					return
				}
				for _, h := range found[k] {
					if snapOf(h).f == snapOf(g).f {
						return
					}
				}
				found[k] = append(found[k], g)
				queue = append(queue, struct {
					k key
					g ge
				}{k, g})
			}
			push(key{0, 0}, crypto.Ed25519Group.ZERO_P3())
			mod8 := func(t int) int { return ((t % 8) + 8) % 8 }
			for n := 0; n < len(queue); n++ {
				st := queue[n]
				type step struct {
					op string
					k  key
					f  func() ge
				}
				var steps []step
				for _, name := range []string{"B", "T", "N"} {
					g, gv := gen[name], genv[name]
					steps = append(steps,
						step{"add " + name, key{st.k.k + gv.k, mod8(st.k.t + gv.t)}, func() ge { return o.toP3(o.add(st.g, o.ca(g))) }},
						step{"subtract " + name, key{st.k.k - gv.k, mod8(st.k.t - gv.t)}, func() ge { return o.toP3(o.sub(st.g, o.ca(g))) }},
					)
				}
				steps = append(steps,
					step{"double", key{2 * st.k.k, mod8(2 * st.k.t)}, func() ge { return o.toP3(o.dbl(st.g)) }},
					step{"double in P2", key{2 * st.k.k, mod8(2 * st.k.t)}, func() ge { return o.toP3(o.dbl(o.p2(st.g))) }},
					step{"add itself", key{2 * st.k.k, mod8(2 * st.k.t)}, func() ge { return o.toP3(o.add(st.g, o.ca(st.g))) }},
					step{"subtract itself", key{0, 0}, func() ge { return o.toP3(o.sub(st.g, o.ca(st.g))) }},
					step{"encode and decode", st.k, func() ge {
						e, err := st.g.Encode()
						if err != nil {
							panic(err)
						}
						d, err := e.Decode()
						if err != nil {
							panic(err)
						}
						return d
					}},
				)
				if o.neg != nil {
					steps = append(steps, step{"negate", key{-st.k.k, mod8(-st.k.t)}, func() ge {
						g, err := o.neg(st.g)
						if err != nil {
							panic(err)
						}
						return g
					}})
				}
				for _, sp := range steps {
					var out ge
					func() {
						defer func() { recover() }()
						out = sp.f()
					}()
					s.Case(func(t *T) {
						what := func() string { return fmt.Sprintf("%s from %d*B+%d*T8 (%s)", sp.op, st.k.k, st.k.t, dump(st.g)) }
						t.Sample(what)
						t.Ops(1)
						before := snapOf(st.g)
						res := sp.f()
						if !before.same() {
							t.Failf("%s changed its operand", what())
							return
						}
						if !isPoint(t, res, val(sp.k), what) {
							return
						}
						if e, err := res.Encode(); err != nil || !eq(e.Raw, val(sp.k).Encode()) {
							t.Failf("%s: encoding of the result: %v", what(), e)
						}
						t.StateH(uint64(sp.k.k*8+int64(sp.k.t)) + 1<<32)
						t.Outcome([]byte(fmt.Sprint(sp.k)))
					})
					if out != nil {
						if p, ok := gval(out); ok && p.Equal(val(sp.k)) {
							push(sp.k, out)
						}
					}
				}
				if s.done {
					break
				}
			}
		})

		c.Section("pairs", fmt.Sprintf("sum and difference of all %d x %d points, %d x %d scalings of Z", len(ps), len(ps), zn, zn), func(s *Sec) {
			for i := range ps {
				for j := range ps {
					sum, dif := ps[i].p.Add(ps[j].p), ps[i].p.Sub(ps[j].p)
					if s.done {
						return
					}
					for zi := range zs {
						for zj := range zs {
							s.Case(func(t *T) {
								a, b := p3[i][zi], p3[j][zj]
								name := func() string {
									return fmt.Sprintf("(%s, Z variant %d) and (%s, Z variant %d)", ps[i].name, zi, ps[j].name, zj)
								}
								t.Sample(name)
								sa, sb := snapOf(a), snapOf(b)
								cb := o.ca(b)
								sc := snapOf(cb)
								for op := 0; op < 2; op++ {
									f, want, w := o.add, sum, "sum of "
									if op == 1 {
										f, want, w = o.sub, dif, "difference of "
									}
									what := func() string { return w + name() }
									r := f(a, cb)
									t.Ops(4)
									if !isPoint(t, r, want, what) || !isPoint(t, o.p2(r), want, what) || !isPoint(t, o.toP3(r), want, what) {
										return
									}
								}
								if !sa.same() || !sb.same() || !sc.same() {
									t.Failf("sum or difference of %s changed an operand", name())
								}
								t.StateH(uint64(i)<<32 | uint64(j)<<16 | uint64(zi)<<8 | uint64(zj))
							})
						}
					}
				}
			}
		})
		coincidences(c, o, append(pts(1), bigPts(4)...))
	} else {
		c.Skip("state-graph", "adapters missing")
	}

	// --- one-operand operations on every limb form
	c.Section("single", fmt.Sprintf("%d points x %d scalings x limb forms: double, negate, all conversions, encode, curve equation", len(ps), zn), func(s *Sec) {
		for i, p := range ps {
			for zi, z := range zs {
				x, y := p.p.Affine()
				fs := [][]limbs{limbVariants(x.Mul(z)), limbVariants(y.Mul(z)), limbVariants(z), limbVariants(x.Mul(y).Mul(z))}
				n := 0
				for _, f := range fs {
					if len(f) > n {
						n = len(f)
					}
				}
				for v := 0; v < n; v++ {
					s.Case(func(t *T) {
						g := crypto.NewEd25519GroupElementP3(mk(fs[0], v), mk(fs[1], v), mk(fs[2], v), mk(fs[3], v))
						what := func() string { return fmt.Sprintf("%s, Z variant %d, limb form %d: %s", p.name, zi, v, dump(g)) }
						t.Sample(what)
						b := snapOf(g)
						t.StateH(uint64(i)<<32 | uint64(zi)<<16 | uint64(v))
						enc := p.p.Encode()
						if !oneElement(t, o, g, p.p, enc, what) {
							return
						}
						p2 := crypto.NewEd25519GroupElementP2(mk(fs[0], v), mk(fs[1], v), mk(fs[2], v))
						if !oneElement(t, o, p2, p.p, enc, what) {
							return
						}
						if !b.same() {
							t.Failf("an operation changed its operand: %s", what())
						}
					})
				}
			}
		}
	})
	c.Section("completed", fmt.Sprintf("%d points in the completed representation with %d x %d scalings of Z and T", len(ps), zn, zn), func(s *Sec) {
		for i, p := range ps {
			enc := p.p.Encode()
			for zi, z := range zs {
				for ti, tt := range zs {
					s.Case(func(t *T) {
						g := element(p.p, crypto.P1xP1, z, tt)
						what := func() string { return fmt.Sprintf("%s in P1xP1, variants %d %d", p.name, zi, ti) }
						b := snapOf(g)
						oneElement(t, o, g, p.p, enc, what)
						if !b.same() {
							t.Failf("an operation changed its operand: %s", what())
						}
						t.StateH(uint64(i)<<32 | uint64(zi)<<16 | uint64(ti))
					})
				}
			}
		}
	})

	// --- equality
	small := append(pts(1), bigPts(4)...)
	reps := []crypto.CoordinateSystem{crypto.P2, crypto.P3, crypto.P1xP1}
	// comparable: equality decides whether the points are equal. Other pairs may
	// be refused, as unequal or by a panic, but different points never are equal.
	comparable := func(a, b crypto.CoordinateSystem) bool {
		proj := func(x crypto.CoordinateSystem) bool { return x == crypto.P2 || x == crypto.P3 || x == crypto.P1xP1 }
		cach := func(x crypto.CoordinateSystem) bool { return x == crypto.CACHED || x == crypto.P3 }
		return proj(a) && proj(b) || cach(a) && cach(b) || a == b
	}
	c.Section("equality", fmt.Sprintf("Equals of all pairs of %d points x all representations x scalings, in both orders", len(small)), func(s *Sec) {
		els := make([][]ge, len(small))
		for i, p := range small {
			for _, r := range append([]crypto.CoordinateSystem{crypto.CACHED, crypto.PRECOMPUTED}, reps...) {
				els[i] = append(els[i], element(p.p, r, zs[0], zs[0]), element(p.p, r, zs[2], zs[1]))
			}
		}
		for i := range small {
			for j := range small {
				for a := range els[i] {
					for b := range els[j] {
						s.Case(func(t *T) {
							g, h := els[i][a], els[j][b]
							sg, sh := snapOf(g), snapOf(h)
							want := small[i].p.Equal(small[j].p)
							got := false
							_, no := refused(func() (ge, error) { got = g.Equals(h); return g, nil })
							t.Ops(1)
							cmp := comparable(g.GetCoordinateSystem(), h.GetCoordinateSystem())
							if cmp && (no || got != want) || got && !want {
								t.Failf("Equals of %s (%s) and %s (%s) = %v, refused = %v", small[i].name, repName(g), small[j].name, repName(h), got, no)
							}
							if !sg.same() || !sh.same() {
								t.Failf("Equals changed an operand")
							}
							t.StateH(uint64(i)<<32 | uint64(j)<<16 | uint64(a)<<8 | uint64(b))
							t.Outcome([]byte{byte(b2i(got))})
						})
					}
				}
			}
		}
	})
	c.Section("off-curve", "SatisfiesCurveEquation is false off the curve: every point with one coordinate changed, every representation", func(s *Sec) {
		for i, p := range small {
			for _, r := range reps {
				for co := 0; co < 4; co++ {
					for d := int64(-2); d <= 2; d++ {
						s.Case(func(t *T) {
							g := element(p.p, r, zs[2], zs[1])
							f := []*fe{g.X, g.Y, g.Z, g.T}[co]
							if f == nil || d == 0 {
								if !g.SatisfiesCurveEquation() {
									t.Failf("SatisfiesCurveEquation is false for %s in %s", p.name, repName(g))
								}
								t.Ops(1)
								return
							}
							if co == 3 && r == crypto.P3 {
								return // T takes no part in the equation
							}
							v := fval(f).Add(ref.FeFromInt(d))
							*f = *feOf(v)
							q, ok := gvalNoT(g)
							if !ok {
								return // Z became 0
							}
							got := g.SatisfiesCurveEquation()
							t.Ops(1)
							if got != q {
								t.Failf("SatisfiesCurveEquation = %v for %s in %s with coordinate %d changed by %d", got, p.name, repName(g), co, d)
							}
							t.StateH(uint64(i)<<32 | uint64(r)<<16 | uint64(co)<<8 | uint64(d+2))
							t.Outcome([]byte{byte(b2i(got))})
						})
					}
				}
			}
		}
	})

	// --- precomputed representation
	if o.hasPA {
		c.Section("precomputed", fmt.Sprintf("mixed sum and difference of %d points with %d points in precomputed form", len(ps), len(small)), func(s *Sec) {
			for i := range ps {
				for j := range small {
					s.Case(func(t *T) {
						a := p3[i][(i+j)%zn]
						b := element(small[j].p, crypto.PRECOMPUTED, ref.One, ref.One)
						sa, sb := snapOf(a), snapOf(b)
						what := func() string { return fmt.Sprintf("%s with precomputed %s", ps[i].name, small[j].name) }
						r, err := o.padd(a, b)
						t.Ops(2)
						if err != nil {
							t.Failf("%s: %v", what(), err)
							return
						}
						if !isPoint(t, r, ps[i].p.Add(small[j].p), what) || !isPoint(t, o.psub(a, b), ps[i].p.Sub(small[j].p), what) {
							return
						}
						if !sa.same() || !sb.same() {
							t.Failf("%s changed an operand", what())
						}
						t.StateH(uint64(i)<<32 | uint64(j))
					})
				}
			}
		})
	} else {
		c.Skip("precomputed", "adapters missing")
	}
	sparseSection(c, o)
	c.Section("constants", "neutral elements and base point, three calls each", func(s *Sec) {
		for n := 0; n < 4; n++ {
			s.Case(func(t *T) {
				G := crypto.Ed25519Group
				f := []func() ge{G.ZERO_P2, G.ZERO_P3, G.ZERO_PRECOMPUTED, G.BASE_POINT}[n]
				want := ref.Neutral
				if n == 3 {
					want = ref.B
				}
				for i := 0; i < 3; i++ {
					g := f()
					t.Ops(1)
					if !isPoint(t, g, want, func() string { return fmt.Sprintf("constant %d, call %d", n, i) }) {
						return
					}
					if n == 3 {
						g.PrecomputeForScalarMultiplication()
						g.PrecomputeForDoubleScalarMultiplication()
					}
				}
				t.State([]byte{byte(n)})
			})
		}
	})
}

func mk(f []limbs, v int) *fe {
	return crypto.NewEd25519FieldElement(crypto.FieldElements(f[v%len(f)]))
}

// gvalNoT: is the point on the curve, leaving T of P3 aside.
func gvalNoT(g ge) (on bool, ok bool) {
	X, Y, Z := fval(g.X), fval(g.Y), fval(g.Z)
	if Z.IsZero() {
		return
	}
	z2 := Z
	if g.GetCoordinateSystem() == crypto.P1xP1 {
		z2 = fval(g.T)
		if z2.IsZero() {
			return
		}
	}
	return ref.OnCurve(X.Mul(Z.Inv()), Y.Mul(z2.Inv())), true
}

// oneElement runs everything that takes one element.
func oneElement(t *T, o *gops, g ge, p ref.Point, enc []byte, what func() string) bool {
	e, err := g.Encode()
	t.Ops(2)
	if err != nil || !eq(e.Raw, enc) {
		t.Failf("Encode of %s = %v %s, want %x", what(), e, errStr(err), enc)
		return false
	}
	if !g.SatisfiesCurveEquation() {
		t.Failf("SatisfiesCurveEquation is false for %s", what())
		return false
	}
	type conv struct {
		name string
		f    func(ge) ge
	}
	var cs []conv
	sys := g.GetCoordinateSystem()
	if o.p2 != nil {
		cs = append(cs, conv{"toP2", o.p2})
	}
	if o.p3 != nil && sys != crypto.P2 {
		cs = append(cs, conv{"toP3", o.p3})
	}
	if o.ca != nil && sys == crypto.P3 {
		cs = append(cs, conv{"toCached", o.ca})
	}
	if o.dbl != nil && sys != crypto.P1xP1 {
		cs = append(cs, conv{"dbl", o.dbl})
	}
	if o.neg != nil && sys == crypto.P3 {
		cs = append(cs, conv{"negate", func(g ge) ge {
			r, err := o.neg(g)
			if err != nil {
				panic(err)
			}
			return r
		}})
	}
	for _, c := range cs {
		want := p
		switch c.name {
		case "dbl":
			want = p.Dbl()
		case "negate":
			want = p.Neg()
		}
		r := c.f(g)
		t.Ops(1)
		if !isPoint(t, r, want, func() string { return c.name + " of " + what() }) {
			return false
		}
		if c.name != "toCached" {
			re, err := r.Encode()
			t.Ops(1)
			if err != nil || !eq(re.Raw, want.Encode()) {
				t.Failf("Encode after %s of %s = %v %s", c.name, what(), re, errStr(err))
				return false
			}
		}
	}
	return true
}

// ---------------------------------------------------------------- C14

func checkC14(c *Ctx) {
	o := groupOps()
	if o.scal == nil || o.dscal == nil {
		c.Note("adapters missing: %v", o.missing)
	}
	type target struct {
		name string
		g    func() ge
		tab  []ref.Point
		p    ref.Point
	}
	mkT := func(p point, z ref.Fe) target {
		var cache ge
		return target{p.name, func() ge {
			if cache == nil {
				cache = element(p.p, crypto.P3, z, z)
				cache.PrecomputeForScalarMultiplication()
				cache.PrecomputeForDoubleScalarMultiplication()
			}
			return cache
		}, ref.PowTable(p.p), p.p}
	}
	base := target{"the base point", func() ge { return crypto.Ed25519Group.BASE_POINT() }, ref.PowTable(ref.B), ref.B}
	var targets []target
	zs := zVariants()
	bp := bigPts(4)
	targets = append(targets, base, mkT(bp[1], ref.One), mkT(bp[2], zs[3]))
	for i := range ref.Torsion {
		targets = append(targets, mkT(point{name: fmt.Sprintf("%d*T8", i), p: ref.Torsion[i]}, zs[i%3]))
	}
	targets = append(targets, mkT(point{name: "B, decoded", p: ref.B}, ref.One), mkT(point{name: "-B", p: ref.B.Neg()}, zs[1]))

	if o.scal != nil {
		one := func(s *Sec, tg *target, k *big.Int, what string) {
			s.Case(func(t *T) {
				b := le32(k)
				t.Sample(func() string { return fmt.Sprintf("%x * %s", b, tg.name) })
				var g Guards
				r, err := o.scal(tg.g(), g.New(b))
				t.Ops(1)
				if err != nil {
					t.Failf("%s: scalar %x times %s: %v", what, b, tg.name, err)
					return
				}
				want := ref.MulTable(tg.tab, k)
				if !isPoint(t, r, want, func() string { return fmt.Sprintf("%s: scalar (little-endian) %x times %s", what, b, tg.name) }) {
					return
				}
				g.Check(t, "the scalar")
				t.State([]byte(tg.name), b)
			})
		}
		top := addB(pow2(255), -1)
		c.Section("digits", "d*16^i for every i = 0..63 and d = 1..15, times every target point (base, others, all small-order ones)", func(s *Sec) {
			for ti := range targets {
				for i := uint(0); i < 64; i++ {
					for d := int64(1); d < 16; d++ {
						k := new(big.Int).Lsh(bi(d), 4*i)
						if k.Cmp(top) > 0 {
							continue
						}
						one(s, &targets[ti], k, "one digit")
					}
				}
			}
		})
		c.Section("digit-pairs", "every pair of digits at neighbouring positions, on the base point (and one more, thorough: all)", func(s *Sec) {
			n := 2
			if c.Thorough {
				n = len(targets)
			}
			for ti := 0; ti < n; ti++ {
				for i := uint(0); i < 63; i++ {
					for v := int64(0); v < 256; v++ {
						if v>>4 == 0 || v&15 == 0 {
							continue
						}
						if ti > 0 && !c.Thorough && v%5 != 0 {
							continue
						}
						k := new(big.Int).Lsh(bi(v), 4*i)
						if k.Cmp(top) > 0 {
							continue
						}
						one(s, &targets[ti], k, "two digits")
					}
				}
			}
		})
		c.Section("backgrounds", "all digits equal to one of 16 values, one digit replaced by every value, at every position", func(s *Sec) {
			for bg := int64(0); bg < 16; bg++ {
				for i := 0; i < 64; i++ {
					for d := byte(0); d < 16; d++ {
						if !c.Thorough && bg != 7 && bg != 8 && bg != 15 && (int(bg)+i+int(d))%4 != 0 {
							continue
						}
						b := rep(byte(bg|bg<<4), 32)
						if i%2 == 0 {
							b[i/2] = b[i/2]&0xf0 | d
						} else {
							b[i/2] = b[i/2]&0x0f | d<<4
						}
						b[31] &= 0x7f
						one(s, &targets[0], ref.LE(b), "background")
					}
				}
			}
		})
		c.Section("special", "small scalars, scalars around multiples of L and powers of two, clamped scalars, times every target", func(s *Sec) {
			var ks []*big.Int
			n := int64(600)
			if c.Thorough {
				n = 20000
			}
			for i := int64(0); i < n; i++ {
				ks = append(ks, bi(i))
			}
			for k := int64(1); k <= 7; k++ {
				for d := int64(-9); d <= 9; d++ {
					ks = append(ks, addB(mulB(ref.L, k), d))
				}
			}
			for i := uint(4); i < 256; i++ {
				ks = append(ks, addB(pow2(i), -1))
				if i < 255 {
					ks = append(ks, pow2(i), addB(pow2(i), 1))
				}
			}
			for i := 0; i < 100; i++ {
				a, _ := ref.Clamped(ref.SHA3_512, seedKey(i))
				ks = append(ks, a)
			}
			for ti := range targets {
				for i, k := range ks {
					if ti > 0 && i < 600 && i%10 != 0 {
						continue
					}
					one(s, &targets[ti], k, "special")
				}
			}
		})
	} else {
		c.Skip("digits", "adapter missing")
	}

	c.Section("select", "table lookup: every position 0..31 and every digit -8..8 on every target", func(s *Sec) {
		for ti := range targets {
			tg := &targets[ti]
			for pos := 0; pos < 32; pos++ {
				for b := -8; b <= 8; b++ {
					s.Case(func(t *T) {
						g := tg.g()
						r, err := g.Select(pos, b)
						t.Ops(1)
						what := func() string { return fmt.Sprintf("Select(%d, %d) of %s", pos, b, tg.name) }
						if err != nil {
							t.Failf("%s: %v", what(), err)
							return
						}
						if r.GetCoordinateSystem() != crypto.PRECOMPUTED {
							t.Failf("%s is in %s", what(), repName(r))
							return
						}
						isPoint(t, r, tg.tab[8*pos].MulInt(int64(b)), what)
						t.State([]byte(tg.name), []byte{byte(pos), byte(b)})
					})
				}
			}
		}
	})

	if o.dscal != nil {
		two := func(s *Sec, tg *target, a, b *big.Int, what string) {
			s.Case(func(t *T) {
				t.Sample(func() string { return fmt.Sprintf("%v*B - %v*%s", b, a, tg.name) })
				var g Guards
				r, err := o.dscal(tg.g(), g.New(le32(a)), g.New(le32(b)))
				t.Ops(1)
				if err != nil {
					t.Failf("%s: %v", what, err)
					return
				}
				want := ref.MulTable(base.tab, b).Sub(ref.MulTable(tg.tab, a))
				if !isPoint(t, r, want, func() string {
					return fmt.Sprintf("%s: b*B - a*A with a=%x b=%x (little-endian), A=%s", what, le32(a), le32(b), tg.name)
				}) {
					return
				}
				g.Check(t, "a scalar")
				t.State([]byte(tg.name), le32(a), le32(b))
			})
		}
		sc := scalarAlphabet(c.Thorough)
		rnd := new(big.Int).Mod(ref.LE(ref.SHA3_512([]byte("r"))), ref.L)
		zero := bi(0)
		c.Section("double-targets", "b*B - a*A for small and extreme a, b, every target", func(s *Sec) {
			vs := []*big.Int{zero, bi(1), bi(2), bi(3), bi(7), bi(8), bi(15), bi(16), bi(17), bi(31), bi(33), addB(ref.L, -1), addB(ref.L, -2), new(big.Int).Rsh(ref.L, 1), addB(pow2(252), -1), pow2(252), rnd}
			for ti := range targets {
				for _, a := range vs {
					for _, b := range vs {
						two(s, &targets[ti], a, b, "extremes")
					}
				}
			}
		})
		c.Section("double-scalars", fmt.Sprintf("%d scalars (odd windows at every bit, runs, extremes) as a and as b", len(sc)), func(s *Sec) {
			for i, x := range sc {
				two(s, &targets[1], x, zero, "a alone")
				two(s, &targets[1], zero, x, "b alone")
				if c.Thorough || i%3 == 0 {
					two(s, &targets[1], x, sc[(i*7+3)%len(sc)], "both")
				}
			}
		})
		c.Section("double-windows", "every bit pattern of 9 bits (11 thorough) at several positions, as a and b together", func(s *Sec) {
			w, poss := uint(9), []uint{0, 100, 243}
			if c.Thorough {
				w = 11
				poss = nil
				for i := uint(0); i < 242; i += 5 {
					poss = append(poss, i)
				}
			}
			for _, pos := range poss {
				for v := int64(1); v < 1<<w; v++ {
					x := new(big.Int).Lsh(bi(v), pos)
					y := new(big.Int).Lsh(bi((v*37+11)%(1<<w)), pos)
					if x.Cmp(ref.L) >= 0 || y.Cmp(ref.L) >= 0 {
						continue
					}
					two(s, &targets[1], x, y, "window")
				}
			}
		})
	} else {
		c.Skip("double", "adapter missing")
	}

	c.Section("precompute", "precomputing once, twice and after use leaves the element and its results alone", func(s *Sec) {
		for i, p := range append(pts(1), bigPts(3)...) {
			s.Case(func(t *T) {
				g := element(p.p, crypto.P3, zs[i%5], zs[0])
				b := snapOf(g)
				if g.IsPrecomputedForDoubleScalarMultiplication() {
					t.Failf("a fresh element reports precomputed tables")
				}
				for r := 0; r < 2; r++ {
					g.PrecomputeForDoubleScalarMultiplication()
					g.PrecomputeForScalarMultiplication()
					t.Ops(2)
					if !g.IsPrecomputedForDoubleScalarMultiplication() {
						t.Failf("the tables are missing after precomputation of %s", p.name)
						return
					}
					if !b.same() {
						t.Failf("precomputation changed the element %s", p.name)
						return
					}
					for _, d := range []int{-8, -1, 0, 5, 8} {
						q, err := g.Select(31, d)
						t.Ops(1)
						if err != nil {
							t.Failf("Select: %v", err)
							return
						}
						if !isPoint(t, q, p.p.Mul(pow2(248)).MulInt(int64(d)), func() string { return fmt.Sprintf("Select(31,%d) of %s", d, p.name) }) {
							return
						}
					}
				}
				t.State([]byte(p.name))
			})
		}
	})
}

// ---------------------------------------------------------------- C17

func checkC17(c *Ctx) {
	one := func(s *Sec, enc []byte, what string) {
		s.Case(func(t *T) {
			t.Sample(func() string { return fmt.Sprintf("%x", enc) })
			var g Guards
			decodeCase(t, g.New(enc), enc, what)
			g.Check(t, "the encoding")
		})
	}
	c.Section("lengths", "every length 0..130 with 4 fillings, by constructor and by literal", func(s *Sec) {
		for n := 0; n <= 130; n++ {
			for f := 0; f < 4; f++ {
				s.Case(func(t *T) {
					b := [][]byte{rep(0, n), append(rep(1, 1), rep(0, n)...)[:n], append(ref.B.Encode(), rep(0, 100)...)[:n], append(ref.B.Encode(), ref.B.Encode()...)[:min(n, 64)]}[f]
					if len(b) != n && f == 3 {
						b = append(b, rep(9, n-len(b))...)
					}
					e, err := crypto.NewEd25519EncodedGroupElement(b)
					t.Ops(1)
					if (err == nil) != (n == 32) {
						t.Failf("NewEd25519EncodedGroupElement of %d bytes: error %s", n, errStr(err))
						return
					}
					if n != 32 {
						g, err := (&crypto.Ed25519EncodedGroupElement{Raw: b}).Decode()
						t.Ops(1)
						if err == nil || g != nil {
							t.Failf("%d bytes decode to a point", n)
						}
						return
					}
					decodeCase(t, e.Raw, b, "length 32")
					t.State([]byte{byte(n), byte(f)})
				})
			}
		}
	})
	n := int64(3000)
	if c.Thorough {
		n = 100000
	}
	c.Section("small-y", fmt.Sprintf("every y = 0..%d and p-%d..p+18 and 2^255-1 down, both sign bits", n, n), func(s *Sec) {
		for d := int64(0); d <= n; d++ {
			for _, y := range []*big.Int{bi(d), new(big.Int).Sub(addB(ref.P, 18), bi(d)), new(big.Int).Add(new(big.Int).Rsh(ref.P, 1), bi(d-n/2))} {
				for _, sign := range []byte{0, 0x80} {
					b := le32(y)
					b[31] |= sign
					one(s, b, "y")
				}
			}
		}
	})
	c.Section("bits", "y of few bits, of many bits, and of bytes repeated", func(s *Sec) {
		for i := uint(0); i < 255; i++ {
			for j := uint(0); j <= i; j += 5 {
				x := pow2(i)
				if i != j {
					x.Add(x, pow2(j))
				}
				one(s, le32(x), "few bits")
				one(s, le32(new(big.Int).Sub(addB(pow2(255), -1), x)), "many bits")
			}
		}
		for v := 0; v < 256; v++ {
			for k := 1; k <= 32; k += 3 {
				one(s, append(rep(byte(v), k), rep(0, 32-k)...), "byte runs")
				one(s, append(rep(0, 32-k), rep(byte(v), k)...), "byte runs")
			}
		}
	})
	c.Section("points", "encodings of k*B + T for |k| <= 40 (400 thorough) and all T of small order, in every encoding, with every single bit flipped for some", func(s *Sec) {
		m := int64(40)
		if c.Thorough {
			m = 400
		}
		for _, p := range pts(m) {
			for _, e := range encodings(p.p) {
				one(s, e, p.name)
			}
		}
		for _, p := range append(pts(0), bigPts(6)...) {
			for bit := 0; bit < 256; bit++ {
				one(s, flip(p.p.Encode(), bit), "bit flipped")
			}
		}
	})
}

func decodeCase(t *T, arg, enc []byte, what string) {
	want, ok := ref.Decode(enc)
	e, err := crypto.NewEd25519EncodedGroupElement(arg)
	if err != nil {
		t.Failf("%s: %x refused: %v", what, enc, err)
		return
	}
	g, err := e.Decode()
	t.Ops(2)
	t.State(enc)
	t.Outcome([]byte{byte(b2i(ok))})
	if !ok {
		if err == nil {
			t.Failf("%s: %x decodes although it is no point", what, enc)
		}
		if x, err := e.GetAffineX(); err == nil {
			t.Failf("%s: GetAffineX of %x = %v although it is no point", what, enc, x)
		}
		return
	}
	if err != nil || g == nil {
		t.Failf("%s: %x is refused: %s", what, enc, errStr(err))
		return
	}
	p, on := gval(g)
	if !on || g.GetCoordinateSystem() != crypto.P3 {
		t.Failf("%s: %x decodes to something off the curve (%s): %s", what, enc, repName(g), dump(g))
		return
	}
	x, y := p.Affine()
	wx, wy := want.Affine()
	if x != wx || y != wy {
		t.Failf("%s: %x decodes to (%x, %x), want (%x, %x)", what, enc, x.Bytes(), y.Bytes(), wx.Bytes(), wy.Bytes())
		return
	}
	ax, err1 := e.GetAffineX()
	ay, err2 := e.GetAffineY()
	t.Ops(2)
	if err1 != nil || err2 != nil || fval(ax) != wx || fval(ay) != wy {
		t.Failf("%s: affine coordinates of %x: %v %v", what, enc, ax, ay)
		return
	}
	if !g.SatisfiesCurveEquation() {
		t.Failf("%s: SatisfiesCurveEquation is false for %x", what, enc)
		return
	}
	re, err := g.Encode()
	t.Ops(2)
	if err != nil || !eq(re.Raw, want.Encode()) {
		t.Failf("%s: %x encodes again to %v, want %x", what, enc, re, want.Encode())
		return
	}
	if !e.Equals(e) {
		t.Failf("an encoding is not equal to itself")
	}
}

// coincidences: representations chosen so that a coordinate, a sum or a
// difference of coordinates of one operand is the same number (or the negative)
// as one of the other operand, or a number of note, although the points differ.
func coincidences(c *Ctx, o *gops, small []point) {
	fs := []struct {
		name string
		f    func(x, y ref.Fe) ref.Fe
	}{
		{"X", func(x, y ref.Fe) ref.Fe { return x }},
		{"Y", func(x, y ref.Fe) ref.Fe { return y }},
		{"Z", func(x, y ref.Fe) ref.Fe { return ref.One }},
		{"T", func(x, y ref.Fe) ref.Fe { return x.Mul(y) }},
		{"Y+X", func(x, y ref.Fe) ref.Fe { return y.Add(x) }},
		{"Y-X", func(x, y ref.Fe) ref.Fe { return y.Sub(x) }},
		{"2dT", func(x, y ref.Fe) ref.Fe { return x.Mul(y).Mul(ref.D).Mul(ref.FeFromInt(2)) }},
	}
	z1 := ref.FeFromBytes(append(pattern(31, 77), 0))
	if !c.Thorough {
		all := small
		small = nil
		for i, p := range all {
			if i%3 == 0 || i >= len(all)-4 {
				small = append(small, p)
			}
		}
	}
	n := len(small)
	c.Section("coincidences", fmt.Sprintf("%d x %d points in representations with a coordinate (X, Y, Z, T, Y+X, Y-X, 2dT) that is the same number as one of the other operand, or its negative; and equal to 1, 2, d, sqrt(-1) or a negative: sum, difference, mixed sum and difference, equality, and all operations with one operand", n, n), func(s *Sec) {
		for i := 0; i < n; i++ {
			p := small[i]
			x, y := p.p.Affine()
			for _, f := range fs {
				v := f.f(x, y)
				if v.IsZero() {
					continue
				}
				for _, k := range []ref.Fe{ref.One, ref.FeFromInt(2), ref.D, ref.SqrtM1} {
					for _, k := range []ref.Fe{k, k.Neg()} {
						s.Case(func(t *T) {
							z := k.Mul(v.Inv())
							g := element(p.p, crypto.P3, z, ref.One)
							what := func() string { return fmt.Sprintf("%s with %s = %x", p.name, f.name, k.Bytes()) }
							t.Sample(what)
							enc := p.p.Encode()
							if oneElement(t, o, g, p.p, enc, what) {
								oneElement(t, o, element(p.p, crypto.P2, z, ref.One), p.p, enc, what)
							}
							t.State([]byte("one"), enc, z.Bytes())
						})
					}
				}
			}
			for j := 0; j < n; j++ {
				q := small[j]
				qx, qy := q.p.Affine()
				sum, dif := p.p.Add(q.p), p.p.Sub(q.p)
				for _, f := range fs {
					v := f.f(x, y)
					for _, h := range fs {
						w := h.f(qx, qy)
						if v.IsZero() || w.IsZero() {
							continue
						}
						for _, neg := range []bool{false, true} {
							s.Case(func(t *T) {
								r := v.Mul(z1).Mul(w.Inv())
								if neg {
									r = r.Neg()
								}
								a, b := element(p.p, crypto.P3, z1, ref.One), element(q.p, crypto.P3, r, ref.One)
								what := func() string {
									return fmt.Sprintf("%s (%s) and %s with the same %s (negative: %v)", p.name, f.name, q.name, h.name, neg)
								}
								t.Sample(what)
								t.Ops(4)
								cb := o.ca(b)
								for op, e := range []ge{o.add(a, cb), o.sub(a, cb)} {
									want := sum
									if op == 1 {
										want = dif
									}
									if !isPoint(t, e, want, what) {
										return
									}
								}
								if same := p.p.Equal(q.p); a.Equals(b) != same || b.Equals(a) != same {
									t.Failf("Equals of %s is not %v", what(), same)
									return
								}
								// the other operand precomputed: its Z is 1
								if o.hasPA && !neg {
									a := element(p.p, crypto.P3, w.Mul(v.Inv()), ref.One)
									b := element(q.p, crypto.PRECOMPUTED, ref.One, ref.One)
									m, err := o.padd(a, b)
									if err != nil {
										t.Failf("%s: %v", what(), err)
										return
									}
									if !isPoint(t, m, sum, what) || !isPoint(t, o.psub(a, b), dif, what) {
										return
									}
								}
								t.State([]byte("two"), p.p.Encode(), q.p.Encode(), r.Bytes())
							})
						}
					}
				}
			}
		}
	})
}
