package main

import (
	"fmt"

	crypto "github.com/proximax-storage/go-xpx-crypto"
	"verifharness/ref"
)

// Elements one of whose coordinates has hardly any nonzero limbs. Random and
// affine elements never have such coordinates except for Z = 1, and shortcuts
// that look at a limb or two take them for 0, 1 or other special values.

func sparseLimbs(thorough bool) []limbs {
	var r []limbs
	vals := []int64{1, -1, 2, 19, 1 << 13, 1<<24 - 1, -(1 << 24)}
	for i := 0; i < 10; i++ {
		for _, v := range vals {
			var l limbs
			l[i] = v
			r = append(r, l)
		}
	}
	for _, low := range []int64{1, -1, 0, 2} {
		for i := 1; i < 10; i++ {
			for _, v := range []int64{1, 3, -5, 1 << 20} {
				for j := i; j < 10; j++ {
					if j != i && (j != i+1 || !thorough) && j != 9 {
						continue
					}
					l := limbs{low}
					l[i] = v
					l[j] = v
					r = append(r, l)
				}
			}
		}
	}
	// all limbs the same, and 1 with all the others
	for _, v := range []int64{1, -1, 2, 1 << 23} {
		var l limbs
		for i := range l {
			l[i] = v
		}
		r = append(r, l)
		l[0] = 1
		r = append(r, l)
	}
	return r
}

// sparseElements calls f with p3 forms of p (Z chosen so that X, Y, Z, T, Y+X or
// Y-X is sparse) and with completed forms.
func sparseElements(p ref.Point, sp []limbs, f func(name string, g ge)) {
	x, y := p.Affine()
	fl := func(l limbs) *fe { return crypto.NewEd25519FieldElement(crypto.FieldElements(l)) }
	for i, l := range sp {
		v := ref.FeFromLimbs([10]int64(l))
		if v.IsZero() {
			continue
		}
		for _, c := range []struct {
			name string
			at   ref.Fe
		}{{"Z", ref.One}, {"X", x}, {"Y", y}, {"T", x.Mul(y)}, {"Y+X", y.Add(x)}, {"Y-X", y.Sub(x)}} {
			if c.at.IsZero() {
				continue
			}
			z := v.Mul(c.at.Inv())
			g := element(p, crypto.P3, z, z)
			switch c.name {
			case "Z":
				g.Z = fl(l)
			case "X":
				g.X = fl(l)
			case "Y":
				g.Y = fl(l)
			case "T":
				g.T = fl(l)
			}
			f(fmt.Sprintf("%s = %v", c.name, l), g)
		}
		// completed: x = X/Z, y = Y/T
		one := sp[(i*7+3)%len(sp)]
		w := ref.FeFromLimbs([10]int64(one))
		if w.IsZero() {
			continue
		}
		g := element(p, crypto.P1xP1, v, w)
		g.Z, g.T = fl(l), fl(one)
		f(fmt.Sprintf("completed, Z = %v, T = %v", l, one), g)
		if !x.IsZero() && !y.IsZero() {
			g = element(p, crypto.P1xP1, v.Mul(x.Inv()), w.Mul(y.Inv()))
			g.X, g.Y = fl(l), fl(one)
			f(fmt.Sprintf("completed, X = %v, Y = %v", l, one), g)
		}
		g = element(p, crypto.P1xP1, v, v)
		g.Z, g.T = fl(l), fl(l)
		f(fmt.Sprintf("completed, Z = T = %v", l), g)
	}
}

func sparsePoints() []point {
	r := []point{{name: "B", p: ref.B}}
	for _, i := range []int{0, 1, 2, 4, 7} {
		r = append(r, point{name: fmt.Sprintf("%d*T8", i), p: ref.Torsion[i]})
	}
	return append(r, bigPts(3)...)
}

func sparseSection(c *Ctx, o *gops) {
	sp, ps := sparseLimbs(c.Thorough), sparsePoints()
	c.Section("sparse-coordinates", fmt.Sprintf("%d points x %d limb vectors with few nonzero limbs as X, Y, Z, T, Y+X, Y-X of the extended and as coordinates of the completed form: all one-operand operations, sum and difference with other points, equality, text", len(ps), len(sp)), func(s *Sec) {
		others := []point{{name: "B", p: ref.B}, ps[2], ps[len(ps)-1]}
		var og, oc []ge
		for _, q := range others {
			e := element(q.p, crypto.P3, ref.One, ref.One)
			og = append(og, e)
			if o.ca != nil {
				oc = append(oc, o.ca(e))
			}
		}
		for _, p := range ps {
			enc := p.p.Encode()
			sparseElements(p.p, sp, func(name string, g ge) {
				s.Case(func(t *T) {
					what := func() string { return fmt.Sprintf("%s with %s", p.name, name) }
					t.Sample(what)
					b := snapOf(g)
					t.State([]byte(p.name), []byte(name))
					t.Outcome([]byte(name))
					if !oneElement(t, o, g, p.p, enc, what) {
						return
					}
					if g.GetCoordinateSystem() == crypto.P3 {
						p2 := crypto.NewEd25519GroupElementP2(g.X, g.Y, g.Z)
						if !oneElement(t, o, p2, p.p, enc, what) {
							return
						}
						for i, q := range others {
							if o.add == nil || o.sub == nil || o.ca == nil {
								break
							}
							cg := o.ca(g)
							t.Ops(4)
							if !isPoint(t, o.add(g, oc[i]), p.p.Add(q.p), func() string { return what() + " plus " + q.name }) ||
								!isPoint(t, o.sub(g, oc[i]), p.p.Sub(q.p), func() string { return what() + " minus " + q.name }) ||
								!isPoint(t, o.add(og[i], cg), p.p.Add(q.p), func() string { return q.name + " plus " + what() }) ||
								!isPoint(t, o.sub(og[i], cg), q.p.Sub(p.p), func() string { return q.name + " minus " + what() }) {
								return
							}
							want := p.p.Equal(q.p)
							if g.Equals(og[i]) != want || og[i].Equals(g) != want {
								t.Failf("Equals of %s and %s is not %v", what(), q.name, want)
								return
							}
						}
					}
					if !b.same() {
						t.Failf("an operation changed its operand: %s", what())
					}
				})
			})
		}
	})
}

// sparseHelpers: the big-integer helpers on the same elements.
func sparseHelpers(c *Ctx) {
	M := crypto.MathUtils
	sp, ps := sparseLimbs(false), sparsePoints()
	c.Section("sparse-coordinates", fmt.Sprintf("%d points x %d limb vectors with few nonzero limbs as X, Y, Z, T, Y+X, Y-X: sum, doubling, negation and change of representation by the helpers", len(ps), len(sp)), func(s *Sec) {
		o := element(ref.B, crypto.P3, ref.One, ref.One)
		n := 0
		for _, p := range ps {
			sparseElements(p.p, sp, func(name string, g ge) {
				n++
				if g.GetCoordinateSystem() != crypto.P3 || !c.Thorough && n%3 != 0 {
					return
				}
				s.Case(func(t *T) {
					what := func() string { return fmt.Sprintf("%s with %s", p.name, name) }
					t.Sample(what)
					b := snapOf(g)
					t.State([]byte(p.name), []byte(name))
					t.Ops(7)
					r := M.NegateGroupElement(g)
					if !isPoint(t, r, p.p.Neg(), func() string { return "negation of " + what() }) ||
						!isPoint(t, M.DoubleGroupElement(g), p.p.Dbl(), func() string { return "doubling of " + what() }) ||
						!isPoint(t, M.AddGroupElements(g, o), p.p.Add(ref.B), func() string { return what() + " plus B" }) ||
						!isPoint(t, M.AddGroupElements(o, g), p.p.Add(ref.B), func() string { return "B plus " + what() }) {
						return
					}
					for _, sys := range []crypto.CoordinateSystem{crypto.AFFINE, crypto.P2, crypto.P3} {
						q, err := M.ToRepresentation(g, sys)
						if err != nil {
							t.Failf("ToRepresentation of %s to %s: %v", what(), sysName(sys), err)
							return
						}
						if !isPoint(t, q, p.p, func() string { return "ToRepresentation of " + what() + " to " + sysName(sys) }) {
							return
						}
					}
					if !b.same() {
						t.Failf("an operation changed its operand: %s", what())
					}
				})
			})
		}
	})
}
