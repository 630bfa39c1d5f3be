package main

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"

	crypto "github.com/proximax-storage/go-xpx-crypto"
	"verifharness/ref"
)

func init() {
	checks["C22"] = checkC22
	checks["C23"] = checkC23
}

// refused: did f refuse (panic, error or no value)? The panic of a refusal may
// have any value.
func refused(f func() (ge, error)) (g ge, no bool) {
	defer func() {
		if recover() != nil {
			g, no = nil, true
		}
	}()
	g, err := f()
	if err != nil || g == nil {
		return nil, true
	}
	return g, false
}

// checkC22: operands that an operation does not support.
func checkC22(c *Ctx) {
	o := groupOps()
	toCoord, hasCoord := hook[func(ge, crypto.CoordinateSystem) ge]("group.toCoord")
	M := &crypto.MathUtils
	kp := int64(1)
	if c.Thorough {
		kp = 4
	}
	pt := append(pts(kp), bigPts(3)...)
	zs := zVariants()
	reps := append([]crypto.CoordinateSystem{}, allSystems...)

	judge := func(t *T, g ge, no bool, want ref.Point, what func() string) bool {
		t.Ops(1)
		if no {
			t.Outcome([]byte("refused"))
			return true
		}
		t.Outcome([]byte("computed"))
		return isPoint(t, g, want, what)
	}

	c.Section("two-operands", fmt.Sprintf("sum, difference, mixed sum and difference, big-integer sum of all pairs of %d points in all 6 x 6 representations: refused or right", len(pt)), func(s *Sec) {
		type op struct {
			name string
			f    func(a, b ge) (ge, error)
			sub  bool
			must func(a, b crypto.CoordinateSystem) bool
		}
		both := func(x, y crypto.CoordinateSystem) func(a, b crypto.CoordinateSystem) bool {
			return func(a, b crypto.CoordinateSystem) bool { return a == x && b == y }
		}
		var ops []op
		if o.add != nil {
			ops = append(ops, op{"add", func(a, b ge) (ge, error) { return o.add(a, b), nil }, false, both(crypto.P3, crypto.CACHED)})
		}
		if o.sub != nil {
			ops = append(ops, op{"subtract", func(a, b ge) (ge, error) { return o.sub(a, b), nil }, true, both(crypto.P3, crypto.CACHED)})
		}
		if o.padd != nil {
			ops = append(ops, op{"precomputedAdd", o.padd, false, both(crypto.P3, crypto.PRECOMPUTED)})
		}
		if o.psub != nil {
			ops = append(ops, op{"precomputedSubtract", func(a, b ge) (ge, error) { return o.psub(a, b), nil }, true, both(crypto.P3, crypto.PRECOMPUTED)})
		}
		ops = append(ops, op{"AddGroupElements", func(a, b ge) (ge, error) { return M.AddGroupElements(a, b), nil }, false,
			func(a, b crypto.CoordinateSystem) bool {
				return (a == crypto.P2 || a == crypto.P3) && (b == crypto.P2 || b == crypto.P3)
			}})
		for i, p := range pt {
			for j, q := range pt {
				sum, dif := p.p.Add(q.p), p.p.Sub(q.p)
				for _, ra := range reps {
					for _, rb := range reps {
						s.Case(func(t *T) {
							a := element(p.p, ra, zs[i%len(zs)], zs[(i+j)%len(zs)])
							b := element(q.p, rb, zs[j%len(zs)], zs[(i+2*j)%len(zs)])
							sa, sb := snapOf(a), snapOf(b)
							for k, op := range ops {
								if op.name == "AddGroupElements" && (i+j)%4 != 0 {
									continue
								}
								what := func() string {
									return fmt.Sprintf("%s of %s (%s) and %s (%s)", op.name, p.name, repName(a), q.name, repName(b))
								}
								want := sum
								if op.sub {
									want = dif
								}
								g, no := refused(func() (ge, error) { return op.f(a, b) })
								if no && op.must(ra, rb) {
									t.Failf("%s is refused", what())
									return
								}
								if !judge(t, g, no, want, what) {
									return
								}
								if !sa.same() || !sb.same() {
									t.Failf("%s changed an operand", what())
									return
								}
								t.StateH(uint64(i)<<40 | uint64(j)<<32 | uint64(ra)<<24 | uint64(rb)<<16 | uint64(k))
							}
						})
					}
				}
			}
		}
	})

	c.Section("nil-operands", "nil as the first, second or only operand of every operation on group elements, field elements and encodings: no value", func(s *Sec) {
		type op struct {
			name string
			n    int
			f    func(a, b ge) (interface{}, error)
		}
		some := func(g ge) interface{} { // without the typed nil
			if g == nil {
				return nil
			}
			return g
		}
		var ops []op
		two := func(name string, f func(a, b ge) (ge, error)) {
			ops = append(ops, op{name, 2, func(a, b ge) (interface{}, error) { g, err := f(a, b); return some(g), err }})
		}
		one := func(name string, f func(a ge) (ge, error)) {
			ops = append(ops, op{name, 1, func(a, b ge) (interface{}, error) { g, err := f(a); return some(g), err }})
		}
		if o.add != nil {
			two("add", func(a, b ge) (ge, error) { return o.add(a, b), nil })
		}
		if o.sub != nil {
			two("subtract", func(a, b ge) (ge, error) { return o.sub(a, b), nil })
		}
		if o.padd != nil {
			two("precomputedAdd", o.padd)
		}
		if o.psub != nil {
			two("precomputedSubtract", func(a, b ge) (ge, error) { return o.psub(a, b), nil })
		}
		two("AddGroupElements", func(a, b ge) (ge, error) { return M.AddGroupElements(a, b), nil })
		if o.p2 != nil {
			one("toP2", func(a ge) (ge, error) { return o.p2(a), nil })
		}
		if o.p3 != nil {
			one("toP3", func(a ge) (ge, error) { return o.p3(a), nil })
		}
		if o.ca != nil {
			one("toCached", func(a ge) (ge, error) { return o.ca(a), nil })
		}
		if o.dbl != nil {
			one("dbl", func(a ge) (ge, error) { return o.dbl(a), nil })
		}
		if o.neg != nil {
			one("negate", o.neg)
		}
		if hasCoord {
			one("toCoordinateSystem", func(a ge) (ge, error) { return toCoord(a, crypto.P2), nil })
		}
		k3 := ref.ToLE(big.NewInt(3), 32)
		if o.scal != nil {
			one("scalarMultiply", func(a ge) (ge, error) { return o.scal(a, k3) })
		}
		if o.dscal != nil {
			one("doubleScalarMultiply", func(a ge) (ge, error) { return o.dscal(a, k3, k3) })
		}
		one("NegateGroupElement", func(a ge) (ge, error) { return M.NegateGroupElement(a), nil })
		one("DoubleGroupElement", func(a ge) (ge, error) { return M.DoubleGroupElement(a), nil })
		one("ScalarMultiplyGroupElement", func(a ge) (ge, error) { return M.ScalarMultiplyGroupElement(a, *feOf(ref.FeFromInt(3))), nil })
		one("ToRepresentation", func(a ge) (ge, error) { return M.ToRepresentation(a, crypto.P2) })
		ops = append(ops,
			op{"Encode", 1, func(a, b ge) (interface{}, error) {
				e, err := a.Encode()
				if e == nil || err != nil {
					return nil, err
				}
				return e.Raw, nil
			}},
			op{"Equals", 2, func(a, b ge) (interface{}, error) {
				if a.Equals(b) {
					return true, nil
				}
				return nil, nil
			}},
			op{"SatisfiesCurveEquation", 1, func(a, b ge) (interface{}, error) {
				if a.SatisfiesCurveEquation() {
					return true, nil
				}
				return nil, nil
			}})
		got := func(f func() (interface{}, error)) (v interface{}) {
			defer func() {
				if recover() != nil {
					v = nil
				}
			}()
			v, err := f()
			if err != nil {
				return nil
			}
			return v
		}
		for _, op := range ops {
			for i, p := range pt {
				for _, r := range reps {
					for where := 0; where < 3; where++ {
						if op.n == 1 && (where > 0 || i > 0 || r != reps[0]) {
							continue
						}
						s.Case(func(t *T) {
							g := element(p.p, r, zs[i%len(zs)], zs[1])
							a, b := g, g
							if where != 1 {
								a = nil
							}
							if where != 0 {
								b = nil
							}
							if op.name == "Equals" && where == 2 {
								return
							}
							sn := snapOf(g)
							t.Ops(1)
							if v := got(func() (interface{}, error) { return op.f(a, b) }); v != nil {
								t.Failf("%s with nil at operand %d (other operand: %s in %s) gives %v", op.name, where, p.name, repName(g), v)
								return
							}
							if !sn.same() {
								t.Failf("%s with nil at operand %d changed the other operand", op.name, where)
							}
							t.State([]byte(op.name), []byte{byte(i), byte(r), byte(where)})
						})
					}
				}
			}
		}
	})

	c.Section("one-operand", fmt.Sprintf("conversion to each of 6 representations, doubling, negation, encoding, curve equation of %d points in 6 representations: refused or right", len(pt)), func(s *Sec) {
		for i, p := range pt {
			for _, r := range reps {
				for zi, z := range zs {
					s.Case(func(t *T) {
						g := element(p.p, r, z, zs[(zi+i)%len(zs)])
						sn := snapOf(g)
						try := func(name string, want ref.Point, rep int, f func() (ge, error)) bool {
							what := func() string { return fmt.Sprintf("%s of %s in %s, scaling %d", name, p.name, repName(g), zi) }
							res, no := refused(f)
							if !judge(t, res, no, want, what) {
								return false
							}
							if !no && rep >= 0 && res.GetCoordinateSystem() != crypto.CoordinateSystem(rep) {
								t.Failf("%s gives an element in %s", what(), repName(res))
								return false
							}
							if !sn.same() {
								t.Failf("%s changed its operand", what())
								return false
							}
							return true
						}
						if o.p2 != nil && !try("toP2", p.p, int(crypto.P2), func() (ge, error) { return o.p2(g), nil }) {
							return
						}
						if o.p3 != nil && !try("toP3", p.p, int(crypto.P3), func() (ge, error) { return o.p3(g), nil }) {
							return
						}
						if o.ca != nil && !try("toCached", p.p, int(crypto.CACHED), func() (ge, error) { return o.ca(g), nil }) {
							return
						}
						if hasCoord {
							for _, to := range append([]crypto.CoordinateSystem{17, -1}, reps...) {
								if !try("toCoordinateSystem", p.p, int(to), func() (ge, error) { return toCoord(g, to), nil }) {
									return
								}
							}
						}
						if o.dbl != nil && !try("dbl", p.p.Dbl(), -1, func() (ge, error) { return o.dbl(g), nil }) {
							return
						}
						if o.neg != nil && !try("negate", p.p.Neg(), -1, func() (ge, error) { return o.neg(g) }) {
							return
						}
						if !try("NegateGroupElement", p.p.Neg(), -1, func() (ge, error) { return M.NegateGroupElement(g), nil }) ||
							!try("DoubleGroupElement", p.p.Dbl(), -1, func() (ge, error) { return M.DoubleGroupElement(g), nil }) ||
							!try("ScalarMultiplyGroupElement by 3", p.p.Dbl().Add(p.p), -1, func() (ge, error) {
								return M.ScalarMultiplyGroupElement(g, *feOf(ref.FeFromInt(3))), nil
							}) {
							return
						}
						var enc []byte
						_, no := refused(func() (ge, error) {
							e, err := g.Encode()
							if err != nil {
								return nil, err
							}
							enc = e.Raw
							return g, nil
						})
						t.Ops(1)
						if !no && !eq(enc, p.p.Encode()) {
							t.Failf("Encode of %s in %s = %x", p.name, repName(g), enc)
							return
						}
						sat := true
						_, no = refused(func() (ge, error) { sat = g.SatisfiesCurveEquation(); return g, nil })
						t.Ops(1)
						if !no && !sat {
							t.Failf("SatisfiesCurveEquation is false for %s in %s", p.name, repName(g))
							return
						}
						if !sn.same() {
							t.Failf("Encode or SatisfiesCurveEquation changed its operand, %s in %s", p.name, repName(g))
						}
						t.StateH(uint64(i)<<16 | uint64(r)<<8 | uint64(zi) | 1<<60)
					})
				}
			}
		}
	})

	c.Section("no-tables", "scalar multiplication of elements without tables, in every representation, b*B - a*A with such an A: refused or right", func(s *Sec) {
		for i, p := range pt {
			for _, r := range reps {
				for _, n := range []int64{0, 1, 2, 7, 8, 9, 255, 1 << 40} {
					s.Case(func(t *T) {
						k := ref.ToLE(big.NewInt(n), 32)
						g := element(p.p, r, zs[i%len(zs)], zs[1])
						what := func() string { return fmt.Sprintf("%d times %s in %s without tables", n, p.name, repName(g)) }
						if o.scal != nil {
							res, no := refused(func() (ge, error) { return o.scal(g, k) })
							if !judge(t, res, no, p.p.MulInt(n), what) {
								return
							}
						}
						if o.dscal != nil {
							res, no := refused(func() (ge, error) { return o.dscal(g, k, k) })
							if !judge(t, res, no, ref.B.MulInt(n).Sub(p.p.MulInt(n)), func() string { return "b*B - a*A, A = " + what() }) {
								return
							}
						}
						t.StateH(uint64(i)<<40 ^ uint64(r)<<32 ^ uint64(n) | 1<<61)
					})
				}
			}
		}
	})

	c.Section("integers", "numbers below 0 and from 2^256 on, numbers in between: bytes, field elements, encodings; refused or right", func(s *Sec) {
		var ns []*big.Int
		for i := 0; i <= 520; i++ {
			b := new(big.Int).Lsh(big.NewInt(1), uint(i))
			for d := int64(-2); d <= 2; d++ {
				x := new(big.Int).Add(b, big.NewInt(d))
				ns = append(ns, x, new(big.Int).Neg(x))
			}
		}
		lim := new(big.Int).Lsh(big.NewInt(1), 256)
		half := new(big.Int).Lsh(big.NewInt(1), 255)
		for i, n := range ns {
			s.Case(func(t *T) {
				cp := new(big.Int).Set(n)
				var by, en []byte
				var f *fe
				_, no := refused(func() (ge, error) { by = M.ToByteArray(n); return new(crypto.Ed25519GroupElement), nil })
				_, no2 := refused(func() (ge, error) { en = M.ToEncodedFieldElement(n).Raw; return new(crypto.Ed25519GroupElement), nil })
				_, no3 := refused(func() (ge, error) { f = M.ToFieldElement(n); return new(crypto.Ed25519GroupElement), nil })
				t.Ops(3)
				in := n.Sign() >= 0 && n.Cmp(lim) < 0
				if in && (no || no2 || no3) {
					t.Failf("the number %v is refused (ToByteArray %v, ToEncodedFieldElement %v, ToFieldElement %v)", n, no, no2, no3)
					return
				}
				if !no && (!in || !eq(by, ref.ToLE(n, 32))) {
					t.Failf("ToByteArray(%v) = %x", n, by)
					return
				}
				if !no2 && (!in || !eq(en, ref.ToLE(n, 32))) {
					t.Failf("ToEncodedFieldElement(%v) = %x", n, en)
					return
				}
				if !no3 && (!in || n.Cmp(half) < 0) {
					want := ref.FeFromBig(new(big.Int).Mod(n, ref.P))
					if fval(f) != want {
						t.Failf("ToFieldElement(%v) has the value %x", n, fval(f).Bytes())
						return
					}
				}
				if n.Cmp(cp) != 0 {
					t.Failf("the argument %v was changed to %v", cp, n)
				}
				t.StateH(uint64(i) | 1<<62)
				t.Outcome([]byte{byte(b2i(no))})
			})
		}
	})

	c.Section("lengths", "byte strings of every length 0..130 for group elements, field elements, points from bytes: refused unless of the right length", func(s *Sec) {
		for n := 0; n <= 130; n++ {
			for fill := 0; fill < 4; fill++ {
				s.Case(func(t *T) {
					b := pattern(n, byte(fill))
					switch fill {
					case 1:
						copy(b, ref.B.Encode())
					case 2:
						b = rep(0, n)
					case 3:
						b = rep(0x58, n)
					}
					g := guard(b)
					e, err := crypto.NewEd25519EncodedGroupElement(g.B)
					t.Ops(1)
					if (err == nil) != (n == 32) || (err == nil && (e == nil || !eq(e.Raw, b))) {
						t.Failf("NewEd25519EncodedGroupElement of %d bytes: %s", n, errStr(err))
						return
					}
					fe, err := crypto.NewEd25519EncodedFieldElement(g.B)
					t.Ops(1)
					if (err == nil) != (n == 32 || n == 64) || (err == nil && (fe == nil || !eq(fe.Raw, b))) {
						t.Failf("NewEd25519EncodedFieldElement of %d bytes: %s", n, errStr(err))
						return
					}
					want, valid := ref.Decode(b)
					if n != 32 {
						valid = false
					}
					for k := 0; k < 2; k++ {
						if k == 1 && n > 32 && eq(b[32:], rep(0, n-32)) { // as an integer it is the same
							want, valid = ref.Decode(b[:32])
						}
						el, no := refused(func() (ge, error) {
							if k == 0 {
								return (&crypto.Ed25519EncodedGroupElement{Raw: g.B}).Decode()
							}
							return M.ToGroupElement(g.B)
						})
						what := func() string { return fmt.Sprintf("decoding %d bytes %x (way %d)", n, b, k) }
						if no == valid {
							if k == 1 && no { // ToGroupElement may refuse encodings that are not canonical
								continue
							}
							t.Failf("%s: refused = %v", what(), no)
							return
						}
						if !no && !isPoint(t, el, want, what) {
							return
						}
						t.Ops(1)
					}
					if !g.Check(t, "the argument") {
						return
					}
					t.StateH(uint64(n)<<4 | uint64(fill) | 1<<59)
				})
			}
		}
	})
}

// checkC23: printed forms.
func checkC23(c *Ctx) {
	kp := int64(6)
	if c.Thorough {
		kp = 40
	}
	pt := append(pts(kp), bigPts(40)...)
	zs := zVariants()
	c.Section("field-elements", "every limb vector over {-max, 0, 1, max} for pairs of positions, the limb alphabet of C15, values around 0 and the multiples of p and 2^255 (near 0, p, 2p, -p in all digit forms): the 64 digits of the reduced encoding", func(s *Sec) {
		check := func(f *fe, k uint64) {
			s.Case(func(t *T) {
				w := hex.EncodeToString(fval(f).Bytes())
				sn := f.Raw
				got := f.String()
				t.Ops(1)
				if got != w {
					t.Failf("String of the field element %v = %q, want %q", f.Raw, got, w)
					return
				}
				e := f.Encode()
				if es := e.String(); es != w {
					t.Failf("String of the encoding of %v = %q, want %q", f.Raw, es, w)
					return
				}
				t.Ops(2)
				if f.Raw != sn {
					t.Failf("String changed the element %v to %v", sn, f.Raw)
				}
				t.StateH(k)
				t.Outcome([]byte(got))
			})
		}
		n := uint64(0)
		for i := 0; i < 10; i++ {
			for j := 0; j <= i; j++ {
				for _, a := range []int{-(1 << 25), -1, 1, 1<<24 - 1, 1 << 25} {
					for _, b := range []int{-(1 << 24), 0, 1, 1 << 24} {
						var r crypto.FieldElements
						r[i], r[j] = int64(a), int64(b)
						check(crypto.NewEd25519FieldElement(r), n)
						n++
					}
				}
			}
		}
		for _, l := range limbVariants(ref.Zero) {
			check(crypto.NewEd25519FieldElement(crypto.FieldElements(l)), n)
			n++
		}
		for d := int64(-60); d <= 60; d++ {
			for _, l := range limbVariants(ref.FeFromInt(d)) {
				check(crypto.NewEd25519FieldElement(crypto.FieldElements(l)), n)
				n++
			}
		}
		for _, l := range feAlphabet(bnd(110, 26)) {
			check(crypto.NewEd25519FieldElement(crypto.FieldElements(l)), n)
			n++
		}
		for k := int64(-1); k <= 2; k++ {
			for d := int64(-2); d <= 2; d++ {
				for _, l := range digitForms(addB(mulB(ref.P, k), d)) {
					if within(l, bnd(110, 26)) {
						check(crypto.NewEd25519FieldElement(crypto.FieldElements(l)), n)
						n++
					}
				}
			}
		}
		for k := int64(-3); k <= 3; k++ {
			for d := int64(-40); d <= 40; d++ {
				for _, base := range []*big.Int{ref.P, pow2(255)} {
					if l := bigLimbs(addB(mulB(base, k), d)); within(l, bnd(110, 26)) {
						check(crypto.NewEd25519FieldElement(crypto.FieldElements(l)), n)
						n++
					}
				}
			}
		}
	})
	c.Section("encoded-field-elements", "every byte value at every position of 32 and 64 bytes: the digits of the bytes as they are", func(s *Sec) {
		for _, n := range []int{32, 64} {
			for i := 0; i < n; i++ {
				for v := 0; v < 256; v++ {
					s.Case(func(t *T) {
						b := pattern(n, byte(i))
						b[i] = byte(v)
						g := guard(b)
						e, err := crypto.NewEd25519EncodedFieldElement(g.B)
						if err != nil {
							t.Failf("%d bytes refused: %v", n, err)
							return
						}
						got := e.String()
						t.Ops(2)
						if got != hex.EncodeToString(b) {
							t.Failf("String of %x = %q", b, got)
							return
						}
						if !g.Check(t, "the encoding") {
							return
						}
						t.StateH(uint64(n)<<32 | uint64(i)<<8 | uint64(v))
					})
				}
			}
		}
	})
	c.Section("group-elements", fmt.Sprintf("%d points in every representation and scaling: the coordinates; coordinate accessors give the same", len(pt)), func(s *Sec) {
		for i, p := range pt {
			for _, r := range allSystems {
				for zi, z := range zs {
					s.Case(func(t *T) {
						g := element(p.p, r, z, zs[(zi+i)%len(zs)])
						sn := snapOf(g)
						w := ""
						for k, f := range []*fe{g.X, g.Y, g.Z, g.T} {
							v := "<nil>"
							if f != nil {
								v = hex.EncodeToString(fval(f).Bytes())
							}
							w += string("XYZT"[k]) + "=" + v + "\n"
						}
						got := g.String()
						t.Ops(5)
						if got != w {
							t.Failf("String of %s in %s = %q, want %q", p.name, repName(g), got, w)
							return
						}
						for k, f := range []*fe{g.GetX(), g.GetY(), g.GetZ(), g.GetT()} {
							h := []*fe{g.X, g.Y, g.Z, g.T}[k]
							if (f == nil) != (h == nil) || (f != nil && fval(f) != fval(h)) {
								t.Failf("Get%c of %s in %s gives another coordinate", "XYZT"[k], p.name, repName(g))
								return
							}
						}
						if g.GetCoordinateSystem() != r || !sn.same() {
							t.Failf("printing changed %s in %s", p.name, repName(g))
							return
						}
						t.StateH(uint64(i)<<16 | uint64(r)<<8 | uint64(zi) | 1<<60)
						t.Outcome([]byte(got))
					})
				}
			}
		}
	})
	c.Section("encoded-group-elements", "small y, y around p, points, both signs, lengths 0..70: the affine coordinates, or no coordinates", func(s *Sec) {
		one := func(b []byte, k uint64) {
			s.Case(func(t *T) {
				p, ok := ref.Decode(b)
				if len(b) != 32 {
					ok = false
				}
				g := guard(b)
				got := (&crypto.Ed25519EncodedGroupElement{Raw: g.B}).String()
				t.Ops(1)
				if ok {
					x, y := p.Affine()
					if w := fmt.Sprintf("x=%x\ny=%x\n", x.Bytes(), y.Bytes()); got != w {
						t.Failf("String of the encoded element %x = %q, want %q", b, got, w)
						return
					}
				} else if strings.Contains(got, "x=") || got == "" {
					t.Failf("String of %x, which encodes no point, = %q", b, got)
					return
				}
				if !g.Check(t, "the encoding") {
					return
				}
				t.StateH(k | 1<<61)
				t.Outcome([]byte(got))
			})
		}
		n := uint64(0)
		for d := int64(-40); d < 1200; d++ {
			y := new(big.Int).Add(ref.P, big.NewInt(d))
			if d >= 19 {
				y = big.NewInt(d - 19)
			}
			for sign := 0; sign < 2; sign++ {
				b := ref.ToLE(y, 32)
				b[31] |= byte(sign) << 7
				one(b, n)
				n++
			}
		}
		for _, p := range pt {
			one(p.p.Encode(), n)
			n++
		}
		for l := 0; l <= 70; l++ {
			b := make([]byte, l)
			copy(b, ref.B.Encode())
			one(b, n)
			n++
		}
	})
}
