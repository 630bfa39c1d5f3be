package main

import (
	"fmt"
	"strings"

	crypto "github.com/proximax-storage/go-xpx-crypto"
	"verifharness/ref"
)

// Objects whose content callers can change, because the fields that hold it are
// exported: what an operation does with such an object must not depend on what
// the object held during an earlier call.

type chgObj struct {
	name string
	vals [][]byte
	// mk makes the object; set changes its content (in place, or by a new slice)
	mk func(b []byte) interface{}
	// set with inPlace overwrites the bytes the object already has
	set func(o interface{}, b []byte, inPlace bool)
	ops []chgOp
}

type chgOp struct {
	name string
	f    func(o interface{}) []byte
	want func(b []byte) []byte
}

func setBytes(p *[]byte, b []byte, inPlace bool) {
	if inPlace && len(*p) == len(b) {
		copy(*p, b)
	} else {
		*p = append([]byte{}, b...)
	}
}

func chgObjs() []chgObj {
	seed, seed1 := seedKey(3), seedKey(4)
	pub, pub1 := pubOf(seed), pubOf(seed1)
	salt, iv := pattern(32, 7), pattern(16, 8)
	msg := pattern(40, 9)
	rnd := append(append([]byte{}, salt...), iv...)
	cp := func(b []byte) []byte { return append([]byte{}, b...) }
	refS := func(seed, pub, m []byte) []byte { return ref.Sign(ref.SHA3_512, seed, pub, m) }
	gotS := func(s *crypto.Signature, err error) []byte {
		if err != nil {
			return []byte("error")
		}
		return append(append([]byte{}, s.R...), s.S...)
	}
	orErr := func(b []byte) []byte {
		if b == nil {
			return []byte("error")
		}
		return b
	}
	encOf := func(k []byte) []byte {
		if k == nil {
			return []byte("error")
		}
		return ref.EncryptWith(k, salt, iv, msg)
	}
	decOf := func(k, in []byte) []byte {
		if k == nil {
			return []byte("error")
		}
		out, ok := ref.DecryptWith(k, in)
		if !ok {
			return []byte("error")
		}
		return append([]byte("ok "), out...)
	}
	gotD := func(b []byte, err error) []byte {
		if err != nil {
			return []byte("error")
		}
		return append([]byte("ok "), b...)
	}
	ct := ref.EncryptWith(sharedOf(seed1, pub, salt), salt, iv, pattern(20, 10))
	ct1 := ref.EncryptWith(sharedOf(seed, pub1, salt), salt, iv, pattern(20, 11))
	sg := refS(seed, pub, msg)
	priv := func(o interface{}) *crypto.PrivateKey { return o.(*crypto.PrivateKey) }
	pb := func(o interface{}) *crypto.PublicKey { return o.(*crypto.PublicKey) }
	sig := func(o interface{}) *crypto.Signature { return o.(*crypto.Signature) }
	kpOf := func(k *crypto.PrivateKey, p *crypto.PublicKey) *crypto.KeyPair {
		return &crypto.KeyPair{PrivateKey: k, PublicKey: p}
	}
	pk := crypto.NewPublicKey
	verifier := crypto.NewSignerFromKeyPair(newKeyPair(nil, pub), nil)
	eg := func(o interface{}) *crypto.Ed25519EncodedGroupElement { return o.(*crypto.Ed25519EncodedGroupElement) }
	ef := func(o interface{}) *crypto.Ed25519EncodedFieldElement { return o.(*crypto.Ed25519EncodedFieldElement) }
	fe := func(o interface{}) *crypto.Ed25519FieldElement { return o.(*crypto.Ed25519FieldElement) }

	pubs := [][]byte{pub, pub1, rep(0, 32), pubOf(seedKey(5)), rep(2, 32), le32(addB(ref.P, -1)), flip(pub, 255), pub[:31], append(cp(pub), 0)}
	var reals [][]byte
	for _, b := range pubs {
		if len(b) == 32 {
			reals = append(reals, b)
		}
	}
	var goods [][]byte
	for _, b := range reals {
		if p, ok := ref.Decode(b); ok && eq(p.Encode(), b) {
			goods = append(goods, b)
		}
	}
	elementOf := func(b []byte) *crypto.Ed25519GroupElement {
		p, _ := ref.Decode(b)
		return element(p, crypto.P3, ref.One, ref.One)
	}
	sigs := [][]byte{sg, refS(seed1, pub1, msg), flip(sg, 3), flip(sg, 300), append(cp(sg[:32]), le32(ref.L)...), append(cp(sg[:32]), le32(new2(ref.LE(sg[32:]), ref.L))...), rep(0, 64), rep(0xff, 64)}
	fields := [][]byte{rep(0, 32), append([]byte{1}, rep(0, 31)...), pattern(32, 3), le32(ref.P), le32(addB(ref.P, -1)), rep(0xff, 32), le32(addB(ref.L, 1)), pub}

	return []chgObj{
		{"PrivateKey", [][]byte{seed, seed1, flip(seed, 0), flip(seed, 255), rep(0, 32), seedKey(9), seed[:31], append(cp(seed), 0)},
			func(b []byte) interface{} { return crypto.NewPrivateKey(cp(b)) },
			func(o interface{}, b []byte, in bool) { setBytes(&priv(o).Raw, b, in) },
			[]chgOp{
				{"String", func(o interface{}) []byte { return []byte(priv(o).String()) }, func(b []byte) []byte { return []byte(fmt.Sprintf("%x", b)) }},
				{"PrepareForScalarMultiply", func(o interface{}) []byte { return crypto.PrepareForScalarMultiply(priv(o)).Raw }, func(b []byte) []byte {
					a, _ := ref.Clamped(ref.SHA3_512, b)
					return le32(a)
				}},
				{"DerivePublicKey", func(o interface{}) []byte {
					return crypto.CryptoEngines.DefaultEngine.CreateKeyGenerator().DerivePublicKey(priv(o)).Raw
				}, pubOf},
				{"NewKeyPair", func(o interface{}) []byte {
					kp, err := crypto.NewKeyPair(priv(o), nil, nil)
					return resB(pairBytes(kp, err))
				}, func(b []byte) []byte { return append(cp(b), pubOf(b)...) }},
				{"Sign", func(o interface{}) []byte {
					return gotS(crypto.NewSignerFromKeyPair(kpOf(priv(o), pk(cp(pub))), nil).Sign(msg))
				}, func(b []byte) []byte { return refS(b, pub, msg) }},
				{"GetSharedKey", func(o interface{}) []byte {
					c := crypto.NewEd25519BlockCipher(newKeyPair(nil, pub), newKeyPair(nil, pub1), &tape{})
					return resB(c.GetSharedKey(priv(o), pk(cp(pub1)), salt))
				}, func(b []byte) []byte { return orErr(sharedOf(b, pub1, salt)) }},
				{"Encrypt", func(o interface{}) []byte {
					return resB(crypto.NewEd25519BlockCipher(kpOf(priv(o), pk(cp(pub))), newKeyPair(nil, pub1), &tape{b: rnd}).Encrypt(msg))
				}, func(b []byte) []byte { return encOf(sharedOf(b, pub1, salt)) }},
				{"Decrypt", func(o interface{}) []byte {
					return gotD(crypto.NewEd25519BlockCipher(newKeyPair(nil, pub1), kpOf(priv(o), pk(cp(pub))), &tape{b: rnd}).Decrypt(ct))
				}, func(b []byte) []byte { return decOf(sharedOf(b, pub1, salt), ct) }},
			}},
		{"PublicKey", pubs,
			func(b []byte) interface{} { return crypto.NewPublicKey(cp(b)) },
			func(o interface{}, b []byte, in bool) { setBytes(&pb(o).Raw, b, in) },
			[]chgOp{
				{"String", func(o interface{}) []byte { return []byte(strings.ToLower(pb(o).String())) }, func(b []byte) []byte { return []byte(fmt.Sprintf("%x", b)) }},
				{"IsKeyCompressed", func(o interface{}) []byte { return boolB(crypto.NewEd25519KeyAnalyzer().IsKeyCompressed(pb(o))) }, func(b []byte) []byte { return boolB(len(b) == 32) }},
				{"Verify", func(o interface{}) []byte {
					return boolB(crypto.NewSignerFromKeyPair(kpOf(nil, pb(o)), nil).Verify(msg, sigOf(cp(sg[:32]), cp(sg[32:]))))
				}, func(b []byte) []byte { return boolB(ref.Verify(ref.SHA3_512, b, msg, sg[:32], sg[32:])) }},
				{"Sign", func(o interface{}) []byte {
					return gotS(crypto.NewSignerFromKeyPair(kpOf(crypto.NewPrivateKey(cp(seed)), pb(o)), nil).Sign(msg))
				}, func(b []byte) []byte { return refS(seed, b, msg) }},
				{"GetSharedKey", func(o interface{}) []byte {
					c := crypto.NewEd25519BlockCipher(newKeyPair(nil, pub), newKeyPair(nil, pub1), &tape{})
					return resB(c.GetSharedKey(crypto.NewPrivateKey(cp(seed)), pb(o), salt))
				}, func(b []byte) []byte { return orErr(sharedOf(seed, b, salt)) }},
				{"Decrypt", func(o interface{}) []byte {
					return gotD(crypto.NewEd25519BlockCipher(kpOf(nil, pb(o)), newKeyPair(seed, pub), &tape{}).Decrypt(ct1))
				}, func(b []byte) []byte { return decOf(sharedOf(seed, b, salt), ct1) }},
			}},
		{"recipient's PublicKey", reals,
			func(b []byte) interface{} { return crypto.NewPublicKey(cp(b)) },
			func(o interface{}, b []byte, in bool) { setBytes(&pb(o).Raw, b, in) },
			[]chgOp{{"Encrypt", func(o interface{}) []byte {
				return resB(crypto.NewEd25519BlockCipher(newKeyPair(seed, pub), kpOf(nil, pb(o)), &tape{b: rnd}).Encrypt(msg))
			}, func(b []byte) []byte { return encOf(sharedOf(seed, b, salt)) }}}},
		{"Signature", sigs,
			func(b []byte) interface{} { return sigOf(cp(b[:32]), cp(b[32:])) },
			func(o interface{}, b []byte, in bool) {
				setBytes(&sig(o).R, b[:32], in)
				setBytes(&sig(o).S, b[32:], in)
			},
			[]chgOp{
				{"Bytes", func(o interface{}) []byte { return sig(o).Bytes() }, cp},
				{"String", func(o interface{}) []byte { return []byte(sig(o).String()) }, func(b []byte) []byte { return []byte(fmt.Sprintf("%x", b)) }},
				{"GetR", func(o interface{}) []byte { return le32(sig(o).GetR()) }, func(b []byte) []byte { return cp(b[:32]) }},
				{"GetS", func(o interface{}) []byte { return le32(sig(o).GetS()) }, func(b []byte) []byte { return cp(b[32:]) }},
				{"Verify", func(o interface{}) []byte { return boolB(verifier.Verify(msg, sig(o))) }, func(b []byte) []byte {
					return boolB(ref.Verify(ref.SHA3_512, pub, msg, b[:32], b[32:]))
				}},
				{"IsCanonicalSignature", func(o interface{}) []byte { return boolB(verifier.IsCanonicalSignature(sig(o))) }, func(b []byte) []byte {
					s := ref.LE(b[32:])
					return boolB(s.Sign() > 0 && s.Cmp(ref.L) < 0)
				}},
				{"MakeSignatureCanonical", func(o interface{}) []byte { return gotS(verifier.MakeSignatureCanonical(sig(o))) }, func(b []byte) []byte {
					s := ref.LE(b[32:])
					return append(cp(b[:32]), le32(s.Mod(s, ref.L))...)
				}},
			}},
		{"encoded group element", reals,
			func(b []byte) interface{} {
				e, err := crypto.NewEd25519EncodedGroupElement(cp(b))
				if err != nil {
					panic(err)
				}
				return e
			},
			func(o interface{}, b []byte, in bool) { setBytes(&eg(o).Raw, b, in) },
			[]chgOp{
				{"Decode", func(o interface{}) []byte {
					p, err := eg(o).Decode()
					if err != nil {
						return []byte("error")
					}
					q, _ := gval(p)
					return q.Encode()
				}, func(b []byte) []byte {
					p, ok := ref.Decode(b)
					if !ok {
						return []byte("error")
					}
					return p.Encode()
				}},
				{"GetAffineY", func(o interface{}) []byte {
					y, err := eg(o).GetAffineY()
					if err != nil {
						return []byte("error")
					}
					return y.Encode().Raw
				}, func(b []byte) []byte {
					c := cp(b)
					c[31] &= 0x7f
					return ref.FeFromBytes(c).Bytes()
				}},
				{"GetAffineX", func(o interface{}) []byte {
					x, err := eg(o).GetAffineX()
					if err != nil {
						return []byte("error")
					}
					return x.Encode().Raw
				}, func(b []byte) []byte {
					c := cp(b)
					c[31] &= 0x7f
					x, ok := ref.RecoverX(ref.FeFromBytes(c), b[31]>>7 == 1)
					if !ok {
						return []byte("error")
					}
					return x.Bytes()
				}},
				{"String", func(o interface{}) []byte {
					s := eg(o).String()
					if !strings.Contains(s, "x=") {
						return []byte("error")
					}
					return []byte(s)
				}, func(b []byte) []byte {
					p, ok := ref.Decode(b)
					if !ok {
						return []byte("error")
					}
					x, y := p.Affine()
					return []byte(fmt.Sprintf("x=%x\ny=%x\n", x.Bytes(), y.Bytes()))
				}},
				{"Equals", func(o interface{}) []byte {
					return boolB(eg(o).Equals(&crypto.Ed25519EncodedGroupElement{Raw: cp(pub)}))
				}, func(b []byte) []byte { return boolB(eq(b, pub)) }},
			}},
		{"encoded field element", fields,
			func(b []byte) interface{} {
				e, err := crypto.NewEd25519EncodedFieldElement(cp(b))
				if err != nil {
					panic(err)
				}
				return e
			},
			func(o interface{}, b []byte, in bool) { setBytes(&ef(o).Raw, b, in) },
			[]chgOp{
				{"Decode", func(o interface{}) []byte { return ef(o).Decode().Encode().Raw }, func(b []byte) []byte { return ref.FeFromBytes(b).Bytes() }},
				{"IsNegative", func(o interface{}) []byte { return boolB(ef(o).IsNegative()) }, func(b []byte) []byte { return boolB(b[0]&1 == 1) }},
				{"IsNonZero", func(o interface{}) []byte { return boolB(ef(o).IsNonZero()) }, func(b []byte) []byte { return boolB(!eq(b, rep(0, 32))) }},
				{"String", func(o interface{}) []byte { return []byte(ef(o).String()) }, func(b []byte) []byte { return []byte(fmt.Sprintf("%x", b)) }},
				{"ReduceModGroupOrder", func(o interface{}) []byte { return crypto.MathUtils.ReduceModGroupOrder(ef(o)).Raw }, func(b []byte) []byte {
					s := ref.LE(b)
					return le32(s.Mod(s, ref.L))
				}},
				{"EncodedFieldToBigInteger", func(o interface{}) []byte { return le32(crypto.MathUtils.EncodedFieldToBigInteger(ef(o))) }, cp},
			}},
		{"group element", goods,
			func(b []byte) interface{} { return elementOf(b) },
			func(o interface{}, b []byte, in bool) {
				g, n := o.(*crypto.Ed25519GroupElement), elementOf(b)
				if in {
					*g.X, *g.Y, *g.Z, *g.T = *n.X, *n.Y, *n.Z, *n.T
				} else {
					g.X, g.Y, g.Z, g.T = n.X, n.Y, n.Z, n.T
				}
			},
			[]chgOp{
				{"Encode", func(o interface{}) []byte {
					e, err := o.(*crypto.Ed25519GroupElement).Encode()
					if err != nil {
						return []byte("error")
					}
					return e.Raw
				}, cp},
				{"SatisfiesCurveEquation", func(o interface{}) []byte {
					return boolB(o.(*crypto.Ed25519GroupElement).SatisfiesCurveEquation())
				}, func([]byte) []byte { return boolB(true) }},
				{"Equals", func(o interface{}) []byte {
					g := o.(*crypto.Ed25519GroupElement)
					return append(boolB(g.Equals(elementOf(pub))), boolB(elementOf(pub).Equals(g))...)
				}, func(b []byte) []byte { return append(boolB(eq(b, pub)), boolB(eq(b, pub))...) }},
				{"String", func(o interface{}) []byte { return []byte(o.(*crypto.Ed25519GroupElement).String()) }, func(b []byte) []byte {
					p, _ := ref.Decode(b)
					x, y := p.Affine()
					return []byte(fmt.Sprintf("X=%x\nY=%x\nZ=%x\nT=%x\n", x.Bytes(), y.Bytes(), ref.One.Bytes(), x.Mul(y).Bytes()))
				}},
				{"DoubleGroupElement", func(o interface{}) []byte {
					return ptOrErr(gval(crypto.MathUtils.DoubleGroupElement(o.(*crypto.Ed25519GroupElement))))
				}, func(b []byte) []byte {
					p, _ := ref.Decode(b)
					return p.Dbl().Encode()
				}},
			}},
		{"field element", fields,
			func(b []byte) interface{} { return crypto.MathUtils.ToFieldElement(ref.LE(b)) },
			func(o interface{}, b []byte, in bool) {
				x := crypto.MathUtils.ToFieldElement(ref.LE(b)).Raw
				if in {
					copy(fe(o).Raw[:], x[:])
				} else {
					fe(o).Raw = x
				}
			},
			[]chgOp{
				{"Encode", func(o interface{}) []byte { return fe(o).Encode().Raw }, func(b []byte) []byte { return ref.FeFromBytes(b).Bytes() }},
				{"String", func(o interface{}) []byte { return []byte(fe(o).String()) }, func(b []byte) []byte { return []byte(fmt.Sprintf("%x", ref.FeFromBytes(b).Bytes())) }},
				{"IsNegative", func(o interface{}) []byte { return boolB(fe(o).IsNegative()) }, func(b []byte) []byte { return boolB(ref.FeFromBytes(b).Bytes()[0]&1 == 1) }},
				{"IsNonZero", func(o interface{}) []byte { return boolB(fe(o).IsNonZero()) }, func(b []byte) []byte { return boolB(!eq(ref.FeFromBytes(b).Bytes(), rep(0, 32))) }},
				{"FieldToBigInteger", func(o interface{}) []byte { return le32(crypto.MathUtils.FieldToBigInteger(fe(o))) }, func(b []byte) []byte { return ref.FeFromBytes(b).Bytes() }},
			}},
	}
}

func checkC11chg(c *Ctx) { chgSection(c, func(string) bool { return true }) }

// chgSection compares the results of the operations want selects; the others
// run in between.
func chgSection(c *Ctx, want func(name string) bool) {
	objs := chgObjs()
	n := 0
	for _, o := range objs {
		for _, p := range o.ops {
			n += b2i(want(o.name + "." + p.name))
		}
	}
	c.Section("changed-objects", fmt.Sprintf("%d operations on %d kinds of objects whose exported content the caller changes: every pair with another operation, every pair of contents, by overwriting and by replacing", n, len(objs)), func(s *Sec) {
		for _, o := range objs {
			for _, o1 := range o.ops {
				for _, o2 := range o.ops {
					look1, look2 := want(o.name+"."+o1.name), want(o.name+"."+o2.name)
					if !look1 && !look2 {
						continue
					}
					for i, x := range o.vals {
						for j, y := range o.vals {
							if i == j || !c.Thorough && o1.name != o2.name && (i > 1 && j > 1) {
								continue
							}
							for v := 0; v < 2; v++ {
								s.Case(func(t *T) {
									obj := o.mk(x)
									st := [][]byte{[]byte(o.name + o1.name + o2.name), x, y, {byte(v)}}
									for k, b := range [][]byte{x, y, x} {
										op, look := o1, look1
										if k == 1 {
											op, look = o2, look2
										}
										if k > 0 {
											o.set(obj, b, v == 0)
										}
										got := op.f(obj)
										t.Ops(1)
										if !look {
											continue
										}
										if w := op.want(b); !eq(got, w) {
											t.Failf("%s of a %s whose content was changed from %x to %x gives %s, should be %s (after %s)", op.name, o.name, x, y, hx(got), hx(w), o1.name)
											return
										}
										st = append(st, got)
										t.Outcome(got)
									}
									t.State(st...)
								})
							}
						}
					}
				}
			}
		}
	})
}
