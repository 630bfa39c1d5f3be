package main

import (
	"fmt"
	"strings"

	crypto "github.com/proximax-storage/go-xpx-crypto"
	"verifharness/ref"
)

// nearBytes: everything at distance one of b: single-bit changes, exchanged
// neighbouring bytes, words and halves, changes that common checksums do not
// notice, and (if the length may vary) one byte more or less at either end.
func nearBytes(b []byte, vary bool) [][]byte {
	var r [][]byte
	if len(b) > 200 {
		for i := 0; i < 8*len(b); i++ {
			if i%8 == 3 && (i < 80 || i >= 8*(len(b)-10) || i/8%(len(b)/40) == 0 || i/8%512 < 2 || i/8%136 == 0) {
				r = append(r, flip(b, i))
			}
		}
		if vary {
			r = append(r, append(append([]byte{}, b...), 0), append([]byte{0}, b...), b[:len(b)-1], b[1:], nil)
		}
		return r
	}
	for i := 0; i < 8*len(b); i++ {
		r = append(r, flip(b, i))
	}
	for _, w := range []int{1, 4, 8, 16} {
		for i := 0; i+2*w <= len(b); i += w {
			c := append([]byte{}, b...)
			copy(c[i:], b[i+w:i+2*w])
			copy(c[i+w:], b[i:i+w])
			if !eq(c, b) {
				r = append(r, c)
			}
		}
	}
	// byte sums, and exclusive ors, agree
	for i := 0; i+1 < len(b); i++ {
		c := append([]byte{}, b...)
		c[i], c[i+1] = c[i]+1, c[i+1]-1
		d := append([]byte{}, b...)
		d[i], d[i+1] = d[i]^0x40, d[i+1]^0x40
		r = append(r, c, d)
	}
	r = append(r, sameSums(b)...)
	if vary {
		r = append(r, append(append([]byte{}, b...), 0), append([]byte{0}, b...), b[:len(b)-1], b[1:], nil,
			append(append([]byte{}, b...), b...))
	}
	return r
}

type nearOp struct {
	name string
	base []byte
	vary bool
	// mk makes the shared objects of one sequence and returns the operation
	mk func(g *Guards) func(x []byte) (got, want []byte)
}

// nearOps: the operations, with other base arguments for every variant.
func nearOps(variant int) []nearOp {
	pattern, seedKey := variantOf(variant)
	seed, seed1 := seedKey(3), seedKey(4)
	pub, pub1 := pubOf(seed), pubOf(seed1)
	salt, iv := pattern(32, 7), pattern(16, 8)
	msg := pattern(40, 9)
	refS := func(seed, pub, m []byte) []byte { return ref.Sign(ref.SHA3_512, seed, pub, m) }
	gotS := func(s *crypto.Signature, err error) []byte {
		if err != nil {
			return []byte("error")
		}
		keepResult(s.R)
		keepResult(s.S)
		b := append(append([]byte{}, s.R...), s.S...)
		spoil(s)
		return b
	}
	gotC := func(s *crypto.Signature, err error) []byte { // R is the R given
		if err != nil {
			return []byte("error")
		}
		return append(append([]byte{}, s.R...), s.S...)
	}
	vb := func(p, m, s []byte) []byte { return boolB(ref.Verify(ref.SHA3_512, p, m, s[:32], s[32:])) }
	ct := ref.EncryptWith(sharedOf(seed1, pub, salt), salt, iv, pattern(20, 10))
	dec := func(seed, pub, in []byte) []byte {
		if len(in) < 64 {
			return []byte("error")
		}
		k := sharedOf(seed, pub, in[:32])
		if k == nil {
			return []byte("error")
		}
		out, ok := ref.DecryptWith(k, in)
		if !ok {
			return []byte("error")
		}
		return append([]byte("ok "), out...)
	}
	gotD := func(b []byte, err error) []byte {
		if err != nil {
			return []byte("error")
		}
		keepResult(b)
		return append([]byte("ok "), b...)
	}
	enc := func(k, in []byte) []byte {
		if k == nil {
			return []byte("error")
		}
		return ref.EncryptWith(k, salt, iv, in)
	}
	orErr := func(b []byte) []byte {
		if b == nil {
			return []byte("error")
		}
		return b
	}
	src := func() *tape { return &tape{b: append(append([]byte{}, salt...), iv...)} }
	fixed := func(f func(g *Guards, x []byte) (got, want []byte)) func(g *Guards) func(x []byte) ([]byte, []byte) {
		return func(g *Guards) func(x []byte) ([]byte, []byte) {
			return func(x []byte) ([]byte, []byte) { return f(g, x) }
		}
	}
	ops := []nearOp{
		{"Sign, private key", seed, false, fixed(func(g *Guards, x []byte) ([]byte, []byte) {
			s := crypto.NewSignerFromKeyPair(newKeyPair(g.New(x), g.New(pub)), nil)
			return gotS(s.Sign(g.New(msg))), refS(x, pub, msg)
		})},
		{"Sign, public key", pub, false, fixed(func(g *Guards, x []byte) ([]byte, []byte) {
			s := crypto.NewSignerFromKeyPair(newKeyPair(g.New(seed), g.New(x)), nil)
			return gotS(s.Sign(g.New(msg))), refS(seed, x, msg)
		})},
		{"Sign, message", msg, true, func(g *Guards) func(x []byte) ([]byte, []byte) {
			s := crypto.NewSignerFromKeyPair(newKeyPair(g.New(seed), g.New(pub)), nil)
			return func(x []byte) ([]byte, []byte) { return gotS(s.Sign(g.New(x))), refS(seed, pub, x) }
		}},
		{"Verify, public key, signature of that pair", pub, false, fixed(func(g *Guards, x []byte) ([]byte, []byte) {
			sg := refS(seed, x, msg)
			s := crypto.NewSignerFromKeyPair(newKeyPair(nil, g.New(x)), nil)
			return boolB(s.Verify(g.New(msg), sigOf(g.New(sg[:32]), g.New(sg[32:])))), vb(x, msg, sg)
		})},
		{"Verify, private key, its own signature", seed, false, fixed(func(g *Guards, x []byte) ([]byte, []byte) {
			p := pubOf(x)
			sg := refS(x, p, msg)
			s := crypto.NewSignerFromKeyPair(newKeyPair(nil, g.New(p)), nil)
			return boolB(s.Verify(g.New(msg), sigOf(g.New(sg[:32]), g.New(sg[32:])))), boolB(true)
		})},
		{"Verify, message, fixed signature", msg, true, func(g *Guards) func(x []byte) ([]byte, []byte) {
			s := crypto.NewSignerFromKeyPair(newKeyPair(nil, g.New(pub)), nil)
			sg := refS(seed, pub, msg)
			sig := sigOf(g.New(sg[:32]), g.New(sg[32:]))
			return func(x []byte) ([]byte, []byte) { return boolB(s.Verify(g.New(x), sig)), boolB(eq(x, msg)) }
		}},
		{"Verify, message, its own signature", msg, true, func(g *Guards) func(x []byte) ([]byte, []byte) {
			s := crypto.NewSignerFromKeyPair(newKeyPair(nil, g.New(pub)), nil)
			return func(x []byte) ([]byte, []byte) {
				sg := refS(seed, pub, x)
				return boolB(s.Verify(g.New(x), sigOf(g.New(sg[:32]), g.New(sg[32:])))), boolB(true)
			}
		}},
		{"Verify, signature", refS(seed, pub, msg), false, func(g *Guards) func(x []byte) ([]byte, []byte) {
			s := crypto.NewSignerFromKeyPair(newKeyPair(nil, g.New(pub)), nil)
			m := g.New(msg)
			return func(x []byte) ([]byte, []byte) {
				return boolB(s.Verify(m, sigOf(g.New(x[:32]), g.New(x[32:])))), vb(pub, msg, x)
			}
		}},
		{"MakeSignatureCanonical, S", pattern(32, 21), false, func(g *Guards) func(x []byte) ([]byte, []byte) {
			s := crypto.NewSignerFromKeyPair(newKeyPair(nil, g.New(pub)), nil)
			return func(x []byte) ([]byte, []byte) {
				n := ref.LE(x)
				return gotC(s.MakeSignatureCanonical(sigOf(g.New(pub), g.New(x)))), append(append([]byte{}, pub...), le32(n.Mod(n, ref.L))...)
			}
		}},
		{"DerivePublicKey", seed, false, func(g *Guards) func(x []byte) ([]byte, []byte) {
			k := crypto.NewEd25519KeyGenerator(src())
			return func(x []byte) ([]byte, []byte) {
				return rawKey(k.DerivePublicKey(crypto.NewPrivateKey(g.New(x)))), pubOf(x)
			}
		}},
		{"NewKeyPair", seed, false, fixed(func(g *Guards, x []byte) ([]byte, []byte) {
			kp, err := crypto.NewKeyPair(crypto.NewPrivateKey(g.New(x)), nil, nil)
			b, err := pairBytes(kp, err)
			if err == nil {
				spoil(kp.PublicKey, kp)
			}
			return resB(b, err), append(append([]byte{}, x...), pubOf(x)...)
		})},
		{"PrepareForScalarMultiply", seed, false, fixed(func(g *Guards, x []byte) ([]byte, []byte) {
			a, _ := ref.Clamped(ref.SHA3_512, x)
			return rawKey(crypto.PrepareForScalarMultiply(crypto.NewPrivateKey(g.New(x)))), le32(a)
		})},
		{"GetSharedKey, private key", seed, false, func(g *Guards) func(x []byte) ([]byte, []byte) {
			c := crypto.NewEd25519BlockCipher(newKeyPair(seed, pub), newKeyPair(nil, pub1), src())
			return func(x []byte) ([]byte, []byte) {
				return resB(c.GetSharedKey(crypto.NewPrivateKey(g.New(x)), crypto.NewPublicKey(g.New(pub1)), g.New(salt))), orErr(sharedOf(x, pub1, salt))
			}
		}},
		{"GetSharedKey, public key", pub1, false, func(g *Guards) func(x []byte) ([]byte, []byte) {
			c := crypto.NewEd25519BlockCipher(newKeyPair(seed, pub), newKeyPair(nil, pub1), src())
			return func(x []byte) ([]byte, []byte) {
				return resB(c.GetSharedKey(crypto.NewPrivateKey(g.New(seed)), crypto.NewPublicKey(g.New(x)), g.New(salt))), orErr(sharedOf(seed, x, salt))
			}
		}},
		{"GetSharedKey, salt", salt, false, func(g *Guards) func(x []byte) ([]byte, []byte) {
			c := crypto.NewEd25519BlockCipher(newKeyPair(seed, pub), newKeyPair(nil, pub1), src())
			return func(x []byte) ([]byte, []byte) {
				return resB(c.GetSharedKey(crypto.NewPrivateKey(g.New(seed)), crypto.NewPublicKey(g.New(pub1)), g.New(x))), orErr(sharedOf(seed, pub1, x))
			}
		}},
		{"Encrypt, sender's private key", seed, false, fixed(func(g *Guards, x []byte) ([]byte, []byte) {
			c := crypto.NewEd25519BlockCipher(newKeyPair(g.New(x), g.New(pub)), newKeyPair(nil, g.New(pub1)), src())
			return resB(c.Encrypt(g.New(msg))), enc(sharedOf(x, pub1, salt), msg)
		})},
		{"Encrypt, recipient's public key", pub1, false, fixed(func(g *Guards, x []byte) ([]byte, []byte) {
			c := crypto.NewEd25519BlockCipher(newKeyPair(g.New(seed), g.New(pub)), newKeyPair(nil, g.New(x)), src())
			return resB(c.Encrypt(g.New(msg))), enc(sharedOf(seed, x, salt), msg)
		})},
		{"Encrypt, randomness", append(append([]byte{}, salt...), iv...), false, func(g *Guards) func(x []byte) ([]byte, []byte) {
			t := &tape{}
			c := crypto.NewEd25519BlockCipher(newKeyPair(g.New(seed), g.New(pub)), newKeyPair(nil, g.New(pub1)), t)
			return func(x []byte) ([]byte, []byte) {
				*t = tape{b: x}
				return resB(c.Encrypt(g.New(msg))), ref.EncryptWith(sharedOf(seed, pub1, x[:32]), x[:32], x[32:], msg)
			}
		}},
		{"Encrypt, message", msg, true, func(g *Guards) func(x []byte) ([]byte, []byte) {
			t := &tape{}
			c := crypto.NewEd25519BlockCipher(newKeyPair(g.New(seed), g.New(pub)), newKeyPair(nil, g.New(pub1)), t)
			return func(x []byte) ([]byte, []byte) {
				*t = *src()
				return resB(c.Encrypt(g.New(x))), enc(sharedOf(seed, pub1, salt), x)
			}
		}},
		{"Decrypt, recipient's private key", seed, false, fixed(func(g *Guards, x []byte) ([]byte, []byte) {
			c := crypto.NewEd25519BlockCipher(newKeyPair(nil, g.New(pub1)), newKeyPair(g.New(x), g.New(pub)), src())
			return gotD(c.Decrypt(g.New(ct))), dec(x, pub1, ct)
		})},
		{"Decrypt, sender's public key", pub1, false, fixed(func(g *Guards, x []byte) ([]byte, []byte) {
			c := crypto.NewEd25519BlockCipher(newKeyPair(nil, g.New(x)), newKeyPair(g.New(seed), g.New(pub)), src())
			return gotD(c.Decrypt(g.New(ct))), dec(seed, x, ct)
		})},
		{"Decrypt, input", ct, true, func(g *Guards) func(x []byte) ([]byte, []byte) {
			c := crypto.NewEd25519BlockCipher(newKeyPair(nil, g.New(pub1)), newKeyPair(g.New(seed), g.New(pub)), src())
			return func(x []byte) ([]byte, []byte) { return gotD(c.Decrypt(g.New(x))), dec(seed, pub1, x) }
		}},
		{"encoded group element: Decode", pub, false, fixed(func(g *Guards, x []byte) ([]byte, []byte) {
			e, err := crypto.NewEd25519EncodedGroupElement(g.New(x))
			if err != nil {
				return []byte("refused"), nil
			}
			_, ok := ref.Decode(x)
			p, err := e.Decode()
			if err != nil {
				return boolB(false), boolB(ok)
			}
			q, _ := gval(p)
			r, _ := ref.Decode(x)
			return append(boolB(true), q.Encode()...), append(boolB(ok), r.Encode()...)
		})},
		{"MathUtils.ToGroupElement", pub, false, fixed(func(g *Guards, x []byte) ([]byte, []byte) {
			_, ok := ref.Decode(x)
			p, err := crypto.MathUtils.ToGroupElement(g.New(x))
			if err != nil {
				return boolB(false), boolB(ok)
			}
			q, _ := gval(p)
			r, _ := ref.Decode(x)
			return append(boolB(true), q.Encode()...), append(boolB(ok), r.Encode()...)
		})},
		{"encoded field element: Decode and Encode", pattern(32, 30), false, fixed(func(g *Guards, x []byte) ([]byte, []byte) {
			e, err := crypto.NewEd25519EncodedFieldElement(g.New(x))
			if err != nil {
				return []byte("refused"), nil
			}
			return e.Decode().Encode().Raw, ref.FeFromBytes(x).Bytes()
		})},
		{"base point times a number", pattern(31, 31), false, fixed(func(g *Guards, x []byte) ([]byte, []byte) {
			n := ref.LE(x)
			f := crypto.MathUtils.ToFieldElement(n)
			p, ok := gval(crypto.MathUtils.ScalarMultiplyGroupElement(crypto.Ed25519Group.BASE_POINT(), *f))
			if !ok {
				return []byte("no point"), nil
			}
			return p.Encode(), ref.BaseMul(n.Mod(n, ref.L)).Encode()
		})},
	}
	for _, h := range hashFns {
		ops = append(ops, nearOp{h.name, pattern(140, 33), true, fixed(func(g *Guards, x []byte) ([]byte, []byte) {
			b, err := h.f(g.New(x))
			return resB(b, err), h.want(x)
		})})
	}
	// long arguments
	for _, n := range []int{2000, 70000} {
		long := pattern(n, 34)
		for _, h := range hashFns {
			ops = append(ops, nearOp{fmt.Sprintf("%s of %d bytes", h.name, n), long, true, fixed(func(g *Guards, x []byte) ([]byte, []byte) {
				b, err := h.f(g.New(x))
				return resB(b, err), h.want(x)
			})})
		}
		ops = append(ops,
			nearOp{fmt.Sprintf("Sign, message of %d bytes", n), long, true, func(g *Guards) func(x []byte) ([]byte, []byte) {
				s := crypto.NewSignerFromKeyPair(newKeyPair(g.New(seed), g.New(pub)), nil)
				return func(x []byte) ([]byte, []byte) { return gotS(s.Sign(g.New(x))), refS(seed, pub, x) }
			}},
			nearOp{fmt.Sprintf("Verify, message of %d bytes, fixed signature", n), long, true, func(g *Guards) func(x []byte) ([]byte, []byte) {
				s := crypto.NewSignerFromKeyPair(newKeyPair(nil, g.New(pub)), nil)
				sg := refS(seed, pub, long)
				sig := sigOf(g.New(sg[:32]), g.New(sg[32:]))
				return func(x []byte) ([]byte, []byte) { return boolB(s.Verify(g.New(x), sig)), boolB(eq(x, long)) }
			}},
			nearOp{fmt.Sprintf("Encrypt, message of %d bytes", n), long, true, func(g *Guards) func(x []byte) ([]byte, []byte) {
				t := &tape{}
				c := crypto.NewEd25519BlockCipher(newKeyPair(g.New(seed), g.New(pub)), newKeyPair(nil, g.New(pub1)), t)
				return func(x []byte) ([]byte, []byte) {
					*t = *src()
					return resB(c.Encrypt(g.New(x))), enc(sharedOf(seed, pub1, salt), x)
				}
			}},
			nearOp{fmt.Sprintf("Decrypt, input of %d bytes", n), ref.EncryptWith(sharedOf(seed1, pub, salt), salt, iv, long), true, func(g *Guards) func(x []byte) ([]byte, []byte) {
				c := crypto.NewEd25519BlockCipher(newKeyPair(nil, g.New(pub1)), newKeyPair(g.New(seed), g.New(pub)), src())
				return func(x []byte) ([]byte, []byte) { return gotD(c.Decrypt(g.New(x))), dec(seed, pub1, x) }
			}})
	}
	return ops
}

func checkC11near(c *Ctx) {
	nearSection(c, func(string) bool { return true })
	reversedSection(c, func(string) bool { return true })
	longSection(c, func(string) bool { return true })
	countedSection(c, func(string) bool { return true })
}

func nearSection(c *Ctx, want func(name string) bool) {
	var ops []nearOp
	for _, o := range append(nearOps(0), lowOps(0)...) {
		if want(o.name) {
			ops = append(ops, o)
		}
	}
	if len(ops) == 0 {
		return
	}
	c.Section("near-arguments", fmt.Sprintf("%d operations: op(x); op(y); op(x) for every y next to x (each bit changed, neighbouring bytes, words and halves exchanged, sums and exclusive ors kept, lengths changed by one), with arguments in fresh memory and in the same memory", len(ops)), func(s *Sec) {
		for _, o := range ops {
			near := o.near()
			slow := o.name == "base point times a number" || strings.HasPrefix(o.name, "MathUtils.ScalarMultiply")
			for k, y := range near {
				if !c.Thorough && slow && k%16 != 0 {
					continue
				}
				s.Case(func(t *T) {
					// every third time the arguments of all calls lie in the same memory
					g := Guards{reuse: k%3 == 1 || c.Thorough && k%3 == 2}
					keepResults()
					defer dropResults()
					f := o.mk(&g)
					m := len(g.list)
					for i, x := range [][]byte{o.base, y, o.base} {
						g.Again(m)
						got, want := f(append([]byte{}, x...))
						t.Ops(1)
						if !eq(got, want) {
							t.Failf("%s: call %d of op(x); op(y); op(x) with x=%s y=%s gives %s, should be %s", o.name, i+1, hx(o.base), hx(y), hx(got), hx(want))
							return
						}
						t.Outcome(got)
						t.State([]byte(o.name), y, []byte{byte(i)}, got)
						keepResult(got)
					}
					if f = nil; k%64 == 5 {
						collect()
					}
					g.Check(t, o.name+": an argument")
					checkResults(t, o.name)
				})
			}
		}
	})
}

// near: the arguments next to the base
func (o nearOp) near() [][]byte {
	if strings.HasPrefix(o.name, "key text") {
		return append(textNear(o.base), dictBytes(o.base, true)...)
	}
	r := nearBytes(o.base, o.vary)
	if len(o.base) <= 200 {
		r = append(r, dictBytes(o.base, o.vary)...)
	}
	return r
}

// reversedSection: the neighbours first, so that what is remembered of them
// would be found by the base, which no call has seen before.
func reversedSection(c *Ctx, want func(name string) bool) {
	var ops []nearOp
	for _, o := range append(nearOps(1), lowOps(1)...) {
		if want(o.name) {
			ops = append(ops, o)
		}
	}
	if len(ops) == 0 {
		return
	}
	c.Section("near-arguments-first", fmt.Sprintf("%d operations on one object: op(y) for every y next to x, then op(x), then op(y) for every y in the opposite order and op(x) again", len(ops)), func(s *Sec) {
		for _, o := range ops {
			s.Case(func(t *T) {
				near := o.near()
				step := 1
				slow := o.name == "base point times a number" || strings.HasPrefix(o.name, "MathUtils.ScalarMultiply")
				if !c.Thorough && slow {
					step = 16
				}
				var seq [][]byte
				for i := 0; i < len(near); i += step {
					seq = append(seq, near[i])
				}
				n := len(seq)
				seq = append(seq, o.base)
				for i := n - 1; i >= 0; i-- {
					seq = append(seq, seq[i])
				}
				seq = append(seq, o.base)
				g := Guards{}
				f := o.mk(&g)
				m := len(g.list)
				for i, x := range seq {
					got, want := f(append([]byte{}, x...))
					if len(g.list) > m+200 {
						g.Check(t, o.name+": an argument")
						g.list = g.list[:m]
					}
					t.Ops(1)
					if !eq(got, want) {
						t.Failf("%s: call %d of op(y) for every y next to x, op(x), and the same backwards, with x=%s, gives op(%s) = %s, should be %s", o.name, i+1, hx(o.base), hx(x), hx(got), hx(want))
						return
					}
					t.Outcome(got)
					t.State([]byte("first "+o.name), x, []byte{boolB(i > n)[0]}, got)
				}
				g.Check(t, o.name+": an argument")
			})
		}
	})
}

// manyArgs: n different arguments of the kind of the operation.
func manyArgs(o nearOp, n int) [][]byte {
	var r [][]byte
	for j := 0; j < n; j++ {
		l := len(o.base)
		if strings.HasPrefix(o.name, "key text") {
			b := pattern(32, byte(j))
			b[j%32] ^= byte(j >> 8)
			b[(j+7)%32] ^= byte(j>>8) << 4
			r = append(r, []byte(fmt.Sprintf("%x", b)))
			continue
		}
		if o.vary {
			l += j % 5
		}
		b := pattern(l, byte(j))
		// the high part of the number at a place that moves
		b[j%l] ^= byte(j >> 8)
		b[(j+l/2)%l] ^= byte(j>>8) << 4
		r = append(r, b)
	}
	return r
}

// longSection: histories of many calls with different arguments on one object,
// so that whatever is remembered of earlier calls fills up and is replaced.
func longSection(c *Ctx, want func(name string) bool) {
	var ops []nearOp
	for _, o := range append(nearOps(0), lowOps(0)...) {
		if want(o.name) && len(o.base) < 70000 {
			ops = append(ops, o)
		}
	}
	if len(ops) == 0 {
		return
	}
	n := 1100
	switch {
	case c.Thorough:
		n = 9000
	case c.Prop != "C11":
		n = 4200
	}
	c.Section("long-histories", fmt.Sprintf("%d operations: %d calls (a third for encryption, a tenth for slow helpers and long arguments) with different arguments, then the same in the same and in the opposite order", len(ops), n), func(s *Sec) {
		for _, o := range ops {
			for _, reuse := range []bool{false, true} {
				if reuse && !c.Thorough {
					continue
				}
				s.Case(func(t *T) {
					n := n
					if len(o.base) > 200 {
						n /= 10
					}
					if strings.HasPrefix(o.name, "base point times") || strings.HasPrefix(o.name, "MathUtils.ScalarMultiply") || strings.HasPrefix(o.name, "double scalar") {
						n /= 10
					}
					for _, p := range []string{"Encrypt,", "Decrypt,", "GetSharedKey,", "scalar multiplication, point"} {
						if strings.HasPrefix(o.name, p) {
							n /= 3
						}
					}
					ref.Memo = true
					defer func() { ref.Memo = false }()
					keepResults()
					defer dropResults()
					args := manyArgs(o, n)
					wants := make([][]byte, n)
					g := Guards{reuse: reuse}
					f := o.mk(&g)
					m := len(g.list)
					for round := 0; round < 3; round++ {
						for j := 0; j < n; j++ {
							i := j
							if round == 2 {
								i = n - 1 - j
							}
							g.Again(m)
							got, want := f(append([]byte{}, args[i]...))
							if !g.reuse && len(g.list) > m+200 {
								g.Check(t, o.name+": an argument")
								g.list = g.list[:m]
							}
							t.Ops(1)
							if round == 0 {
								wants[i] = want
							}
							if !eq(got, want) || !eq(want, wants[i]) {
								t.Failf("%s: call %d of %d different ones, three times, with x=%s gives %s, should be %s", o.name, round*n+j+1, n, hx(args[i]), hx(got), hx(want))
								return
							}
							if j%4 == 0 {
								keepResult(got)
							}
							if round == 2 && j%16 == 0 {
								t.Outcome(got)
								t.State([]byte("long "+o.name), args[i], got)
							}
						}
						collect()
						checkResults(t, o.name)
					}
					g.Check(t, o.name+": an argument")
				})
			}
		}
	})
}

// countedSection: the same few calls a great many times on one object in one
// process, so that whatever counts calls gets past its limits.
func countedSection(c *Ctx, want func(name string) bool) {
	// how often an operation is called: the slow ones less, but one of every kind often
	times := func(o string) int {
		slow := func(quick, own, thorough int) int {
			switch {
			case c.Thorough:
				return thorough
			case c.Prop == "C11":
				return quick
			}
			return own
		}
		has := func(ps ...string) bool {
			for _, p := range ps {
				if strings.HasPrefix(o, p) {
					return true
				}
			}
			return false
		}
		switch {
		case has("base point times", "MathUtils.Scalar"):
			return slow(0, 300, 2000)
		case has("Encrypt, randomness", "Decrypt, input", "GetSharedKey, salt"):
			return slow(0, 4200, 20000)
		case has("Encrypt,", "Decrypt,", "GetSharedKey,", "scalar multiplication, point"):
			return slow(0, 1100, 4200)
		case has("Sign, message", "Verify, signature", "DerivePublicKey", "GenerateKeyPair", "scalar multiplication, scalar"):
			return slow(0, 66000, 140000)
		case has("Sign,", "Verify,", "NewKeyPair", "double scalar"):
			return slow(0, 4200, 66000)
		}
		return slow(66000, 66000, 280000)
	}
	var ops []nearOp
	for _, o := range append(nearOps(0), lowOps(0)...) {
		if want(o.name) && len(o.base) <= 200 && times(o.name) > 0 {
			ops = append(ops, o)
		}
	}
	if len(ops) == 0 {
		return
	}
	c.Section("counted", fmt.Sprintf("%d operations with three arguments in turn, up to %d times on one object", len(ops), times("")), func(s *Sec) {
		for _, o := range ops {
			s.Case(func(t *T) {
				ref.Memo = true
				defer func() { ref.Memo = false }()
				near := nearBytes(o.base, false)
				if strings.HasPrefix(o.name, "key text") {
					near = textNear(o.base)
				}
				args := [][]byte{o.base, near[3], near[len(near)/2]}
				g := Guards{reuse: true}
				f := o.mk(&g)
				m := len(g.list)
				for i := 0; i < times(o.name); i++ {
					if i%8192 == 8191 {
						collect()
					}
					g.Again(m)
					x := args[i%3]
					got, want := f(append([]byte{}, x...))
					t.Ops(1)
					if !eq(got, want) {
						t.Failf("%s: call %d of many with three arguments in turn, x=%s, gives %s, should be %s", o.name, i+1, hx(x), hx(got), hx(want))
						return
					}
					if i%1000 == 0 {
						t.Outcome(got)
						t.State([]byte("counted "+o.name), x, []byte{byte(i / 1000)})
					}
				}
				g.Check(t, o.name+": an argument")
			})
		}
	})
}
