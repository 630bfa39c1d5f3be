package main

import (
	"fmt"

	"verifharness/ref"

	crypto "github.com/proximax-storage/go-xpx-crypto"
)

// Random sources that are themselves made with the library: a Read that runs
// operations before it delivers, and a Read that panics once.

type callingSource struct {
	*adversary
	at     int // Read call at which inner runs
	inside bool
	inner  func()
}

func (r *callingSource) Read(p []byte) (int, error) {
	if r.inside { // inner operations may use the same source
		return r.adversary.Read(p)
	}
	if r.calls == r.at && r.inner != nil {
		r.inside = true
		r.inner()
		r.inside = false
	}
	return r.adversary.Read(p)
}

type innerOp struct {
	name string
	run  func(w *rworld, t *T) (got, want []byte)
}

// innerOps are run from inside the source, on the objects of the outer operation.
func innerOps() []innerOp {
	a, b := seedKey(0), seedKey(1)
	pa, pb := pubOf(a), pubOf(b)
	msg := pattern(40, 8)
	salt := pattern(32, 9)
	iv := pattern(16, 10)
	sig := ref.Sign(ref.SHA3_512, a, pa, msg)
	ct := ref.EncryptWith(sharedOf(a, pb, salt), salt, iv, msg)
	fromSource := func(o int) func(w *rworld, t *T) ([]byte, []byte) {
		return func(w *rworld, t *T) ([]byte, []byte) {
			src := &adversary{stream: pattern(400, byte(77+o))}
			w2 := newWorld(src, o%2 == 0)
			out, err := rops[o].run(w2)
			if err != nil {
				return []byte("error " + err.Error()), nil
			}
			return out, rops[o].want(src.stream[:src.pos])
		}
	}
	ops := []innerOp{
		{"Sign", func(w *rworld, t *T) ([]byte, []byte) {
			s, err := w.eng.CreateDsaSigner(newKeyPair(a, pa)).Sign(append([]byte{}, msg...))
			if err != nil {
				return nil, sig
			}
			return s.Bytes(), sig
		}},
		{"Verify", func(w *rworld, t *T) ([]byte, []byte) {
			s, _ := crypto.NewSignatureFromBytes(append([]byte{}, sig...))
			if w.eng.CreateDsaSigner(newKeyPair(a, pa)).Verify(append([]byte{}, msg...), s) {
				return []byte{1}, []byte{1}
			}
			return []byte{0}, []byte{1}
		}},
		{"Decrypt with the same cipher", func(w *rworld, t *T) ([]byte, []byte) {
			// c1 is from a to b: it decrypts with b's key
			out, err := w.c1.Decrypt(append([]byte{}, ct...))
			if err != nil {
				return []byte(err.Error()), msg
			}
			return out, msg
		}},
		{"DerivePublicKey", func(w *rworld, t *T) ([]byte, []byte) {
			return w.gen.DerivePublicKey(crypto.NewPrivateKey(append([]byte{}, b...))).Raw, pb
		}},
		{"NewKeyPair", func(w *rworld, t *T) ([]byte, []byte) {
			kp, err := crypto.NewKeyPair(crypto.NewPrivateKey(append([]byte{}, b...)), nil, w.eng)
			if err != nil {
				return []byte(err.Error()), pb
			}
			return kp.PublicKey.Raw, pb
		}},
		{"GetSharedKey with the same cipher", func(w *rworld, t *T) ([]byte, []byte) {
			c, ok := w.c1.(*crypto.Ed25519BlockCipher)
			if !ok {
				return nil, nil
			}
			out, err := c.GetSharedKey(crypto.NewPrivateKey(append([]byte{}, a...)), crypto.NewPublicKey(append([]byte{}, pb...)), append([]byte{}, salt...))
			if err != nil {
				return []byte(err.Error()), nil
			}
			return out, sharedOf(a, pb, salt)
		}},
		{"HashesSha3_512", func(w *rworld, t *T) ([]byte, []byte) {
			out, _ := crypto.HashesSha3_512(append([]byte{}, msg...), append([]byte{}, salt...))
			return out, ref.SHA3_512(append(append([]byte{}, msg...), salt...))
		}},
		{"HashesSha3_256", func(w *rworld, t *T) ([]byte, []byte) {
			out, _ := crypto.HashesSha3_256(append([]byte{}, msg...))
			return out, ref.SHA3_256(msg)
		}},
	}
	for o := range rops {
		ops = append(ops, innerOp{rops[o].name + " with another source", fromSource(o)})
	}
	return ops
}

func c10reentrant(c *Ctx) {
	inner := innerOps()
	c.Section("reentrant-source", fmt.Sprintf("every sequence of 2 out of 4 operations on a source whose Read runs one of %d operations of the library on the same objects, at each of the first four reads, with full and short answers", len(inner)), func(s *Sec) {
		for code := 0; code < 16; code++ {
			for _, in := range inner {
				for at := 0; at < 4; at++ {
					for _, ans := range []answer{full, half} {
						s.Case(func(t *T) {
							var plan []deviation
							if ans != full {
								plan = []deviation{{call: at, a: ans}}
							}
							adv := &adversary{stream: pattern(400, byte(code)), plan: plan}
							src := &callingSource{adversary: adv, at: at}
							w := newWorld(src, code%3 == 0)
							var got, want []byte
							ran := false
							src.inner = func() {
								got, want = in.run(w, t)
								ran = true
								t.Ops(1)
							}
							for _, o := range []int{code % 4, code / 4} {
								op := rops[o]
								adv.mark()
								out, err := op.run(w)
								t.Ops(1)
								r := adv.stream[adv.start:adv.pos]
								if err != nil {
									t.Failf("%s: error %v although the source did not fail (its Read number %d runs %s)", op.name, err, at+1, in.name)
									return
								}
								if len(r) != op.need || !eq(out, op.want(r)) {
									t.Failf("%s on a source whose Read number %d runs %s: drew %d bytes, result %s does not belong to them", op.name, at+1, in.name, len(r), hx(out))
									return
								}
								t.State([]byte(op.name+in.name), out, []byte{byte(at), byte(ans)})
							}
							if ran && !eq(got, want) {
								t.Failf("%s, run inside Read number %d of the source of operations %d: gives %s, should be %s", in.name, at+1, code, hx(got), hx(want))
							}
						})
					}
				}
			}
		}
	})

	c.Section("panicking-source", "every sequence of 3 out of 4 operations on a source that panics at one of its first five reads: the operation during which it does may panic or fail but gives nothing; all others are unaffected", func(s *Sec) {
		for code := 0; code < 64; code++ {
			for at := 0; at < 5; at++ {
				for _, k := range []int{0, 1, 31} {
					s.Case(func(t *T) {
						adv := &adversary{stream: pattern(600, byte(code))}
						src := &callingSource{adversary: adv, at: at}
						src.inner = func() {
							src.inside, src.at = false, -1
							adv.pos += k // lost
							panic(errSource)
						}
						w := newWorld(src, code%3 == 0)
						for i, o := range []int{code % 4, code / 4 % 4, code / 16} {
							op := rops[o]
							adv.mark()
							pending := src.at >= 0
							var out []byte
							var err error
							panicked := false
							func() {
								defer func() {
									if e := recover(); e != nil {
										if e != errSource {
											panic(e)
										}
										panicked = true
									}
								}()
								out, err = op.run(w)
							}()
							t.Ops(1)
							if pending && src.at < 0 { // the source panicked in this operation
								if !panicked && (err == nil || len(out) != 0) {
									t.Failf("%s: a result (%s, %v) although the source panicked", op.name, hx(out), err)
									return
								}
								continue
							}
							r := adv.stream[adv.start:adv.pos]
							if panicked || err != nil || len(r) != op.need || !eq(out, op.want(r)) {
								t.Failf("operation %d, %s: panic %v, error %v, drew %d bytes, result %s (the source panicked at read %d)", i+1, op.name, panicked, err, len(r), hx(out), at+1)
								return
							}
							t.State([]byte(op.name), out, []byte{byte(at), byte(k)})
						}
					})
				}
			}
		}
	})
}
