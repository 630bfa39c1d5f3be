package main

import (
	"bytes"
	"fmt"

	crypto "github.com/proximax-storage/go-xpx-crypto"
	"verifharness/ref"
)

func init() { checks["C01"] = checkC01 }

// signerWays lists every way a caller can obtain something that signs.
type signFn func(msg []byte) (*crypto.Signature, error)

func signerWays(kp *crypto.KeyPair) []struct {
	name string
	f    signFn
} {
	type w = struct {
		name string
		f    signFn
	}
	return []w{
		{"NewSignerFromKeyPair(nil engine)", crypto.NewSignerFromKeyPair(kp, nil).Sign},
		{"NewSignerFromKeyPair(Ed25519Engine)", crypto.NewSignerFromKeyPair(kp, crypto.CryptoEngines.Ed25519Engine).Sign},
		{"NewSignerFromKeyPair(DefaultEngine)", crypto.NewSignerFromKeyPair(kp, crypto.CryptoEngines.DefaultEngine).Sign},
		{"NewSigner(NewEd25519DsaSigner)", crypto.NewSigner(crypto.NewEd25519DsaSigner(kp)).Sign},
		{"NewEd25519DsaSigner", crypto.NewEd25519DsaSigner(kp).Sign},
		{"engine.CreateDsaSigner", crypto.CryptoEngines.DefaultEngine.CreateDsaSigner(kp).Sign},
	}
}

// signCase signs msg with the key of seed and compares with the reference.
func signCase(t *T, seed, msg []byte, f signFn, g Guards, what string) bool {
	want := ref.Sign(ref.SHA3_512, seed, pubOf(seed), msg)
	sig, err := f(g.New(msg))
	t.Ops(1)
	if err != nil || sig == nil {
		t.Failf("%s: signing failed: %s; key %x message(%d bytes) %s", what, errStr(err), seed, len(msg), hx(msg))
		return false
	}
	if !bytes.Equal(sig.R, want[:32]) || !bytes.Equal(sig.S, want[32:]) {
		t.Failf("%s: key %x message(%d bytes) %s: got R=%x S=%x want R=%x S=%x", what, seed, len(msg), hx(msg), sig.R, sig.S, want[:32], want[32:])
		return false
	}
	t.State(seed, msg, want)
	t.Outcome(want)
	return g.Check(t, what+": an argument")
}

func checkC01(c *Ctx) {
	keys := keyAlphabet(c.Thorough)

	c.Section("sequences", "signers used over and over: 3 signers x 400 calls each, interleaved in every one of 6 orders", func(s *Sec) {
		orders := [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
		for oi, order := range orders {
			s.Case(func(t *T) {
				var g Guards
				var sg []*crypto.Signer
				for i := 0; i < 3; i++ {
					seed := seedKey(i)
					sg = append(sg, crypto.NewSignerFromKeyPair(newKeyPair(g.New(seed), g.New(pubOf(seed))), nil))
				}
				t.Sample(func() string { return fmt.Sprintf("400 rounds over signers %v", order) })
				n := 400
				if c.Thorough {
					n = 4000
				}
				for r := 0; r < n; r++ {
					for _, i := range order {
						m := pattern(r%97, byte(r/3+oi))
						if !signCase(t, seedKey(i), m, sg[i].Sign, Guards{}, fmt.Sprintf("call %d of one signer", r)) {
							return
						}
					}
				}
				g.Check(t, "a key")
			})
		}
	})

	c.Section("no-private-key", "key pairs without private key x 6 ways x messages", func(s *Sec) {
		for _, n := range []int{0, 1, 32, 1000} {
			for wi := 0; wi < 6; wi++ {
				s.Case(func(t *T) {
					kp := newKeyPair(nil, pubOf(seedKey(0)))
					w := signerWays(kp)[wi]
					sig, err := w.f(pattern(n, 1))
					t.Ops(1)
					t.State([]byte(w.name), []byte{byte(n)})
					if err == nil || sig != nil {
						t.Failf("%s: signing without a private key returned %v, error %v", w.name, sig, err)
					}
				})
			}
		}
	})

	msgs := [][]byte{nil, {}, {0}, pattern(1, 7), pattern(31, 1), pattern(32, 2), pattern(64, 3), pattern(200, 4)}
	c.Section("keys", fmt.Sprintf("%d keys (zero, all ones, every single bit, zero bytes at every place, ...) x 8 messages x ways in turn", len(keys)), func(s *Sec) {
		for ki, k := range keys {
			for mi, m := range msgs {
				s.Case(func(t *T) {
					var g Guards
					kp := newKeyPair(g.New(k), g.New(pubOf(k)))
					w := signerWays(kp)[(ki+mi)%6]
					t.Sample(func() string { return fmt.Sprintf("%s key %x message %x", w.name, k, m) })
					signCase(t, k, m, w.f, g, w.name)
				})
			}
		}
	})

	kl := keyLengths()
	c.Section("key-lengths", fmt.Sprintf("private keys of %d other lengths (0..300 and up to 65536 bytes) x ways in turn", len(kl)), func(s *Sec) {
		for i, n := range kl {
			for v := 0; v < 2; v++ {
				s.Case(func(t *T) {
					k := pattern(n, byte(50+v))
					var g Guards
					kp := newKeyPair(g.New(k), g.New(pubOf(k)))
					w := signerWays(kp)[i%6]
					signCase(t, k, pattern(n%90, 3), w.f, g, fmt.Sprintf("private key of %d bytes, %s", n, w.name))
				})
			}
		}
	})
	c.Section("ways", "16 keys x 6 messages x every way to obtain a signer and a key pair", func(s *Sec) {
		for ki := 0; ki < 16; ki++ {
			k := keys[ki]
			for mi := 0; mi < 6; mi++ {
				m := msgs[mi+2]
				for wi := 0; wi < 6; wi++ {
					for kw := 0; kw < 4; kw++ {
						s.Case(func(t *T) {
							var g Guards
							var kp *crypto.KeyPair
							var err error
							raw := g.New(k)
							switch kw {
							case 0:
								kp, err = crypto.NewKeyPair(crypto.NewPrivateKey(raw), nil, nil)
							case 1:
								kp, err = crypto.NewKeyPair(crypto.NewPrivateKey(raw), crypto.NewPublicKey(g.New(pubOf(k))), crypto.CryptoEngines.Ed25519Engine)
							case 2:
								var pk *crypto.PrivateKey
								pk, err = crypto.NewPrivateKeyfromHexString(fmt.Sprintf("%x", raw))
								if err == nil {
									kp, err = crypto.NewKeyPair(pk, nil, crypto.CryptoEngines.DefaultEngine)
								}
							case 3:
								kp, err = crypto.NewKeyPairByEngine(engineWith(bytes.NewReader(raw)))
							}
							if err != nil {
								t.Failf("key pair (way %d) of key %x: %v", kw, k, err)
								return
							}
							w := signerWays(kp)[wi]
							signCase(t, k, m, w.f, g, fmt.Sprintf("%s, key pair way %d", w.name, kw))
						})
					}
				}
			}
		}
	})

	c.Section("look-alikes", "messages that look like text, digits, encodings, keys, signatures, padded blocks: signed as the bytes they are", func(s *Sec) {
		k := seedKey(2)
		for i, m := range lookalikes(k, pubOf(k)) {
			s.Case(func(t *T) {
				var g Guards
				w := signerWays(newKeyPair(g.New(k), g.New(pubOf(k))))[i%6]
				signCase(t, k, m, w.f, g, w.name)
			})
		}
	})

	c.Section("extreme", fmt.Sprintf("%d keys whose derived values (scalar, nonce, R, challenge, S, ...) are the most extreme of 4 million x ways in turn", len(extremeTable)), func(s *Sec) {
		for i, e := range extremeTable {
			s.Case(func(t *T) {
				k := extremeKey(e.n)
				var g Guards
				kp := newKeyPair(g.New(k), g.New(pubOf(k)))
				w := signerWays(kp)[i%6]
				t.Sample(func() string { return fmt.Sprintf("%s key %x, extreme %s", w.name, k, e.what) })
				signCase(t, k, extremeMsg, w.f, g, w.name)
			})
		}
	})

	all, max := 700, 1<<23
	if c.Thorough {
		all, max = 3000, 1<<26
	}
	lens := msgLengths(all, max)
	c.Section("lengths", fmt.Sprintf("every message length 0..%d and lengths around powers of two, ten and hash blocks up to %d, x 2 keys", all, max), func(s *Sec) {
		for _, n := range lens {
			for ki := 0; ki < 2; ki++ {
				s.Case(func(t *T) {
					k := seedKey(ki)
					var g Guards
					kp := newKeyPair(g.New(k), g.New(pubOf(k)))
					signCase(t, k, pattern(n, byte(ki+1)), crypto.NewSignerFromKeyPair(kp, nil).Sign, g, "Sign")
				})
			}
		}
	})

	c.Section("short-messages", "every message of one and of two bytes", func(s *Sec) {
		k := seedKey(3)
		for v := 0; v < 256+65536; v++ {
			s.Case(func(t *T) {
				m := []byte{byte(v)}
				if v >= 256 {
					m = []byte{byte(v - 256), byte((v - 256) >> 8)}
				}
				var g Guards
				kp := newKeyPair(k, pubOf(k))
				signCase(t, k, m, crypto.NewSignerFromKeyPair(kp, nil).Sign, g, "Sign")
			})
		}
	})

	c.Section("bits", "every single-bit change of messages of 1..130 bytes (stride) ", func(s *Sec) {
		k := seedKey(4)
		for _, n := range []int{8, 64, 72, 130} {
			for bit := 0; bit < 8*n; bit++ {
				s.Case(func(t *T) {
					var g Guards
					kp := newKeyPair(k, pubOf(k))
					signCase(t, k, flip(pattern(n, 9), bit), crypto.NewSignerFromKeyPair(kp, nil).Sign, g, "Sign")
				})
			}
		}
	})
}
