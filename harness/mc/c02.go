package main

import (
	"bytes"
	"fmt"
	"math/big"

	crypto "github.com/proximax-storage/go-xpx-crypto"
	"verifharness/ref"
)

func init() {
	checks["C02"] = checkC02
	checks["C03"] = checkC03
}

// verifyCase runs Verify and compares with the definition.
func verifyCase(t *T, pub, msg, R, S []byte, what string) {
	want := ref.Verify(ref.SHA3_512, pub, msg, R, S)
	var g Guards
	sg := crypto.NewSignerFromKeyPair(newKeyPair(nil, g.New(pub)), nil)
	verifyWith(t, sg.Verify, &g, pub, msg, R, S, want, what)
}

func verifyWith(t *T, f func([]byte, *crypto.Signature) bool, g *Guards, pub, msg, R, S []byte, want bool, what string) bool {
	sig := sigOf(g.New(R), g.New(S))
	got := f(g.New(msg), sig)
	t.Ops(1)
	if got != want {
		t.Failf("%s: Verify = %v, should be %v: public key %x message(%d bytes) %s R=%x S=%x", what, got, want, pub, len(msg), hx(msg), R, S)
		return false
	}
	v := byte(0)
	if got {
		v = 1
	}
	t.State(pub, msg, R, S, []byte{v})
	t.Outcome([]byte{v})
	return g.Check(t, what+": an argument of Verify")
}

func refSign(seed, msg []byte) (R, S []byte) {
	s := ref.Sign(ref.SHA3_512, seed, pubOf(seed), msg)
	return s[:32:32], s[32:]
}

func hmod(R, pub, msg []byte) *big.Int {
	return new(big.Int).Mod(ref.LE(ref.SHA3_512(R, pub, msg)), ref.L)
}

// scalarAlphabet: scalars in (0, L) that exercise the window recoding.
func scalarAlphabet(thorough bool) []*big.Int {
	var r []*big.Int
	seen := map[string]bool{}
	add := func(x *big.Int) {
		y := new(big.Int).Mod(x, ref.L)
		if y.Sign() == 0 || seen[y.String()] {
			return
		}
		seen[y.String()] = true
		r = append(r, y)
	}
	for i := int64(1); i <= 64; i++ {
		add(bi(i))
		add(new(big.Int).Sub(ref.L, bi(i)))
	}
	for i := uint(0); i < 253; i++ {
		for _, m := range []int64{1, 3, 15, 17, 31, 33, 255} {
			add(new(big.Int).Lsh(bi(m), i))
		}
		add(new(big.Int).Sub(pow2(i), bi(1)))
	}
	for v := 0; v < 256; v++ {
		add(ref.LE(append(rep(byte(v), 31), 0)))
		add(ref.LE(append(rep(byte(v), 31), 0x0f)))
	}
	n := 100
	if thorough {
		n = 5000
	}
	for i := 0; i < n; i++ {
		add(ref.LE(ref.SHA3_512([]byte(fmt.Sprint("scalar ", i)))))
	}
	return r
}

// encodings gives every 32-byte string that decodes to p (lenient decoding).
func encodings(p ref.Point) [][]byte {
	x, y := p.Affine()
	var r [][]byte
	for _, yy := range []*big.Int{y.Big(), new(big.Int).Add(y.Big(), ref.P)} {
		if yy.BitLen() > 255 {
			continue
		}
		b := ref.ToLE(yy, 32)
		c := append([]byte{}, b...)
		c[31] |= 0x80
		if x.IsZero() {
			r = append(r, b, c)
		} else if x.Odd() {
			r = append(r, c)
		} else {
			r = append(r, b)
		}
	}
	return r
}

func checkC02(c *Ctx) {
	keys := keyAlphabet(c.Thorough)

	c.Section("malformed", "nil signature; lengths of R and S 0..70 in both parts; public keys of length 0..70 and undecodable; S of 0 and >= L", func(s *Sec) {
		seed := seedKey(0)
		pub := pubOf(seed)
		msg := pattern(40, 1)
		R, S := refSign(seed, msg)
		for wi := 0; wi < 3; wi++ {
			s.Case(func(t *T) {
				kp := newKeyPair(nil, pub)
				fs := []func([]byte, *crypto.Signature) bool{crypto.NewSignerFromKeyPair(kp, nil).Verify, crypto.NewEd25519DsaSigner(kp).Verify,
					crypto.NewSigner(crypto.CryptoEngines.Ed25519Engine.CreateDsaSigner(kp)).Verify}
				if fs[wi](msg, nil) {
					t.Failf("a nil signature is accepted")
				}
				t.Ops(1)
				t.State([]byte{byte(wi)})
			})
		}
		cut := func(b []byte, n int) []byte {
			if n <= len(b) {
				return b[:n]
			}
			return append(append([]byte{}, b...), rep(0, n-len(b))...)
		}
		for n := 0; n <= 70; n++ {
			s.Case(func(t *T) { verifyCase(t, pub, msg, cut(R, n), S, "length of R") })
			s.Case(func(t *T) { verifyCase(t, pub, msg, R, cut(S, n), "length of S") })
			s.Case(func(t *T) { verifyCase(t, pub, msg, cut(R, n), cut(S, n), "length of R and S") })
			s.Case(func(t *T) { verifyCase(t, cut(pub, n), msg, R, S, "length of the public key") })
			s.Case(func(t *T) { // a signature that was made for the odd key
				p := cut(pub, n)
				g := ref.Sign(ref.SHA3_512, seed, p, msg)
				verifyCase(t, p, msg, g[:32], g[32:], "length of the public key, signature made for it")
			})
			s.Case(func(t *T) { verifyCase(t, rep(0, n), msg, R, S, "all-zero public key") })
		}
		s.Case(func(t *T) { verifyCase(t, pub, msg, nil, S, "nil R") })
		s.Case(func(t *T) { verifyCase(t, pub, msg, R, nil, "nil S") })
		s.Case(func(t *T) { verifyCase(t, nil, msg, R, S, "nil public key") })
		// all-zero key: the point of order 4 with y=0; make the equation hold
		for i := 0; i < 64; i++ {
			s.Case(func(t *T) {
				sc := bi(int64(i + 1))
				A, _ := ref.Decode(rep(0, 32))
				for j := int64(0); j < 4; j++ {
					R := ref.BaseMul(sc).Add(A.MulInt(j)).Encode()
					verifyCase(t, rep(0, 32), msg, R, le32(sc), "all-zero public key, equation holds for one of four R")
				}
			})
		}
		y := 0
		for v := 0; v < 300; v++ {
			b := le32(bi(int64(v)))
			if _, ok := ref.Decode(b); !ok {
				y++
				s.Case(func(t *T) { verifyCase(t, b, msg, R, S, "public key that is not a point") })
			}
		}
		// S = 0 and S >= L where the equation holds (A neutral)
		neutral := ref.Neutral.Encode()
		for k := int64(0); k <= 15; k++ {
			for d := int64(-2); d <= 2; d++ {
				v := addB(mulB(ref.L, k), d)
				if v.Sign() < 0 || v.BitLen() > 256 {
					continue
				}
				s.Case(func(t *T) {
					verifyCase(t, neutral, msg, ref.BaseMul(new(big.Int).Mod(v, ref.L)).Encode(), le32(v), "S around a multiple of L, equation holds")
				})
				s.Case(func(t *T) {
					v := new(big.Int).Add(ref.LE(S), mulB(ref.L, k))
					if v.BitLen() <= 256 {
						verifyCase(t, pub, msg, R, le32(v), "S plus a multiple of L")
					}
				})
			}
		}
	})

	c.Section("valid", fmt.Sprintf("%d keys x 4 messages: reference signature accepted, own signature accepted, wrong message refused", len(keys)), func(s *Sec) {
		for ki, k := range keys {
			for mi, n := range []int{0, 1, 32, 150} {
				s.Case(func(t *T) {
					msg := pattern(n, byte(ki))
					pub := pubOf(k)
					R, S := refSign(k, msg)
					t.Sample(func() string { return fmt.Sprintf("key %x message %x", k, msg) })
					verifyCase(t, pub, msg, R, S, "reference signature")
					if mi == 1 {
						kp := newKeyPair(k, pub)
						sig, err := crypto.NewSignerFromKeyPair(kp, nil).Sign(msg)
						if err != nil || !crypto.NewSignerFromKeyPair(kp, nil).Verify(msg, sig) {
							t.Failf("own signature is not accepted: key %x", k)
						}
						t.Ops(2)
						verifyCase(t, pub, append(msg, 0), R, S, "message with a byte more")
						verifyCase(t, pub, msg[:len(msg)-1], R, S, "message with a byte less")
					}
				})
			}
		}
	})

	c.Section("look-alikes", "messages that look like text, digits, encodings, keys, signatures, padded blocks: accepted as they are, refused with a byte more, less or changed at either end", func(s *Sec) {
		k := seedKey(2)
		pub := pubOf(k)
		for _, m := range lookalikes(k, pub) {
			s.Case(func(t *T) {
				R, S := refSign(k, m)
				verifyCase(t, pub, m, R, S, "message")
				n := len(m)
				var others [][]byte
				for _, x := range []byte{0, ' ', '\n', 1, 0xff} {
					others = append(others, append(append([]byte{}, m...), x), append([]byte{x}, m...))
				}
				if n > 0 {
					others = append(others, m[1:], m[:n-1], flip(m, 0), flip(m, 8*n-1), flip(m, 5), flip(m, 8*n-3), bytes.ToUpper(m), bytes.ToLower(m), bytes.TrimSpace(m), append(m[:n:n], m...))
				}
				for _, o := range others {
					verifyCase(t, pub, o, R, S, "other message")
				}
			})
		}
	})

	c.Section("relations", "public keys a*B and R = r*B for scalars a and r out of 14 (related to each other, tiny, negative, those of a private key), messages that contain or equal key, R or S-like parts: accepted, and refused with S + 1, -S, R or the key negated or exchanged", func(s *Sec) {
		sc, _ := ref.Clamped(ref.SHA3_512, seedKey(2))
		sc.Mod(sc, ref.L)
		var vals []*big.Int
		for _, v := range []*big.Int{bi(0), bi(1), bi(2), bi(8), bi(-1), bi(-2), sc, new(big.Int).Neg(sc), addB(sc, 1), addB(sc, -1), mulB(sc, 2), new(big.Int).Mul(sc, sc), new(big.Int).ModInverse(sc, ref.L), pow2(252)} {
			vals = append(vals, new(big.Int).Mod(v, ref.L))
		}
		for _, a := range vals {
			A := ref.BaseMul(a).Encode()
			for _, r := range vals {
				R := ref.BaseMul(r).Encode()
				for mi, m := range [][]byte{{}, A, R, append(append([]byte{}, A...), R...), append(append([]byte{}, R...), A...), append(append(append([]byte{}, R...), A...), 1, 2, 3), append(append([]byte{}, A...), 4, 5, 6), le32(a), le32(r), rep(0, 32), pattern(32, 1)} {
					s.Case(func(t *T) {
						h := hmod(R, A, m)
						x := new(big.Int).Mul(h, a)
						x.Add(x, r).Mod(x, ref.L)
						S := le32(x)
						t.Sample(func() string { return fmt.Sprintf("A = %v B, R = %v B, message %x", a, r, m) })
						verifyCase(t, A, m, R, S, "related key and R")
						if mi%4 == 0 {
							neg := func(b []byte) []byte { return flip(b, 255) }
							verifyCase(t, A, m, R, le32(addB(x, 1)), "related, S + 1")
							verifyCase(t, A, m, R, le32(new(big.Int).Sub(ref.L, x)), "related, -S")
							verifyCase(t, A, m, neg(R), S, "related, -R")
							verifyCase(t, neg(A), m, R, S, "related, -A")
							verifyCase(t, R, m, A, S, "related, exchanged")
							verifyCase(t, A, m, R, le32(r), "related, S = r")
							verifyCase(t, A, m, R, le32(h), "related, S = h")
							verifyCase(t, A, m, R, R, "related, S the bytes of R")
							verifyCase(t, A, m, A, S, "related, R the bytes of A")
						}
					})
				}
			}
		}
	})

	c.Section("extreme", fmt.Sprintf("%d keys whose derived values (public key, R, challenge, S, ...) are the most extreme of 4 million: accepted, and refused with R, S, key or message changed at either end", len(extremeTable)), func(s *Sec) {
		for _, e := range extremeTable {
			s.Case(func(t *T) {
				k := extremeKey(e.n)
				pub := pubOf(k)
				R, S := refSign(k, extremeMsg)
				t.Sample(func() string { return fmt.Sprintf("key %x, extreme %s", k, e.what) })
				verifyCase(t, pub, extremeMsg, R, S, e.what)
				for _, bit := range []int{0, 7, 8, 247, 248, 254, 255} {
					verifyCase(t, pub, extremeMsg, flip(R, bit), S, e.what+", R changed")
					verifyCase(t, pub, extremeMsg, R, flip(S, bit), e.what+", S changed")
					verifyCase(t, flip(pub, bit), extremeMsg, R, S, e.what+", key changed")
				}
				verifyCase(t, pub, flip(extremeMsg, 3), R, S, e.what+", message changed")
			})
		}
	})

	c.Section("bit-flips", "every single-bit change of R, S, public key and a 48-byte message, for 3 keys (6 thorough)", func(s *Sec) {
		n := 3
		if c.Thorough {
			n = 6
		}
		for ki := 0; ki < n; ki++ {
			seed := seedKey(ki)
			pub := pubOf(seed)
			msg := pattern(48, byte(ki))
			R, S := refSign(seed, msg)
			for bit := 0; bit < 256; bit++ {
				s.Case(func(t *T) { verifyCase(t, pub, msg, flip(R, bit), S, "bit of R") })
				s.Case(func(t *T) { verifyCase(t, pub, msg, R, flip(S, bit), "bit of S") })
				s.Case(func(t *T) { verifyCase(t, flip(pub, bit), msg, R, S, "bit of the public key") })
			}
			for bit := 0; bit < 8*len(msg); bit++ {
				s.Case(func(t *T) { verifyCase(t, pub, flip(msg, bit), R, S, "bit of the message") })
			}
		}
	})

	c.Section("small-order-keys", "all encodings (canonical or not) of the 8 points of small order x 12 S x 8 R", func(s *Sec) {
		for ti := range ref.Torsion {
			for _, enc := range encodings(ref.Torsion[ti]) {
				for si := int64(1); si <= 12; si++ {
					s.Case(func(t *T) {
						sc := new(big.Int).Mod(new(big.Int).Mul(bi(si), ref.LE(ref.SHA3_256(enc))), ref.L)
						for j := range ref.Torsion {
							R := ref.BaseMul(sc).Add(ref.Torsion[j]).Encode()
							verifyCase(t, enc, []byte{byte(si)}, R, le32(sc), "small-order public key")
						}
					})
				}
			}
		}
	})

	c.Section("mixed-order-keys", "A = a*B + T and R = r*B + T' for all T, T' of small order: accepted only if the exact equation holds", func(s *Sec) {
		for a := int64(1); a <= 2; a++ {
			for ti := range ref.Torsion {
				for tj := range ref.Torsion {
					s.Case(func(t *T) {
						sc := ref.LE(append(ref.SHA3_256([]byte{byte(a)})[:31], 0))
						A := ref.BaseMul(sc).Add(ref.Torsion[ti])
						r := ref.LE(append(ref.SHA3_256([]byte{byte(a), 1, byte(tj)})[:31], 0))
						R := ref.BaseMul(r).Add(ref.Torsion[tj]).Encode()
						pub := A.Encode()
						for m := 0; m < 4; m++ {
							msg := []byte{byte(m)}
							k := hmod(R, pub, msg)
							S := new(big.Int).Mul(k, sc)
							S.Add(S, r).Mod(S, ref.L)
							verifyCase(t, pub, msg, R, le32(S), "key with a small-order part")
						}
					})
				}
			}
		}
	})

	c.Section("non-canonical", "non-canonical and sign-bit encodings of public key and R, y in p..p+18 and near 2^255", func(s *Sec) {
		for d := int64(-20); d < 19; d++ {
			for _, sign := range []byte{0, 0x80} {
				s.Case(func(t *T) {
					enc := le32(addB(ref.P, d))
					enc[31] |= sign
					A, ok := ref.Decode(enc)
					for si := int64(1); si <= 3; si++ {
						sc := bi(si * 7919)
						msg := []byte{byte(si)}
						if !ok {
							verifyCase(t, enc, msg, ref.BaseMul(sc).Encode(), le32(sc), "undecodable y near p")
							continue
						}
						for j := int64(0); j < 8; j++ {
							R := ref.BaseMul(sc).Add(A.MulInt(j)).Encode()
							verifyCase(t, enc, msg, R, le32(sc), "y near p")
						}
					}
					// the same bytes as R under an ordinary key with S=1 .. 3
					k := seedKey(1)
					_, S := refSign(k, []byte{1})
					verifyCase(t, pubOf(k), []byte{1}, enc, S, "R near p")
				})
			}
		}
		// R non-canonical where the equation holds for the canonical R: A of small order, S*B-kA = neutral-ish is
		// impossible for 0<S<L unless A=-k^-1*S*B; take A = x*B with known x and solve for the message
		for _, p := range ref.Torsion {
			for _, R := range encodings(p) {
				s.Case(func(t *T) {
					// want S*B - k*A = p for k = H(R,A,M): A = a*B, S = k*a mod L gives neutral; add torsion to A
					for ti := range ref.Torsion {
						A := ref.BaseMul(bi(12345)).Add(ref.Torsion[ti])
						pub := A.Encode()
						for m := 0; m < 8; m++ {
							msg := []byte{byte(m)}
							k := hmod(R, pub, msg)
							S := new(big.Int).Mod(new(big.Int).Mul(k, bi(12345)), ref.L)
							verifyCase(t, pub, msg, R, le32(S), "R of small order")
						}
					}
				})
			}
		}
	})

	sc := scalarAlphabet(c.Thorough)
	c.Section("scalars", fmt.Sprintf("%d values of S (window patterns) with the neutral and a small-order key, so that S is free", len(sc)), func(s *Sec) {
		neutral := ref.Neutral.Encode()
		for i, x := range sc {
			s.Case(func(t *T) {
				R := ref.BaseMul(x).Encode()
				verifyCase(t, neutral, []byte{byte(i)}, R, le32(x), "free S, neutral key")
				verifyCase(t, neutral, []byte{byte(i)}, flip(R, i%256), le32(x), "free S, neutral key, bit of R")
			})
		}
	})

	all, max := 500, 1<<22
	if c.Thorough {
		all, max = 2000, 1<<25
	}
	lens := msgLengths(all, max)
	c.Section("lengths", fmt.Sprintf("message lengths 0..%d and around block and buffer sizes up to %d; each with its last, middle and first byte changed", all, max), func(s *Sec) {
		k := seedKey(2)
		pub := pubOf(k)
		for _, n := range lens {
			s.Case(func(t *T) {
				msg := pattern(n, 5)
				R, S := refSign(k, msg)
				verifyCase(t, pub, msg, R, S, "valid")
				if n > 0 {
					verifyCase(t, pub, flip(msg, 8*n-1), R, S, "last byte changed")
					verifyCase(t, pub, flip(msg, 0), R, S, "first byte changed")
					verifyCase(t, pub, flip(msg, 8*(n/2)), R, S, "middle byte changed")
				}
			})
		}
	})

	c.Section("sequences", "one signer verifying 300 signatures in turn, valid and invalid ones mixed, for 4 periods", func(s *Sec) {
		for period := 2; period <= 5; period++ {
			s.Case(func(t *T) {
				var g Guards
				k := seedKey(5)
				pub := pubOf(k)
				sg := crypto.NewSignerFromKeyPair(newKeyPair(nil, g.New(pub)), nil)
				for i := 0; i < 300; i++ {
					msg := pattern(i%7, byte(i%11))
					R, S := refSign(k, msg)
					want := true
					if i%period == period-1 {
						switch i % 3 {
						case 0:
							R = flip(R, i%256)
						case 1:
							S = flip(S, i%250)
						case 2:
							msg = append(msg, 1)
						}
						want = false
					}
					var gg Guards
					if !verifyWith(t, sg.Verify, &gg, pub, msg, R, S, want, fmt.Sprintf("call %d of one signer", i)) {
						return
					}
				}
				g.Check(t, "the public key")
			})
		}
	})
}

// sAlphabet: byte strings of 32 for S around everything a comparison with L can get wrong.
func sAlphabet(thorough bool) [][]byte {
	var r [][]byte
	seen := map[string]bool{}
	add := func(b []byte) {
		if !seen[string(b)] {
			seen[string(b)] = true
			r = append(r, append([]byte{}, b...))
		}
	}
	addI := func(x *big.Int) {
		if x.Sign() >= 0 && x.BitLen() <= 256 {
			add(le32(x))
		}
	}
	for k := int64(0); k <= 16; k++ {
		for d := int64(-300); d <= 300; d++ {
			addI(addB(mulB(ref.L, k), d))
		}
		for i := uint(0); i < 256; i++ {
			addI(new(big.Int).Add(mulB(ref.L, k), pow2(i)))
			addI(new(big.Int).Sub(mulB(ref.L, k), pow2(i)))
		}
	}
	for i := uint(0); i <= 256; i++ {
		for d := int64(-3); d <= 3; d++ {
			addI(addB(pow2(i), d))
		}
	}
	l := le32(ref.L)
	fills := []byte{0x00, 0xff, 0x01}
	// equal to L above byte i, different at byte i, anything below
	for i := 0; i < 32; i++ {
		for _, dv := range []int{-1, 1, 0x10, -0x10, 0x80} {
			b := append([]byte{}, l...)
			b[i] = byte(int(b[i]) + dv)
			add(b)
			for _, f := range fills {
				for j := 0; j < i; j++ {
					b[j] = f
				}
				add(b)
			}
			b = append([]byte{}, l...)
			b[i] = byte(int(b[i]) + dv)
			for j := 0; j < 32; j++ { // a second difference, both directions
				for _, dw := range []int{-1, 1} {
					e := append([]byte{}, b...)
					e[j] = byte(int(e[j]) + dw)
					add(e)
				}
			}
		}
	}
	// words: every combination of {0, L's word, L's word +-1, all ones} in the four 64-bit words
	for v := 0; v < 625; v++ {
		x := v
		b := append([]byte{}, l...)
		for w := 0; w < 4; w++ {
			word := ref.LE(b[8*w : 8*w+8])
			switch x % 5 {
			case 1:
				word = bi(0)
			case 2:
				word = new(big.Int).Sub(pow2(64), bi(1))
			case 3:
				word = new(big.Int).And(addB(word, 1), new(big.Int).Sub(pow2(64), bi(1)))
			case 4:
				if word.Sign() == 0 {
					word = bi(7)
				} else {
					word = addB(word, -1)
				}
			}
			copy(b[8*w:], ref.ToLE(word, 8))
			x /= 5
		}
		add(b)
	}
	for v := 0; v < 256; v++ {
		for n := 0; n <= 32; n++ {
			b := rep(0, 32)
			for j := 0; j < n; j++ {
				b[j] = byte(v)
			}
			add(b)
		}
		for i := 0; i < 32; i++ {
			b := append([]byte{}, l...)
			b[i] = byte(v)
			add(b)
			b = rep(0, 32)
			b[i] = byte(v)
			add(b)
		}
	}
	if thorough {
		for i := 0; i < 32; i++ {
			for j := 0; j < i; j++ {
				for v := 0; v < 256; v += 3 {
					for w := 0; w < 256; w += 5 {
						b := append([]byte{}, l...)
						b[i], b[j] = byte(v), byte(w)
						add(b)
					}
				}
			}
		}
	}
	return r
}

func checkC03(c *Ctx) {
	ss := sAlphabet(c.Thorough)
	neutral := ref.Neutral.Encode()
	c.Section("canonical", fmt.Sprintf("%d values of S around 0, L, its multiples, powers of two, and every byte and word of L", len(ss)), func(s *Sec) {
		for i, S := range ss {
			s.Case(func(t *T) {
				want := ref.Canonical(S)
				t.Sample(func() string { return fmt.Sprintf("S=%x", S) })
				var g Guards
				R := ref.SHA3_256(S) // any bytes
				sig := sigOf(g.New(R), g.New(S))
				kp := newKeyPair(seedKey(0), pubOf(seedKey(0)))
				var sg crypto.DsaSigner = crypto.NewEd25519DsaSigner(kp)
				if i%2 == 0 {
					sg = crypto.NewSignerFromKeyPair(kp, nil)
				}
				got := sg.IsCanonicalSignature(sig)
				t.Ops(1)
				if got != want {
					t.Failf("IsCanonicalSignature = %v, should be %v: S=%x", got, want, S)
					return
				}
				red := le32(new(big.Int).Mod(ref.LE(S), ref.L))
				can, err := sg.MakeSignatureCanonical(sig)
				t.Ops(1)
				if err != nil || can == nil {
					t.Failf("MakeSignatureCanonical: %s: S=%x", errStr(err), S)
					return
				}
				if !eq(can.R, R) || !eq(can.S, red) {
					t.Failf("MakeSignatureCanonical: got R=%x S=%x, want R=%x S=%x", can.R, can.S, R, red)
					return
				}
				again, err := sg.MakeSignatureCanonical(can)
				t.Ops(1)
				if err != nil || !eq(again.R, R) || !eq(again.S, red) {
					t.Failf("MakeSignatureCanonical is not idempotent: S=%x", S)
					return
				}
				if c := sg.IsCanonicalSignature(can); c != (ref.LE(red).Sign() > 0) {
					t.Failf("canonical form reported as canonical=%v: S=%x", c, S)
				}
				t.Ops(1)
				for j := range can.S { // the new S is not the caller's memory
					can.S[j] ^= 0xff
				}
				if !g.Check(t, "the original signature") {
					return
				}
				v := byte(0)
				if want {
					v = 1
				}
				t.State(S, []byte{v})
				t.Outcome([]byte{v})
			})
		}
	})
	c.Section("verify", "the same S with the neutral key and R = S*B, where the curve equation holds for every S: accepted exactly when canonical", func(s *Sec) {
		step := 4
		if c.Thorough {
			step = 1
		}
		for i := 0; i < len(ss); i += step {
			S := ss[i]
			s.Case(func(t *T) {
				R := ref.BaseMul(new(big.Int).Mod(ref.LE(S), ref.L)).Encode()
				verifyCase(t, neutral, nil, R, S, "equation holds, only canonicity decides")
			})
		}
	})
	c.Section("malleate", "valid signatures of 40 keys (400 thorough) with S + k*L for every k that fits 256 bits", func(s *Sec) {
		n := 40
		if c.Thorough {
			n = 400
		}
		for ki := 0; ki < n; ki++ {
			k := seedKey(ki)
			msg := pattern(ki, byte(ki))
			for m := int64(0); m <= 16; m++ {
				s.Case(func(t *T) {
					R, S := refSign(k, msg)
					v := new(big.Int).Add(ref.LE(S), mulB(ref.L, m))
					if v.BitLen() > 256 {
						return
					}
					verifyCase(t, pubOf(k), msg, R, le32(v), "S + k*L")
					// negated S belongs to the negated R only
					verifyCase(t, pubOf(k), msg, R, le32(new(big.Int).Sub(ref.L, ref.LE(S))), "L - S")
					sg := crypto.NewEd25519DsaSigner(newKeyPair(nil, pubOf(k)))
					can, err := sg.MakeSignatureCanonical(sigOf(R, le32(v)))
					t.Ops(2)
					if err != nil || !sg.Verify(msg, can) {
						t.Failf("the canonical form of S + %d*L is not accepted: key %x", m, k)
					}
				})
			}
		}
	})
}
