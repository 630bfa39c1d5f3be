package main

import (
	"fmt"
	"io"
	"math/big"

	crypto "github.com/proximax-storage/go-xpx-crypto"
	"verifharness/prerand"
	"verifharness/ref"
)

func init() {
	checks["C07"] = checkC07
	checks["C08"] = checkC08
	checks["C09"] = checkC09
}

// tape serves the bytes of a stream, in the pieces the caller asks for.
type tape struct {
	b   []byte
	pos int
}

func (r *tape) Read(p []byte) (int, error) {
	if r.pos >= len(r.b) {
		return 0, io.EOF
	}
	n := copy(p, r.b[r.pos:])
	r.pos += n
	return n, nil
}

var sharedCache = map[string][]byte{}

// sharedOf is the reference shared key; nil if there is none.
func sharedOf(seed, pub, salt []byte) []byte {
	id := string(seed) + "|" + string(pub)
	e, ok := sharedCache[id]
	if !ok {
		if A, good := ref.Decode(pub); good && len(pub) == 32 {
			a, _ := ref.Clamped(ref.SHA3_512, seed)
			e = A.Mul(a).Encode()
		}
		if len(sharedCache) < 50000 {
			sharedCache[id] = e
		}
	}
	if e == nil {
		return nil
	}
	x := append([]byte{}, e...)
	for i := range x {
		x[i] ^= salt[i]
	}
	return ref.SHA3_256(x)
}

type cryptWay struct {
	name string
	f    func(s, r *crypto.KeyPair, src io.Reader) crypto.BlockCipher
}

var cryptWays = []cryptWay{
	{"NewEd25519BlockCipher", func(s, r *crypto.KeyPair, src io.Reader) crypto.BlockCipher {
		return crypto.NewEd25519BlockCipher(s, r, src)
	}},
	{"NewBlockCipher(engine)", func(s, r *crypto.KeyPair, src io.Reader) crypto.BlockCipher {
		return crypto.NewBlockCipher(s, r, engineWith(src))
	}},
	{"engine.CreateBlockCipher", func(s, r *crypto.KeyPair, src io.Reader) crypto.BlockCipher {
		return engineWith(src).CreateBlockCipher(s, r)
	}},
}

// encCase encrypts with the sender's private key only, compares with the
// definition, and decrypts with the recipient's private key only.
func encCase(t *T, w cryptWay, sender, recipient, salt, iv, msg []byte, decrypt bool) {
	var g Guards
	spub, rpub := pubOf(sender), pubOf(recipient)
	src := &tape{b: append(append([]byte{}, salt...), iv...)}
	enc := w.f(newKeyPair(g.New(sender), g.New(spub)), newKeyPair(nil, g.New(rpub)), src)
	in := g.New(msg)
	ct, err := enc.Encrypt(in)
	t.Ops(1)
	id := func() string {
		return fmt.Sprintf("%s: sender %x recipient %x salt %x iv %x message(%d bytes) %s", w.name, sender, recipient, salt, iv, len(msg), hx(msg))
	}
	t.Sample(id)
	if err != nil {
		t.Failf("encryption failed: %v; %s", err, id())
		return
	}
	want := ref.EncryptWith(sharedOf(sender, rpub, salt), salt, iv, msg)
	if !eq(ct, want) {
		t.Failf("encryption gives %s, should be %s; %s", hx(ct), hx(want), id())
		return
	}
	if src.pos != 48 {
		t.Failf("encryption drew %d random bytes; %s", src.pos, id())
		return
	}
	if !g.Check(t, "an argument of Encrypt") {
		return
	}
	t.State(sender, recipient, want)
	t.Outcome(want)
	if !decrypt {
		return
	}
	dec := w.f(newKeyPair(nil, g.New(spub)), newKeyPair(g.New(recipient), g.New(rpub)), src)
	out, err := dec.Decrypt(g.New(want))
	t.Ops(1)
	if err != nil || !eq(out, msg) {
		t.Failf("decryption gives %s, error %s; %s", hx(out), errStr(err), id())
		return
	}
	g.Check(t, "an argument of Decrypt")
}

func checkC07(c *Ctx) {
	salt0, iv0 := pattern(32, 77), pattern(16, 78)

	c.Section("missing-keys", "encryption without the sender's, decryption without the recipient's private key x ways x lengths", func(s *Sec) {
		for _, w := range cryptWays {
			for _, n := range []int{0, 1, 16, 100} {
				s.Case(func(t *T) {
					a, b := seedKey(0), seedKey(1)
					e := w.f(newKeyPair(nil, pubOf(a)), newKeyPair(b, pubOf(b)), &tape{b: pattern(96, 1)})
					ct, err := e.Encrypt(pattern(n, 3))
					t.Ops(1)
					if err == nil || len(ct) != 0 {
						t.Failf("%s: encryption without the sender's private key gives %s, error %s", w.name, hx(ct), errStr(err))
					}
					good := ref.EncryptWith(sharedOf(a, pubOf(b), salt0), salt0, iv0, pattern(n, 3))
					d := w.f(newKeyPair(a, pubOf(a)), newKeyPair(nil, pubOf(b)), &tape{b: pattern(96, 1)})
					m, err := d.Decrypt(good)
					t.Ops(1)
					if err == nil || m != nil {
						t.Failf("%s: decryption without the recipient's private key gives %s, error %s", w.name, hx(m), errStr(err))
					}
					t.State([]byte(w.name), le32(bi(int64(n))))
				})
			}
		}
	})

	all, max := 260, 1<<22
	if c.Thorough {
		all, max = 2100, 1<<26
	}
	lens := msgLengths(all, max)
	c.Section("lengths", fmt.Sprintf("every message length 0..%d and lengths around sizes up to %d", all, max), func(s *Sec) {
		for i, n := range lens {
			s.Case(func(t *T) {
				encCase(t, cryptWays[i%3], seedKey(i%4), seedKey(4+i%3), pattern(32, byte(i)), pattern(16, byte(i+1)), pattern(n, byte(i)), true)
			})
		}
	})

	c.Section("padding-lookalikes", "message lengths 0..48 x last byte 0..17 x runs of 1..17 of it", func(s *Sec) {
		for n := 0; n <= 48; n++ {
			if !c.Thorough && n > 18 && n%8 > 1 {
				continue
			}
			for v := 0; v <= 17; v++ {
				for _, run := range []int{1, v - 1, v, v + 1, 16, 17} {
					if run < 1 || run > n || run > 17 {
						continue
					}
					s.Case(func(t *T) {
						m := pattern(n, 5)
						for i := n - run; i < n; i++ {
							m[i] = byte(v)
						}
						encCase(t, cryptWays[0], seedKey(0), seedKey(1), salt0, iv0, m, true)
					})
				}
			}
		}
	})

	c.Section("bytes", "every one-byte message, and every value of the last byte of a 16-byte and a 15-byte message", func(s *Sec) {
		for v := 0; v < 256; v++ {
			for _, n := range []int{1, 15, 16} {
				s.Case(func(t *T) {
					m := pattern(n, 8)
					m[n-1] = byte(v)
					encCase(t, cryptWays[1], seedKey(2), seedKey(3), salt0, iv0, m, true)
				})
			}
		}
	})

	c.Section("look-alikes", "messages that look like text, digits, encodings, keys, signatures, padded blocks, earlier ciphertexts", func(s *Sec) {
		a, b := seedKey(0), seedKey(1)
		ms := lookalikes(a, pubOf(a))
		for _, n := range []int{0, 1, 16, 40} {
			ct := ref.EncryptWith(sharedOf(a, pubOf(b), salt0), salt0, iv0, pattern(n, 1))
			ms = append(ms, ct, ct[:48], ct[32:], ct[48:])
		}
		ms = append(ms, salt0, iv0, append(append([]byte{}, salt0...), iv0...), sharedOf(a, pubOf(b), salt0))
		for i, m := range ms {
			s.Case(func(t *T) { encCase(t, cryptWays[i%len(cryptWays)], a, b, salt0, iv0, m, true) })
		}
	})
	c.Section("randomness", "every single bit of salt and IV flipped; salts and IVs of equal bytes (all 256 values)", func(s *Sec) {
		for bit := 0; bit < 384; bit++ {
			s.Case(func(t *T) {
				r := flip(append(append([]byte{}, salt0...), iv0...), bit)
				encCase(t, cryptWays[0], seedKey(0), seedKey(1), r[:32], r[32:], pattern(20, 1), true)
			})
		}
		for v := 0; v < 256; v++ {
			s.Case(func(t *T) {
				encCase(t, cryptWays[2], seedKey(0), seedKey(1), rep(byte(v), 32), rep(byte(255-v), 16), pattern(16, 2), true)
			})
		}
	})

	c.Section("special-randomness", "salts and IVs that random sources deliver with negligible probability (see C10, contents)", func(s *Sec) {
		for i, st := range specialStreams() {
			s.Case(func(t *T) {
				encCase(t, cryptWays[i%3], seedKey(0), seedKey(1), st.b[:32], st.b[32:48], pattern(20+i%30, 2), true)
			})
		}
	})

	keys := keyAlphabet(c.Thorough)
	if c.Thorough {
		keys = keys[:4000]
	}
	c.Section("keys", fmt.Sprintf("%d keys as sender and as recipient, and to themselves", len(keys)), func(s *Sec) {
		for i, k := range keys {
			for way := 0; way < 3; way++ {
				s.Case(func(t *T) {
					a, b := k, seedKey(9)
					if way == 1 {
						a, b = b, a
					} else if way == 2 {
						b = a
					}
					encCase(t, cryptWays[i%3], a, b, pattern(32, byte(i)), iv0, pattern(i%40, byte(way)), true)
				})
			}
		}
	})

	c.Section("default-source", "ciphers without an explicit source, the system source replaced by a stream", func(s *Sec) {
		ways := []func(a, b *crypto.KeyPair) crypto.BlockCipher{
			func(a, b *crypto.KeyPair) crypto.BlockCipher { return crypto.NewBlockCipher(a, b, nil) },
			func(a, b *crypto.KeyPair) crypto.BlockCipher {
				return crypto.NewBlockCipher(a, b, crypto.CryptoEngines.DefaultEngine)
			},
			func(a, b *crypto.KeyPair) crypto.BlockCipher {
				return crypto.NewBlockCipher(a, b, crypto.CryptoEngines.Ed25519Engine)
			},
			func(a, b *crypto.KeyPair) crypto.BlockCipher { return crypto.NewEd25519BlockCipher(a, b, nil) },
			func(a, b *crypto.KeyPair) crypto.BlockCipher {
				return crypto.CryptoEngines.DefaultEngine.CreateBlockCipher(a, b)
			},
		}
		for wi, w := range ways {
			for n := 0; n < 20; n++ {
				s.Case(func(t *T) {
					src := &tape{b: pattern(200, byte(n))}
					defer prerand.Set(src)()
					a, b := seedKey(n%3), seedKey(3+n%2)
					m := pattern(n, byte(wi))
					ci := w(newKeyPair(a, pubOf(a)), newKeyPair(b, pubOf(b)))
					for k := 0; k < 3; k++ {
						ct, err := ci.Encrypt(m)
						t.Ops(1)
						r := src.b[48*k : 48*k+48]
						want := ref.EncryptWith(sharedOf(a, pubOf(b), r[:32]), r[:32], r[32:], m)
						if err != nil || !eq(ct, want) {
							t.Failf("way %d, encryption %d on the default source: %s, error %s, should be %s", wi, k, hx(ct), errStr(err), hx(want))
							return
						}
						t.State([]byte{byte(wi)}, want)
						out, err := ci.Decrypt(ct)
						t.Ops(1)
						if err != nil || !eq(out, m) {
							t.Failf("way %d: decryption gives %s, error %s", wi, hx(out), errStr(err))
							return
						}
					}
				})
			}
		}
	})

	c.Section("repeated-randomness", "every sequence of 4 (5 thorough) encryptions out of {2 salts} x {2 IVs} x {2 messages} on one cipher, each decrypted at once (odd sequences) or all at the end", func(s *Sec) {
		depth := 4
		if c.Thorough {
			depth = 5
		}
		salts, ivs, ms := [][]byte{pattern(32, 1), pattern(32, 2)}, [][]byte{pattern(16, 3), pattern(16, 4)}, [][]byte{pattern(20, 5), pattern(16, 6)}
		a, b := seedKey(0), seedKey(1)
		total := 1
		for i := 0; i < depth; i++ {
			total *= 8
		}
		var cts [8][]byte
		for o := range cts {
			cts[o] = ref.EncryptWith(sharedOf(a, pubOf(b), salts[o&1]), salts[o&1], ivs[o>>1&1], ms[o>>2])
		}
		for v := 0; v < total; v++ {
			s.Case(func(t *T) {
				src := &tape{}
				ci := cryptWays[v%3].f(newKeyPair(a, pubOf(a)), newKeyPair(b, pubOf(b)), src)
				var got [][]byte
				dec := func(k int) bool {
					o := v >> (3 * k) & 7
					out, err := ci.Decrypt(got[k])
					t.Ops(1)
					if err != nil || !eq(out, ms[o>>2]) {
						t.Failf("sequence %o: decryption %d gives %s, error %s, should be %s", v, k, hx(out), errStr(err), hx(ms[o>>2]))
						return false
					}
					return true
				}
				for k := 0; k < depth; k++ {
					o := v >> (3 * k) & 7
					src.b = append(append(append([]byte{}, src.b...), salts[o&1]...), ivs[o>>1&1]...)
					ct, err := ci.Encrypt(append([]byte{}, ms[o>>2]...))
					t.Ops(1)
					if err != nil || !eq(ct, cts[o]) {
						t.Failf("sequence %o (octal, first encryption last; bits salt, IV, message): encryption %d gives %s, error %s, should be %s", v, k, hx(ct), errStr(err), hx(cts[o]))
						return
					}
					got = append(got, ct)
					if v&1 == 1 && !dec(k) {
						return
					}
				}
				for k := range got {
					if !eq(got[k], cts[v>>(3*k)&7]) {
						t.Failf("sequence %o: the ciphertext %d was changed later", v, k)
						return
					}
					if v&1 == 0 && !dec(k) {
						return
					}
				}
				t.State([]byte("rr"), le32(bi(int64(v))))
			})
		}
	})

	c.Section("sequences", "one pair of ciphers used in turn: 40 rounds of different lengths, both directions, growing and shrinking", func(s *Sec) {
		rounds := 40
		if c.Thorough {
			rounds = 400
		}
		for v := 0; v < 8; v++ {
			s.Case(func(t *T) {
				a, b := seedKey(20+v), seedKey(30)
				src := &tape{b: pattern(48*rounds*2, byte(v))}
				ab := cryptWays[v%3].f(newKeyPair(a, pubOf(a)), newKeyPair(b, pubOf(b)), src)
				ba := cryptWays[v%3].f(newKeyPair(b, pubOf(b)), newKeyPair(a, pubOf(a)), src)
				var kept [][2][]byte
				for r := 0; r < rounds; r++ {
					n := r
					if v&1 == 1 {
						n = rounds - r
					}
					if v&2 == 2 {
						n = r * 37 % 101
					}
					ci, x, y := ab, a, b
					if r%2 == 1 && v&4 == 4 {
						ci, x, y = ba, b, a
					}
					m := pattern(n, byte(r))
					p := src.pos
					ct, err := ci.Encrypt(m)
					t.Ops(1)
					salt, iv := src.b[p:p+32], src.b[p+32:p+48]
					want := ref.EncryptWith(sharedOf(x, pubOf(y), salt), salt, iv, m)
					if err != nil || !eq(ct, want) {
						t.Failf("round %d: encryption gives %s, error %s, should be %s", r, hx(ct), errStr(err), hx(want))
						return
					}
					kept = append(kept, [2][]byte{ct, want})
					out, err := ci.Decrypt(ct)
					t.Ops(1)
					if err != nil || !eq(out, m) {
						t.Failf("round %d: decryption gives %s, error %s", r, hx(out), errStr(err))
						return
					}
					t.State([]byte{byte(v)}, want)
				}
				for r, k := range kept {
					if !eq(k[0], k[1]) {
						t.Failf("the ciphertext of round %d was changed later", r)
						return
					}
				}
			})
		}
	})
}

// decCase decrypts in and compares with the definition.
func decCase(t *T, dec crypto.BlockCipher, seed, pub, in []byte, what string) {
	g := guard(in)
	arg := g.B
	if in == nil {
		arg = nil
	}
	out, err := dec.Decrypt(arg)
	t.Ops(1)
	var want []byte
	ok := false
	if len(in) >= 64 {
		if k := sharedOf(seed, pub, in[:32]); k != nil {
			want, ok = ref.DecryptWith(k, in)
		}
	}
	t.State([]byte(what), in, want, []byte{byte(b2i(ok))})
	t.Outcome(append([]byte{byte(b2i(ok))}, want...))
	if ok != (err == nil) || ok && !eq(out, want) || !ok && len(out) != 0 {
		t.Failf("%s: decrypting %d bytes %s gives %s, error %s; should be %s, ok=%v", what, len(in), hx(in), hx(out), errStr(err), hx(want), ok)
		return
	}
	g.Check(t, "the input of Decrypt")
}

func checkC08(c *Ctx) {
	a, b := seedKey(0), seedKey(1)
	apub, bpub := pubOf(a), pubOf(b)
	salt, iv := pattern(32, 5), pattern(16, 6)
	key := sharedOf(b, apub, salt)
	mkDec := func() crypto.BlockCipher {
		return crypto.NewEd25519BlockCipher(newKeyPair(nil, apub), newKeyPair(b, bpub), &tape{})
	}

	longest := 1 << 22
	if c.Thorough {
		longest = 1 << 26
	}
	c.Section("long", fmt.Sprintf("ciphertexts of messages around powers of two and ten up to %d bytes: whole, cut by 1, 15 and 16 bytes, with the first, a middle and the last block changed", longest), func(s *Sec) {
		for _, n := range msgLengths(0, longest) {
			if n < 4000 {
				continue
			}
			s.Case(func(t *T) {
				in := ref.EncryptWith(key, salt, iv, pattern(n, byte(n)))
				decCase(t, mkDec(), b, apub, in, "long")
				for _, cut := range []int{1, 15, 16} {
					decCase(t, mkDec(), b, apub, in[:len(in)-cut], "long, cut")
				}
				for _, at := range []int{48, len(in) / 2, len(in) - 33, len(in) - 1} {
					decCase(t, mkDec(), b, apub, flip(in, 8*at), "long, one bit changed")
				}
			})
		}
	})

	all := 330
	if c.Thorough {
		all = 5000
	}
	c.Section("lengths", fmt.Sprintf("every input length 0..%d: truncated and extended ciphertexts, zeros, ones, patterns", all), func(s *Sec) {
		long := ref.EncryptWith(key, salt, iv, pattern(all+32, 3))
		for n := 0; n <= all; n++ {
			ends := [][]byte{long[:n], rep(0, n), rep(0xff, n), pattern(n, byte(n)), append(append([]byte{}, ref.EncryptWith(key, salt, iv, pattern(20, 1))...), rep(0, all)...)[:n]}
			for k, in := range ends {
				s.Case(func(t *T) { decCase(t, mkDec(), b, apub, in, fmt.Sprintf("length, kind %d", k)) })
			}
			// a valid ciphertext with the last j bytes cut off or j bytes added
			if n <= 40 {
				for base := 0; base < 50; base += 7 {
					full := ref.EncryptWith(key, salt, iv, pattern(base, 9))
					if n < len(full) {
						s.Case(func(t *T) { decCase(t, mkDec(), b, apub, full[:len(full)-n], "cut") })
					}
					s.Case(func(t *T) {
						decCase(t, mkDec(), b, apub, append(append([]byte{}, full...), pattern(n, 1)...), "extended")
					})
					s.Case(func(t *T) { decCase(t, mkDec(), b, apub, full[min(n, len(full)):], "cut in front") })
				}
			}
		}
		s.Case(func(t *T) { decCase(t, mkDec(), b, apub, nil, "nil") })
	})

	c.Section("padding", "1..3 blocks, every last byte, with matching, shorter and longer runs of it, and one wrong byte at every place of the padding", func(s *Sec) {
		run := func(blocks []byte, what string) {
			s.Case(func(t *T) { decCase(t, mkDec(), b, apub, ref.EncryptRaw(key, salt, iv, blocks), what) })
		}
		for nb := 1; nb <= 3; nb++ {
			for v := 0; v < 256; v++ {
				for _, r := range []int{1, v - 1, v, v + 1, 16, 32, 16 * nb} {
					if r < 1 || r > 16*nb || !c.Thorough && v > 40 && r != 1 && r != 16*nb && v%16 != 0 {
						continue
					}
					p := pattern(16*nb, 4)
					for i := 16*nb - r; i < 16*nb; i++ {
						p[i] = byte(v)
					}
					run(p, fmt.Sprintf("last byte %d, %d times", v, r))
				}
			}
			for v := 2; v <= 16; v++ {
				for pos := 1; pos < v; pos++ { // distance from the last byte
					for _, wrong := range []byte{0, byte(v - 1), byte(v + 1), byte(v) ^ 0x80, byte(v) ^ 1, byte(v) ^ 0x10, 0xff, byte(pos), byte(16 - v)} {
						if int(wrong) == v {
							continue
						}
						p := pattern(16*nb, 4)
						for i := 16*nb - v; i < 16*nb; i++ {
							p[i] = byte(v)
						}
						p[16*nb-1-pos] = wrong
						run(p, fmt.Sprintf("padding %d, wrong byte %d", v, pos))
						if v >= 3 && c.Thorough {
							for pos2 := pos + 1; pos2 < v; pos2++ { // two wrong bytes, also equal ones (a xor would cancel)
								q := append([]byte{}, p...)
								q[16*nb-1-pos2] = wrong
								run(q, "two wrong bytes")
							}
						}
					}
				}
				if !c.Thorough {
					for pos := 1; pos+1 < v; pos++ {
						for pos2 := pos + 1; pos2 < v; pos2++ {
							if nb > 1 {
								continue
							}
							p := pattern(16*nb, 4)
							for i := 16*nb - v; i < 16*nb; i++ {
								p[i] = byte(v)
							}
							p[16*nb-1-pos] ^= 0x40
							p[16*nb-1-pos2] ^= 0x40
							run(p, "two equal wrong bytes")
						}
					}
				}
			}
		}
	})

	longs := []int{16, 64, 255, 256, 257, 1024, 4096}
	if c.Thorough {
		longs = append(longs, 128, 512, 2048, 8192, 16384, 65536)
	}
	c.Section("long-padding", "the padding of plaintexts of 2..65536 blocks (3..1048576 bytes around powers of two): 1..16 right bytes, and one wrong byte at every place of them", func(s *Sec) {
		for _, nb0 := range longs {
			for _, nb := range []int{nb0, nb0 + 1} {
				for v := 1; v <= 17; v++ {
					s.Case(func(t *T) {
						p := pattern(16*nb, byte(nb))
						for i := 16*nb - v; i < 16*nb; i++ {
							p[i] = byte(v)
						}
						for pos := 0; pos < v && pos < 16; pos++ {
							q := append([]byte{}, p...)
							q[16*nb-1-pos] ^= byte(1 << (pos % 8) * b2i(pos > 0)) // pos 0: nothing wrong
							decCase(t, mkDec(), b, apub, ref.EncryptRaw(key, salt, iv, q), fmt.Sprintf("%d blocks, padding %d, wrong byte %d", nb, v, pos))
						}
					})
				}
			}
		}
	})

	c.Section("bit-flips", "every single-bit change of valid inputs of 64 and 96 bytes", func(s *Sec) {
		for _, n := range []int{0, 15, 16 + 4} {
			full := ref.EncryptWith(key, salt, iv, pattern(n, 2))
			for bit := 0; bit < 8*len(full); bit++ {
				s.Case(func(t *T) { decCase(t, mkDec(), b, apub, flip(full, bit), "bit flip") })
			}
		}
	})

	c.Section("iv-bytes", "every value of every IV byte (sets the decrypted bytes of the block to every value)", func(s *Sec) {
		full := ref.EncryptWith(key, salt, iv, pattern(13, 2))
		for i := 32; i < 48; i++ {
			for v := 0; v < 256; v++ {
				if !c.Thorough && i < 44 && v%5 != 0 {
					continue
				}
				s.Case(func(t *T) {
					in := append([]byte{}, full...)
					in[i] = byte(v)
					decCase(t, mkDec(), b, apub, in, "IV byte")
				})
			}
		}
	})

	c.Section("contents", "zero, all-ones and low-weight inputs of 64..112 bytes", func(s *Sec) {
		for _, n := range []int{64, 80, 112} {
			for i := 0; i < 8*n; i += 3 {
				s.Case(func(t *T) { decCase(t, mkDec(), b, apub, flip(rep(0, n), i), "single bit") })
			}
		}
	})

	c.Section("keys", "invalid and unusual sender keys (lengths 0..80, small y with both signs, small order) and recipient keys of wrong length", func(s *Sec) {
		full := ref.EncryptWith(key, salt, iv, pattern(33, 2))
		try := func(pub []byte, what string) {
			s.Case(func(t *T) {
				dec := crypto.NewEd25519BlockCipher(newKeyPair(nil, pub), newKeyPair(b, bpub), &tape{})
				decCase(t, dec, b, pub, full, what)
			})
			if len(pub) == 32 {
				if k := sharedOf(b, pub, salt); k != nil {
					s.Case(func(t *T) {
						dec := crypto.NewEd25519BlockCipher(newKeyPair(nil, pub), newKeyPair(b, bpub), &tape{})
						decCase(t, dec, b, pub, ref.EncryptWith(k, salt, iv, pattern(9, 9)), what)
					})
				}
			}
		}
		for n := 0; n <= 80; n++ {
			try(append(append([]byte{}, apub...), rep(0, 60)...)[:n], "sender key length")
		}
		for y := int64(0); y < 40; y++ {
			for sign := 0; sign < 2; sign++ {
				e := le32(bi(y))
				e[31] |= byte(sign << 7)
				try(e, "sender key small y")
				e = le32(new(big.Int).Add(ref.P, bi(y-20)))
				e[31] |= byte(sign << 7)
				try(e, "sender key y near p")
			}
		}
		for _, p := range ref.Torsion {
			try(p.Encode(), "sender key of small order")
		}
		for n := 0; n <= 100; n++ {
			if n == 32 {
				continue
			}
			s.Case(func(t *T) {
				rp := append(append([]byte{}, bpub...), rep(0, 80)...)[:n]
				for _, in := range [][]byte{full, full[:64], nil, full[:63]} {
					dec := crypto.NewEd25519BlockCipher(newKeyPair(a, apub), newKeyPair(b, rp), &tape{})
					out, err := dec.Decrypt(in)
					t.Ops(1)
					if err == nil || len(out) != 0 {
						t.Failf("recipient key of %d bytes: decryption gives %s without error", n, hx(out))
					}
				}
				t.State(rp)
			})
		}
	})

	c.Section("sequences", "one cipher: good and bad inputs in every order of 4 out of 5", func(s *Sec) {
		good := ref.EncryptWith(key, salt, iv, pattern(5, 1))
		good2 := ref.EncryptWith(sharedOf(b, apub, pattern(32, 99)), pattern(32, 99), iv, pattern(40, 1))
		ins := [][]byte{good, good2, flip(good, 8*63+1), good2[:70], flip(good, 0)}
		for code := 0; code < 625; code++ {
			s.Case(func(t *T) {
				dec := mkDec()
				for k, x := 0, code; k < 4; k, x = k+1, x/5 {
					decCase(t, dec, b, apub, ins[x%5], fmt.Sprintf("sequence %d step %d", code, k))
				}
			})
		}
	})
}

func checkC09(c *Ctx) {
	own := seedKey(50)
	mk := func() *crypto.Ed25519BlockCipher {
		return crypto.NewEd25519BlockCipher(newKeyPair(own, pubOf(own)), newKeyPair(own, pubOf(own)), &tape{})
	}
	salt0 := pattern(32, 11)
	shared := func(t *T, ci *crypto.Ed25519BlockCipher, seed, pub, salt []byte, what string) []byte {
		var g Guards
		var pk *crypto.PrivateKey
		if seed != nil {
			pk = crypto.NewPrivateKey(g.New(seed))
		}
		var sl []byte
		if salt != nil {
			sl = g.New(salt)
		}
		k, err := ci.GetSharedKey(pk, crypto.NewPublicKey(g.New(pub)), sl)
		t.Ops(1)
		var want []byte
		if len(pub) == 32 && len(salt) >= 32 && seed != nil {
			want = sharedOf(seed, pub, salt)
		}
		t.State(seed, pub, salt, want)
		t.Outcome(want)
		if want == nil && (err == nil || len(k) != 0) || want != nil && (err != nil || !eq(k, want)) {
			t.Failf("%s: shared key of private key %x, public key %x, salt %x is %x, error %s; should be %x (empty: an error)", what, seed, pub, salt, k, errStr(err), want)
			return nil
		}
		if !g.Check(t, "an argument of GetSharedKey") {
			return nil
		}
		return k
	}
	keys := keyAlphabet(c.Thorough)
	if c.Thorough {
		keys = keys[:4000]
	}

	c.Section("errors", "missing private key, salts of 0..31 bytes, public keys of 0..80 bytes", func(s *Sec) {
		b := seedKey(1)
		s.Case(func(t *T) { shared(t, mk(), nil, pubOf(b), salt0, "no private key") })
		for n := 0; n < 32; n++ {
			s.Case(func(t *T) { shared(t, mk(), seedKey(0), pubOf(b), salt0[:n], "short salt") })
		}
		s.Case(func(t *T) { shared(t, mk(), seedKey(0), pubOf(b), nil, "nil salt") })
		for n := 33; n <= 200; n++ {
			s.Case(func(t *T) {
				shared(t, mk(), seedKey(0), pubOf(b), pattern(n, byte(n)), "long salt: bytes from the 33rd on do not matter")
			})
			s.Case(func(t *T) {
				shared(t, mk(), seedKey(0), pubOf(b), append(append([]byte{}, salt0...), pattern(n-32, 3)...), "long salt: bytes from the 33rd on do not matter")
			})
		}
		for n := 0; n <= 80; n++ {
			for v := 0; v < 3; v++ {
				s.Case(func(t *T) {
					p := append(append([]byte{}, pubOf(b)...), rep(byte(v), 60)...)[:n]
					shared(t, mk(), seedKey(0), p, salt0, "length of the public key")
				})
			}
		}
	})

	lens := keyLengths()
	c.Section("key-lengths", fmt.Sprintf("private keys of %d other lengths (0..300 and up to 65536 bytes)", len(lens)), func(s *Sec) {
		for _, n := range lens {
			s.Case(func(t *T) { shared(t, mk(), pattern(n, 60), pubOf(seedKey(1)), salt0, "length of the private key") })
		}
	})
	c.Section("symmetry", "all pairs of 16 keys, each side with its own cipher object", func(s *Sec) {
		n := 16
		if c.Thorough {
			n = 80
		}
		for i := 0; i < n; i++ {
			for j := i; j < n; j++ {
				s.Case(func(t *T) {
					a, b := keys[i], keys[j]
					salt := pattern(32, byte(i*7+j))
					t.Sample(func() string { return fmt.Sprintf("keys %x and %x, salt %x", a, b, salt) })
					k1 := shared(t, mk(), a, pubOf(b), salt, "one side")
					k2 := shared(t, mk(), b, pubOf(a), salt, "other side")
					if k1 != nil && k2 != nil && !eq(k1, k2) {
						t.Failf("the two sides have different shared keys: %x %x", k1, k2)
					}
				})
			}
		}
	})

	c.Section("private-keys", fmt.Sprintf("%d private keys and every single-bit change of one", len(keys)), func(s *Sec) {
		for i, k := range keys {
			s.Case(func(t *T) { shared(t, mk(), k, pubOf(seedKey(i%5)), salt0, "private key") })
		}
		for bit := 0; bit < 256; bit++ {
			s.Case(func(t *T) { shared(t, mk(), flip(seedKey(7), bit), pubOf(seedKey(3)), salt0, "private key bit") })
		}
	})

	c.Section("extreme", fmt.Sprintf("%d private keys whose scalar, public key or shared point are the most extreme of 4 million, both sides", len(extremeTable)), func(s *Sec) {
		p := extremeKey(1 << 31)
		for _, e := range extremeTable {
			s.Case(func(t *T) { shared(t, mk(), extremeKey(e.n), pubOf(p), salt0, e.what) })
			s.Case(func(t *T) { shared(t, mk(), p, pubOf(extremeKey(e.n)), salt0, e.what) })
		}
	})

	c.Section("public-keys", "every single-bit change of 3 public keys, small y, y around p, small order and mixed order points, both signs", func(s *Sec) {
		for k := 0; k < 3; k++ {
			for bit := 0; bit < 256; bit++ {
				s.Case(func(t *T) { shared(t, mk(), seedKey(8), flip(pubOf(seedKey(k)), bit), salt0, "public key bit") })
			}
		}
		ymax := int64(150)
		if c.Thorough {
			ymax = 5000
		}
		for y := int64(0); y < ymax; y++ {
			for sign := 0; sign < 2; sign++ {
				s.Case(func(t *T) {
					e := le32(bi(y))
					e[31] |= byte(sign << 7)
					shared(t, mk(), seedKey(8), e, salt0, "small y")
				})
			}
		}
		for d := int64(-60); d < 19; d++ {
			for sign := 0; sign < 2; sign++ {
				s.Case(func(t *T) {
					e := le32(addB(ref.P, d))
					e[31] |= byte(sign << 7)
					shared(t, mk(), seedKey(8), e, salt0, "y around p")
				})
			}
		}
		for ti, tor := range ref.Torsion {
			for k := 0; k < 6; k++ {
				s.Case(func(t *T) {
					shared(t, mk(), keys[k], tor.Encode(), salt0, fmt.Sprintf("point of small order %d", ti))
					shared(t, mk(), keys[k], ref.BaseMul(bi(int64(12345+k))).Add(tor).Encode(), salt0, "point of mixed order")
				})
			}
		}
	})

	c.Section("salts", "every single bit of the salt, constant salts, salts equal to the shared point", func(s *Sec) {
		for bit := 0; bit < 256; bit++ {
			s.Case(func(t *T) { shared(t, mk(), seedKey(9), pubOf(seedKey(10)), flip(salt0, bit), "salt bit") })
			s.Case(func(t *T) { shared(t, mk(), seedKey(9), pubOf(seedKey(10)), rep(byte(bit), 32), "constant salt") })
		}
		s.Case(func(t *T) {
			a, _ := ref.Clamped(ref.SHA3_512, seedKey(9))
			A, _ := ref.Decode(pubOf(seedKey(10)))
			shared(t, mk(), seedKey(9), pubOf(seedKey(10)), A.Mul(a).Encode(), "salt equal to the point")
		})
	})

	c.Section("sequences", "one cipher object: every order of 3 out of 7 requests with nearly equal arguments", func(s *Sec) {
		type rq struct{ seed, pub, salt []byte }
		a, b := seedKey(11), seedKey(12)
		rqs := []rq{
			{a, pubOf(b), salt0},
			{a, pubOf(b), flip(salt0, 255)},
			{flip(a, 255), pubOf(b), salt0},
			{flip(a, 0), pubOf(b), salt0},
			{a, pubOf(a), salt0},
			{a, ref.BaseMul(bi(1)).Neg().Encode(), salt0},
			{a, ref.BaseMul(bi(1)).Encode(), salt0},
		}
		for code := 0; code < 343; code++ {
			s.Case(func(t *T) {
				ci := mk()
				for k, x := 0, code; k < 3; k, x = k+1, x/7 {
					r := rqs[x%7]
					if shared(t, ci, r.seed, r.pub, r.salt, fmt.Sprintf("sequence %d step %d", code, k)) == nil {
						return
					}
				}
			})
		}
	})
}
