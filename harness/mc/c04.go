package main

import (
	"bytes"
	"fmt"
	"io"
	"math/big"
	"strings"

	crypto "github.com/proximax-storage/go-xpx-crypto"
	"verifharness/prerand"
	"verifharness/ref"
)

func init() {
	checks["C04"] = checkC04
	checks["C05"] = checkC05
	checks["C06"] = checkC06
}

func eq(a, b []byte) bool { return bytes.Equal(a, b) }

// engineWith is an engine that draws from r.
func engineWith(r io.Reader) crypto.CryptoEngine {
	if f, ok := hook[func(io.Reader) crypto.CryptoEngine]("engine.new"); ok {
		return f(r)
	}
	return &ownEngine{r}
}

// ownEngine builds the same from the exported constructors.
type ownEngine struct{ r io.Reader }

func (e *ownEngine) CreateDsaSigner(kp *crypto.KeyPair) crypto.DsaSigner {
	return crypto.NewEd25519DsaSigner(kp)
}
func (e *ownEngine) CreateKeyGenerator() crypto.KeyGenerator {
	return crypto.NewEd25519KeyGenerator(e.r)
}
func (e *ownEngine) CreateBlockCipher(s, r *crypto.KeyPair) crypto.BlockCipher {
	return crypto.NewEd25519BlockCipher(s, r, e.r)
}
func (e *ownEngine) CreateKeyAnalyzer() crypto.KeyAnalyzer { return crypto.NewEd25519KeyAnalyzer() }

// keyLengths: lengths of private keys other than 32. The definitions hash the
// private key, whatever its length.
func keyLengths() []int {
	var r []int
	for n := 0; n <= 300; n++ {
		if n != 32 {
			r = append(r, n)
		}
	}
	for _, n := range []int{512, 576, 577, 1000, 1024, 4095, 4096, 4097, 65535, 65536} {
		r = append(r, n)
	}
	return r
}

func checkC04(c *Ctx) {
	keys := keyAlphabet(c.Thorough)
	ways := []struct {
		name string
		f    func(pk *crypto.PrivateKey) (*crypto.PublicKey, error)
	}{
		{"NewKeyPair(nil engine)", func(pk *crypto.PrivateKey) (*crypto.PublicKey, error) {
			kp, err := crypto.NewKeyPair(pk, nil, nil)
			if err != nil {
				return nil, err
			}
			if kp.PrivateKey != pk && !eq(kp.PrivateKey.Raw, pk.Raw) {
				return nil, fmt.Errorf("the private key of the pair is another one")
			}
			if !kp.HasPrivateKey() {
				return nil, fmt.Errorf("HasPrivateKey is false")
			}
			return kp.PublicKey, nil
		}},
		{"NewKeyPair(Ed25519Engine)", func(pk *crypto.PrivateKey) (*crypto.PublicKey, error) {
			kp, err := crypto.NewKeyPair(pk, nil, crypto.CryptoEngines.Ed25519Engine)
			if err != nil {
				return nil, err
			}
			return kp.PublicKey, nil
		}},
		{"NewEd25519KeyGenerator.DerivePublicKey", func(pk *crypto.PrivateKey) (*crypto.PublicKey, error) {
			return crypto.NewEd25519KeyGenerator(nil).DerivePublicKey(pk), nil
		}},
		{"engine.CreateKeyGenerator.DerivePublicKey", func(pk *crypto.PrivateKey) (*crypto.PublicKey, error) {
			return crypto.CryptoEngines.DefaultEngine.CreateKeyGenerator().DerivePublicKey(pk), nil
		}},
		{"GenerateKeyPair", func(pk *crypto.PrivateKey) (*crypto.PublicKey, error) {
			kp, err := crypto.NewEd25519KeyGenerator(bytes.NewReader(pk.Raw)).GenerateKeyPair()
			if err != nil {
				return nil, err
			}
			if !eq(kp.PrivateKey.Raw, pk.Raw) {
				return nil, fmt.Errorf("the generated private key is %x, not the random bytes drawn", kp.PrivateKey.Raw)
			}
			if !kp.HasPrivateKey() {
				return nil, fmt.Errorf("HasPrivateKey is false")
			}
			return kp.PublicKey, nil
		}},
		{"NewKeyPairByEngine(custom source)", func(pk *crypto.PrivateKey) (*crypto.PublicKey, error) {
			kp, err := crypto.NewKeyPairByEngine(engineWith(bytes.NewReader(pk.Raw)))
			if err != nil {
				return nil, err
			}
			if !eq(kp.PrivateKey.Raw, pk.Raw) {
				return nil, fmt.Errorf("the generated private key is %x, not the random bytes drawn", kp.PrivateKey.Raw)
			}
			return kp.PublicKey, nil
		}},
		{"NewRandomKeyPair (system source replaced)", func(pk *crypto.PrivateKey) (*crypto.PublicKey, error) {
			defer prerand.Set(bytes.NewReader(pk.Raw))()
			kp, err := crypto.NewRandomKeyPair()
			if err != nil {
				return nil, err
			}
			if !eq(kp.PrivateKey.Raw, pk.Raw) {
				return nil, fmt.Errorf("the generated private key is %x, not the random bytes drawn", kp.PrivateKey.Raw)
			}
			return kp.PublicKey, nil
		}},
	}
	c.Section("derive", fmt.Sprintf("%d private keys x %d ways", len(keys), len(ways)), func(s *Sec) {
		for _, k := range keys {
			for _, w := range ways {
				s.Case(func(t *T) {
					t.Sample(func() string { return fmt.Sprintf("%s of key %x", w.name, k) })
					var g Guards
					pub, err := w.f(crypto.NewPrivateKey(g.New(k)))
					t.Ops(1)
					want := pubOf(k)
					if err != nil || pub == nil {
						t.Failf("%s of key %x: %s", w.name, k, errStr(err))
						return
					}
					if !eq(pub.Raw, want) {
						t.Failf("%s of key %x: public key %x, want %x", w.name, k, pub.Raw, want)
						return
					}
					g.Check(t, "the private key")
					t.State([]byte(w.name), k, pub.Raw)
					t.Outcome(pub.Raw)
				})
			}
		}
	})
	c.Section("extreme", fmt.Sprintf("%d private keys whose scalar, prefix or public key are the most extreme of 4 million", len(extremeTable)), func(s *Sec) {
		for i, e := range extremeTable {
			s.Case(func(t *T) {
				k := extremeKey(e.n)
				w := ways[i%len(ways)]
				var g Guards
				pub, err := w.f(crypto.NewPrivateKey(g.New(k)))
				t.Ops(1)
				if err != nil || pub == nil || !eq(pub.Raw, pubOf(k)) {
					t.Failf("%s of key %x (extreme %s): public key %v %s, want %x", w.name, k, e.what, pub, errStr(err), pubOf(k))
					return
				}
				g.Check(t, "the private key")
				t.State([]byte(w.name), k, pub.Raw)
				t.Outcome(pub.Raw)
			})
		}
	})
	c.Section("many-keys", "keys differing in every pair of low bytes (65536): derived public key", func(s *Sec) {
		n := 16384
		if c.Thorough {
			n = 65536
		}
		base := seedKey(77)
		for v := 0; v < n; v++ {
			s.Case(func(t *T) {
				k := append([]byte{}, base...)
				k[0], k[31] = byte(v), byte(v>>8)
				pub := crypto.NewEd25519KeyGenerator(nil).DerivePublicKey(crypto.NewPrivateKey(k))
				t.Ops(1)
				if want := pubOf(k); pub == nil || !eq(pub.Raw, want) {
					t.Failf("public key of %x: %v, want %x", k, pub, want)
				}
				t.State(k)
			})
		}
	})
	lens := keyLengths()
	c.Section("key-lengths", fmt.Sprintf("private keys of %d other lengths (0..300 and up to 65536 bytes) x 2 contents x the ways that take a key, with the first, a middle and the last byte changed", len(lens)), func(s *Sec) {
		for i, n := range lens {
			for v := 0; v < 2; v++ {
				k := pattern(n, byte(40+v))
				if v == 1 {
					k = rep(0, n)
				}
				for _, at := range []int{-1, 0, n / 2, n - 1} {
					if at >= n || at >= 0 && v == 1 {
						continue
					}
					s.Case(func(t *T) {
						b := append([]byte{}, k...)
						if at >= 0 {
							b[at] ^= 0x10
						}
						w := ways[(i+at+1)%4]
						what := func() string { return fmt.Sprintf("%s of a private key of %d bytes", w.name, n) }
						t.Sample(what)
						var g Guards
						pub, err := w.f(crypto.NewPrivateKey(g.New(b)))
						t.Ops(1)
						if err != nil || pub == nil || !eq(pub.Raw, pubOf(b)) {
							t.Failf("%s (%s): %v %s, want %x", what(), hx(b), pub, errStr(err), pubOf(b))
							return
						}
						g.Check(t, "the private key")
						t.State([]byte(w.name), b, pub.Raw)
						t.Outcome(pub.Raw)
					})
				}
			}
		}
	})
	c.Section("pairs", "key pairs from given keys: with and without private key x public keys of length 0..80 (several fillings) x 3 engines", func(s *Sec) {
		engines := []crypto.CryptoEngine{nil, crypto.CryptoEngines.DefaultEngine, crypto.CryptoEngines.Ed25519Engine}
		for _, withPriv := range []bool{false, true} {
			for n := -1; n <= 80; n++ {
				for fill := 0; fill < 4; fill++ {
					for ei, e := range engines {
						s.Case(func(t *T) {
							var g Guards
							var pk *crypto.PrivateKey
							var pub *crypto.PublicKey
							k := seedKey(9)
							if withPriv {
								pk = crypto.NewPrivateKey(g.New(k))
							}
							var raw []byte
							if n >= 0 {
								raw = [][]byte{rep(0, n), rep(0xff, n), pattern(n, 3), append(pubOf(k), rep(7, 60)...)[:n]}[fill]
								pub = crypto.NewPublicKey(g.New(raw))
							}
							kp, err := crypto.NewKeyPair(pk, pub, e)
							t.Ops(1)
							t.State([]byte{byte(n), byte(fill), byte(ei)}, k[:b2i(withPriv)])
							switch {
							case n < 0 && !withPriv:
								if err == nil || kp != nil {
									t.Failf("a key pair of no key was not refused")
								}
								return
							case n >= 0 && n != 32:
								if err == nil || kp != nil {
									t.Failf("a public key of %d bytes was not refused", n)
								}
								return
							}
							if err != nil || kp == nil {
								t.Failf("key pair refused: %s (private %v, public key of %d bytes)", errStr(err), withPriv, n)
								return
							}
							if kp.HasPrivateKey() != withPriv || (kp.PrivateKey != nil) != withPriv {
								t.Failf("HasPrivateKey = %v, private key given: %v", kp.HasPrivateKey(), withPriv)
								return
							}
							if withPriv && !eq(kp.PrivateKey.Raw, k) {
								t.Failf("private key of the pair is %x, given %x", kp.PrivateKey.Raw, k)
								return
							}
							want := raw
							if n < 0 {
								want = pubOf(k)
							}
							if kp.PublicKey == nil || !eq(kp.PublicKey.Raw, want) {
								t.Failf("public key of the pair is %v, want %x", kp.PublicKey, want)
								return
							}
							g.Check(t, "a key")
						})
					}
				}
			}
		}
	})
	c.Section("analyzer", "IsKeyCompressed for lengths 0..300", func(s *Sec) {
		for n := 0; n <= 300; n++ {
			s.Case(func(t *T) {
				for i, a := range []crypto.KeyAnalyzer{crypto.NewEd25519KeyAnalyzer(), crypto.CryptoEngines.DefaultEngine.CreateKeyAnalyzer(), crypto.CryptoEngines.Ed25519Engine.CreateKeyAnalyzer()} {
					got := a.IsKeyCompressed(crypto.NewPublicKey(pattern(n, 1)))
					t.Ops(1)
					if got != (n == 32) {
						t.Failf("IsKeyCompressed = %v for %d bytes (analyzer %d)", got, n, i)
					}
				}
				t.State([]byte(fmt.Sprint(n)))
			})
		}
	})
	c.Section("generate-sequences", "one generator drawing 200 key pairs in a row from a counting source", func(s *Sec) {
		for w := 0; w < 3; w++ {
			s.Case(func(t *T) {
				src := pattern(32*200, byte(w))
				var gen crypto.KeyGenerator
				r := bytes.NewReader(src)
				switch w {
				case 0:
					gen = crypto.NewEd25519KeyGenerator(r)
				case 1:
					gen = engineWith(r).CreateKeyGenerator()
				case 2:
					defer prerand.Set(r)()
					gen = crypto.CryptoEngines.DefaultEngine.CreateKeyGenerator()
				}
				var prev []*crypto.KeyPair
				for i := 0; i < 200; i++ {
					kp, err := gen.GenerateKeyPair()
					t.Ops(1)
					k := src[32*i : 32*i+32]
					if err != nil || !eq(kp.PrivateKey.Raw, k) || !eq(kp.PublicKey.Raw, pubOf(k)) {
						t.Failf("key pair %d: %v %s", i, kp, errStr(err))
						return
					}
					t.State(k)
					prev = append(prev, kp)
				}
				for i, kp := range prev {
					k := src[32*i : 32*i+32]
					if !eq(kp.PrivateKey.Raw, k) || !eq(kp.PublicKey.Raw, pubOf(k)) {
						t.Failf("key pair %d was changed by later generations", i)
						return
					}
				}
			})
		}
	})
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

const hexLower = "0123456789abcdef"

func isHex(b byte) bool {
	return b >= '0' && b <= '9' || b >= 'a' && b <= 'f' || b >= 'A' && b <= 'F'
}

// hexKey is the definition of key parsing.
func hexKey(s string) ([]byte, bool) {
	for i := 0; i < len(s); i++ {
		if !isHex(s[i]) {
			return nil, false
		}
	}
	if len(s)%2 == 1 {
		s = "0" + s
	}
	if len(s) != 64 {
		return nil, false
	}
	x, ok := new(big.Int).SetString(s, 16)
	if !ok {
		return nil, false
	}
	b := make([]byte, 32)
	x.FillBytes(b)
	return b, true
}

func parseCase(t *T, s string) {
	want, ok := hexKey(s)
	priv, err := crypto.NewPrivateKeyfromHexString(s)
	pub, err2 := crypto.NewPublicKeyfromHex(s)
	t.Ops(2)
	t.State([]byte(s))
	t.Outcome([]byte{byte(b2i(ok))})
	if !ok {
		if err == nil || priv != nil {
			t.Failf("private key accepted from %q", s)
		}
		if err2 == nil || pub != nil {
			t.Failf("public key accepted from %q", s)
		}
		return
	}
	if err != nil || priv == nil || !eq(priv.Raw, want) {
		t.Failf("private key from %q: %v %s, want %x", s, priv, errStr(err), want)
		return
	}
	if err2 != nil || pub == nil || !eq(pub.Raw, want) {
		t.Failf("public key from %q: %v %s, want %x", s, pub, errStr(err2), want)
		return
	}
	printCase(t, priv, pub, want)
}

func printCase(t *T, priv *crypto.PrivateKey, pub *crypto.PublicKey, want []byte) {
	l := fmt.Sprintf("%x", want)
	u := fmt.Sprintf("%X", want)
	t.Ops(2)
	if got := priv.String(); got != l {
		t.Failf("private key prints as %q, want %q", got, l)
		return
	}
	if got := pub.String(); got != u {
		t.Failf("public key prints as %q, want %q", got, u)
		return
	}
	p2, err := crypto.NewPrivateKeyfromHexString(priv.String())
	q2, err2 := crypto.NewPublicKeyfromHex(pub.String())
	t.Ops(2)
	if err != nil || err2 != nil || !eq(p2.Raw, want) || !eq(q2.Raw, want) {
		t.Failf("printed key %x does not parse back: %v %v", want, err, err2)
	}
}

func checkC05(c *Ctx) {
	c.Section("lengths", "hex strings of every length 0..200 x 5 fillings", func(s *Sec) {
		for n := 0; n <= 200; n++ {
			for f := 0; f < 5; f++ {
				s.Case(func(t *T) {
					b := make([]byte, n)
					for i := range b {
						switch f {
						case 0:
							b[i] = '0'
						case 1:
							b[i] = 'f'
						case 2:
							b[i] = 'F'
						case 3:
							b[i] = hexLower[(i*7+3)%16]
						case 4:
							b[i] = "0123456789ABCDEFabcdef"[(i*5+1)%22]
						}
					}
					t.Sample(func() string { return fmt.Sprintf("%q", b) })
					parseCase(t, string(b))
				})
			}
		}
	})
	c.Section("characters", "every byte value at every position of strings of 62..66 digits", func(s *Sec) {
		for n := 62; n <= 66; n++ {
			base := make([]byte, n)
			for i := range base {
				base[i] = hexLower[(i*11+5)%16]
			}
			for pos := 0; pos < n; pos++ {
				for v := 0; v < 256; v++ {
					s.Case(func(t *T) {
						b := append([]byte{}, base...)
						b[pos] = byte(v)
						parseCase(t, string(b))
					})
				}
			}
		}
	})
	c.Section("special", "prefixes, separators, spaces, non-ASCII text", func(s *Sec) {
		d := fmt.Sprintf("%x", seedKey(0))
		var list []string
		for _, p := range []string{"", "0x", "0X", " ", "\n", "\t", "+", "-", "#", "\x00", "_", "é", "٠"} {
			for k := 0; k <= len(d); k += 4 {
				list = append(list, p+d[k:], d[:k]+p, d[:k/2]+p+d[k/2:], d[:len(d)-len(p)]+p, p+d[len(p):])
			}
		}
		for _, x := range list {
			s.Case(func(t *T) { parseCase(t, x) })
		}
	})
	d64 := fmt.Sprintf("%x", seedKey(0))
	c.Section("runes", "every character of two or three bytes before, behind and within texts of 62..64 digits; digits of other scripts; spaces, marks and quotes of any kind at every place", func(s *Sec) {
		for r := rune(0x80); r <= 0xffff; r++ {
			if r >= 0xd800 && r < 0xe000 || r > 0x3200 && r < 0xf900 && r%64 != 0 && !c.Thorough {
				continue
			}
			s.Case(func(t *T) {
				for _, d := range []string{d64, d64[:63], d64[:62]} {
					parseCase(t, string(r)+d)
					parseCase(t, d+string(r))
				}
				parseCase(t, d64[:31]+string(r)+d64[31:])
				parseCase(t, d64[:61]+string(r))
			})
		}
		// other scripts: every digit replaced, or one of them
		for _, zero := range []rune{0x660, 0x6f0, 0x966, 0xff10, 0x1d7ce, 0x1d7d8, 0x2070, 0x2080, 0x2460 - 1} {
			for pos := -1; pos < 64; pos++ {
				s.Case(func(t *T) {
					for n := 21; n <= 64; n++ {
						var sb strings.Builder
						for i, ch := range d64[:n] {
							if (pos < 0 || pos == i) && ch <= '9' {
								sb.WriteRune(zero + ch - '0')
							} else if (pos < 0 || pos == i) && zero == 0xff10 {
								sb.WriteRune(0xff41 + ch - 'a')
							} else {
								sb.WriteRune(ch)
							}
						}
						if sb.String() != d64[:n] {
							parseCase(t, sb.String())
						}
					}
				})
			}
		}
		marks := []string{"\ufeff", "\u200b", "\u200e", "\u00a0", "\u2003", "\u3000", "\u2028", "\u0085", "\xa0", "\r\n", "\n", "\t", "\v", "\f", "\x00", " ", "'", "\"", "`", "<", ">", "(", ")", "{", "}", "[", "]", ":", "-", "_", ",", ".", ";", "|", "/", "\\", "%", "$", "#", "@", "!", "=", "0x", "0X", "\\x", "x", "h", "H", "U+", "16#", "hex:", "+", "-0", "0b", "e+", "p0"}
		for _, a := range marks {
			for _, z := range append(marks, "") {
				s.Case(func(t *T) {
					for _, d := range []string{d64, d64[:63], d64[:62]} {
						parseCase(t, a+d+z)
						parseCase(t, z+d+a)
					}
				})
			}
			s.Case(func(t *T) {
				for pos := 0; pos <= 64; pos++ {
					parseCase(t, d64[:pos]+a+d64[pos:])
					if pos+len(a) <= 64 {
						parseCase(t, d64[:pos]+a+d64[pos+len(a):])
					}
				}
				for _, g := range []int{1, 2, 4, 8, 16, 32} {
					var parts []string
					for i := 0; i < 64; i += g {
						parts = append(parts, d64[i:i+g])
					}
					parseCase(t, strings.Join(parts, a))
					parseCase(t, a+strings.Join(parts, a))
					parseCase(t, strings.Join(parts, a)+a)
				}
			})
		}
	})
	c.Section("values", "every byte value at every position of the key (others fixed), 3 fillings: print, parse, integer form", func(s *Sec) {
		for _, base := range [][]byte{rep(0, 32), rep(0xff, 32), seedKey(1)} {
			for pos := 0; pos < 32; pos++ {
				for v := 0; v < 256; v++ {
					s.Case(func(t *T) {
						k := append([]byte{}, base...)
						k[pos] = byte(v)
						keyValue(t, k)
					})
				}
			}
		}
	})
	c.Section("leading-zeroes", "keys with 0..32 leading zero bytes and every first non-zero byte, from integers", func(s *Sec) {
		for z := 0; z <= 32; z++ {
			for v := 1; v < 256; v++ {
				s.Case(func(t *T) {
					k := seedKey(2)
					for i := 0; i < z; i++ {
						k[i] = 0
					}
					if z < 32 {
						k[z] = byte(v)
					}
					keyValue(t, k)
				})
			}
		}
	})
	c.Section("powers", "integers 2^i + d, -3 <= d <= 3, i = 0..255, and their derived public keys", func(s *Sec) {
		for i := uint(0); i < 256; i++ {
			for d := int64(-3); d <= 3; d++ {
				x := addB(pow2(i), d)
				if x.Sign() < 0 {
					continue
				}
				s.Case(func(t *T) {
					b := make([]byte, 32)
					x.FillBytes(b)
					keyValue(t, b)
					if d == 0 {
						kp, err := crypto.NewKeyPair(crypto.NewPrivateKeyFromBigInt(x), nil, nil)
						t.Ops(1)
						if err != nil || !eq(kp.PublicKey.Raw, pubOf(b)) {
							t.Failf("key of the integer %v has another public key than its bytes", x)
						}
					}
				})
			}
		}
	})
}

func keyValue(t *T, k []byte) {
	var g Guards
	priv := crypto.NewPrivateKey(g.New(k))
	pub := crypto.NewPublicKey(g.New(k))
	t.Ops(2)
	t.State(k)
	if !eq(priv.Raw, k) || !eq(pub.Raw, k) {
		t.Failf("a key made from %x holds %x / %x", k, priv.Raw, pub.Raw)
		return
	}
	printCase(t, priv, pub, k)
	x := new(big.Int).SetBytes(k)
	y := new(big.Int).Set(x)
	p2 := crypto.NewPrivateKeyFromBigInt(x)
	t.Ops(1)
	if p2 == nil || !eq(p2.Raw, k) {
		t.Failf("the key of the integer %x holds %x", k, p2.Raw)
		return
	}
	if x.Cmp(y) != 0 {
		t.Failf("NewPrivateKeyFromBigInt changed its argument %v", y)
		return
	}
	if got := p2.String(); got != fmt.Sprintf("%x", k) {
		t.Failf("the key of the integer %x prints as %q", k, got)
	}
	g.Check(t, "the key bytes")
}

func checkC06(c *Ctx) {
	c.Section("parts", "NewSignature for every pair of lengths 0..70", func(s *Sec) {
		for n := 0; n <= 70; n++ {
			for m := 0; m <= 70; m++ {
				s.Case(func(t *T) {
					t.Sample(func() string { return fmt.Sprintf("R of %d bytes, S of %d bytes", n, m) })
					var g Guards
					r, sb := pattern(n, 1), pattern(m, 2)
					sig, err := crypto.NewSignature(g.New(r), g.New(sb))
					t.Ops(1)
					t.State([]byte{byte(n), byte(m)})
					t.Outcome([]byte{byte(b2i(err == nil))})
					sigOutcome(t, sig, err, n == 32 && m == 32, r, sb, &g)
				})
			}
		}
		s.Case(func(t *T) {
			for _, p := range [][2][]byte{{nil, nil}, {pattern(32, 1), nil}, {nil, pattern(32, 1)}} {
				if sig, err := crypto.NewSignature(p[0], p[1]); err == nil || sig != nil {
					t.Failf("NewSignature accepts nil")
				}
				t.Ops(1)
			}
		})
	})
	c.Section("bytes", "NewSignatureFromBytes for every length 0..300 with 4 fillings and spare capacities", func(s *Sec) {
		for n := 0; n <= 300; n++ {
			for f := 0; f < 4; f++ {
				s.Case(func(t *T) {
					b := [][]byte{pattern(n, 1), rep(0, n), rep(0xff, n), pattern(n, 200)}[f]
					var g Guards
					arg := g.New(b)
					if f == 3 {
						arg = arg[:n:n]
					}
					sig, err := crypto.NewSignatureFromBytes(arg)
					t.Ops(1)
					t.State([]byte{byte(n), byte(n >> 8), byte(f)})
					t.Outcome([]byte{byte(b2i(err == nil))})
					var r, sb []byte
					if n == 64 {
						r, sb = b[:32], b[32:]
					}
					sigOutcome(t, sig, err, n == 64, r, sb, &g)
				})
			}
		}
		s.Case(func(t *T) {
			if sig, err := crypto.NewSignatureFromBytes(nil); err == nil || sig != nil {
				t.Failf("NewSignatureFromBytes accepts nil")
			}
			t.Ops(1)
		})
	})
	c.Section("values", "every byte value at every position of the 64 bytes", func(s *Sec) {
		for pos := 0; pos < 64; pos++ {
			for v := 0; v < 256; v++ {
				s.Case(func(t *T) {
					b := pattern(64, 3)
					b[pos] = byte(v)
					var g Guards
					sig, err := crypto.NewSignatureFromBytes(g.New(b))
					t.Ops(1)
					t.State(b)
					sigOutcome(t, sig, err, true, b[:32], b[32:], &g)
				})
			}
		}
	})
	c.Section("zero-tails", "R and S with 0..32 zero bytes at either end", func(s *Sec) {
		for z := 0; z <= 32; z++ {
			for y := 0; y <= 32; y++ {
				for f := 0; f < 4; f++ {
					s.Case(func(t *T) {
						r, sb := pattern(32, 5), pattern(32, 6)
						for i := 0; i < z; i++ {
							if f&1 == 0 {
								r[i] = 0
							} else {
								r[31-i] = 0
							}
						}
						for i := 0; i < y; i++ {
							if f&2 == 0 {
								sb[i] = 0
							} else {
								sb[31-i] = 0
							}
						}
						var g Guards
						sig, err := crypto.NewSignature(g.New(r), g.New(sb))
						t.Ops(1)
						t.State(r, sb)
						sigOutcome(t, sig, err, true, r, sb, &g)
					})
				}
			}
		}
	})
	c.Section("shared-array", "R and S as slices of one array, in both orders, at every distance 0..3, with spare capacity", func(s *Sec) {
		for d := 0; d <= 3; d++ {
			for f := 0; f < 2; f++ {
				for times := 1; times <= 4; times++ {
					s.Case(func(t *T) {
						g := guard(pattern(64+d+40, 8))
						a, b := g.B[:32], g.B[32+d:64+d]
						if f == 1 {
							a, b = b, a
						}
						wr, ws := append([]byte{}, a...), append([]byte{}, b...)
						sig, err := crypto.NewSignature(a, b)
						if err != nil {
							t.Failf("refused: %v", err)
							return
						}
						for i := 0; i < times; i++ {
							gs := Guards{list: []*Guard{g}}
							if !sigOutcome(t, sig, nil, true, wr, ws, &gs) {
								return
							}
						}
						t.State([]byte{byte(d), byte(f), byte(times)})
					})
				}
			}
		}
	})
	var ints []*big.Int
	for i := int64(0); i < 300; i++ {
		ints = append(ints, bi(i))
	}
	for i := uint(8); i <= 300; i++ {
		for d := int64(-2); d <= 2; d++ {
			ints = append(ints, addB(pow2(i), d))
		}
		ints = append(ints, new(big.Int).Neg(pow2(i)))
	}
	for i := int64(1); i < 40; i++ {
		ints = append(ints, bi(-i), addB(pow2(64), i), new(big.Int).Add(pow2(255), bi(i)), new(big.Int).Neg(addB(pow2(64), i)))
	}
	limit := addB(pow2(31), -1)
	c.Section("integers", fmt.Sprintf("%d integers (negative, small, around every power of two up to 2^300) as R and as S, against 6 partners", len(ints)), func(s *Sec) {
		partners := []*big.Int{bi(0), bi(1), bi(0x01020304), limit, pow2(40), pow2(256)}
		for _, x := range ints {
			for _, y := range partners {
				for sw := 0; sw < 2; sw++ {
					s.Case(func(t *T) {
						a, b := new(big.Int).Set(x), new(big.Int).Set(y)
						if sw == 1 {
							a, b = b, a
						}
						a0, b0 := new(big.Int).Set(a), new(big.Int).Set(b)
						sig, err := crypto.NewSignatureFromBigInt(a, b)
						t.Ops(1)
						t.State([]byte(a.String()), []byte(b.String()))
						t.Outcome([]byte{byte(b2i(err == nil))})
						if a.Cmp(a0) != 0 || b.Cmp(b0) != 0 {
							t.Failf("NewSignatureFromBigInt changed its arguments %v %v", a0, b0)
							return
						}
						must := a.Sign() >= 0 && b.Sign() >= 0 && a.Cmp(limit) <= 0 && b.Cmp(limit) <= 0
						if err != nil {
							if sig != nil {
								t.Failf("a refused signature was returned")
							}
							if must {
								t.Failf("NewSignatureFromBigInt(%v, %v) refused: %v", a, b, err)
							}
							return
						}
						if sig == nil || len(sig.R) != 32 || len(sig.S) != 32 || sig.GetR().Cmp(a) != 0 || sig.GetS().Cmp(b) != 0 {
							t.Failf("NewSignatureFromBigInt(%v, %v) reads back as %v", a, b, sig)
							return
						}
						var g Guards
						sigOutcome(t, sig, nil, true, le32(a), le32(b), &g)
					})
				}
			}
		}
		s.Case(func(t *T) {
			for _, p := range [][2]*big.Int{{nil, nil}, {bi(1), nil}, {nil, bi(1)}} {
				if sig, err := crypto.NewSignatureFromBigInt(p[0], p[1]); err == nil || sig != nil {
					t.Failf("NewSignatureFromBigInt accepts nil")
				}
				t.Ops(1)
			}
		})
	})
	c.Section("read-sequences", "every sequence of up to 5 readings (Bytes, String, GetR, GetS; results then overwritten) of one signature", func(s *Sec) {
		for depth := 1; depth <= 5; depth++ {
			n := 1
			for i := 0; i < depth; i++ {
				n *= 4
			}
			for v := 0; v < n; v++ {
				s.Case(func(t *T) {
					b := pattern(64, 77)
					var g Guards
					arg := g.New(b)
					sig, err := crypto.NewSignatureFromBytes(arg)
					if err != nil {
						t.Failf("refused: %v", err)
						return
					}
					x := v
					var kept [][]byte
					for i := 0; i < depth; i++ {
						t.Ops(1)
						switch x % 4 {
						case 0:
							o := sig.Bytes()
							if !eq(o, b) {
								t.Failf("reading %d: Bytes = %x want %x", i, o, b)
								return
							}
							kept = append(kept, o)
							for j := range o {
								o[j] = byte(i)
							}
							_ = append(o, 1, 2, 3) // a caller appending to it
						case 1:
							if o := sig.String(); o != fmt.Sprintf("%x", b) {
								t.Failf("reading %d: String = %s want %x", i, o, b)
								return
							}
						case 2:
							o := sig.GetR()
							if o.Cmp(ref.LE(b[:32])) != 0 {
								t.Failf("reading %d: GetR = %v", i, o)
								return
							}
							o.Add(o, bi(1)).Lsh(o, 300)
						case 3:
							o := sig.GetS()
							if o.Cmp(ref.LE(b[32:])) != 0 {
								t.Failf("reading %d: GetS = %v", i, o)
								return
							}
							o.Neg(o).Lsh(o, 300)
						}
						x /= 4
					}
					for i := 1; i < len(kept); i++ {
						if kept[i][0] == kept[i-1][0] {
							t.Failf("two results of Bytes share memory")
							return
						}
					}
					t.State([]byte{byte(depth), byte(v), byte(v >> 8)})
					g.Check(t, "the bytes the signature was made from")
				})
			}
		}
	})
}

// sigOutcome checks a constructor's answer and every reading of the signature.
func sigOutcome(t *T, sig *crypto.Signature, err error, ok bool, r, s []byte, g *Guards) bool {
	if !ok {
		if err == nil || sig != nil {
			t.Failf("a signature was built from wrong lengths")
			return false
		}
		return g.Check(t, "an argument")
	}
	if err != nil || sig == nil {
		t.Failf("signature refused: %s", errStr(err))
		return false
	}
	want := append(append([]byte{}, r...), s...)
	if !eq(sig.R, r) || !eq(sig.S, s) {
		t.Failf("signature holds R=%x S=%x, given R=%x S=%x", sig.R, sig.S, r, s)
		return false
	}
	out := sig.Bytes()
	t.Ops(4)
	if !eq(out, want) {
		t.Failf("Bytes = %x, want %x", out, want)
		return false
	}
	if got := sig.String(); got != fmt.Sprintf("%x", want) {
		t.Failf("String = %s, want %x", got, want)
		return false
	}
	if x := sig.GetR(); x.Cmp(ref.LE(r)) != 0 {
		t.Failf("GetR = %v, R = %x", x, r)
		return false
	}
	if x := sig.GetS(); x.Cmp(ref.LE(s)) != 0 {
		t.Failf("GetS = %v, S = %x", x, s)
		return false
	}
	if !g.Check(t, "memory given to the signature") {
		return false
	}
	for i := range out {
		out[i] ^= 0xff
	}
	if !eq(sig.R, r) || !eq(sig.S, s) {
		t.Failf("changing the returned bytes changed the signature")
		return false
	}
	again := sig.Bytes()
	if !eq(again, want) {
		t.Failf("Bytes after a change of the earlier result = %x, want %x", again, want)
		return false
	}
	return g.Check(t, "memory given to the signature")
}
