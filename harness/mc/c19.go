package main

import (
	"errors"
	"fmt"

	crypto "github.com/proximax-storage/go-xpx-crypto"
	"verifharness/ref"
)

func init() { checks["C19"] = checkC19 }

// recSigner records what it is asked and answers what it is told to.
type recSigner struct {
	log  []string
	sig  *crypto.Signature
	err  error
	res  bool
	data []byte
	got  *crypto.Signature
}

func (r *recSigner) Sign(m []byte) (*crypto.Signature, error) {
	r.log = append(r.log, "Sign")
	r.data = cloneData(m)
	return r.sig, r.err
}
func (r *recSigner) Verify(m []byte, s *crypto.Signature) bool {
	r.log = append(r.log, "Verify")
	r.data, r.got = cloneData(m), s
	return r.res
}
func (r *recSigner) IsCanonicalSignature(s *crypto.Signature) bool {
	r.log = append(r.log, "IsCanonicalSignature")
	r.got = s
	return r.res
}
func (r *recSigner) MakeSignatureCanonical(s *crypto.Signature) (*crypto.Signature, error) {
	r.log = append(r.log, "MakeSignatureCanonical")
	r.got = s
	return r.sig, r.err
}

type recCipher struct{ id int }

func (r *recCipher) Encrypt(b []byte) ([]byte, error) { return []byte{byte(r.id)}, nil }
func (r *recCipher) Decrypt(b []byte) ([]byte, error) { return []byte{byte(r.id)}, nil }

type recEngine struct {
	log        []string
	signer     *recSigner
	cipher     *recCipher
	kp         *crypto.KeyPair
	kperr      error
	derived    *crypto.PublicKey
	compressed bool
	gotKP      *crypto.KeyPair
	gotS, gotR *crypto.KeyPair
	gotPriv    *crypto.PrivateKey
	gotPub     *crypto.PublicKey
}

func (e *recEngine) CreateDsaSigner(kp *crypto.KeyPair) crypto.DsaSigner {
	e.log = append(e.log, "CreateDsaSigner")
	e.gotKP = kp
	return e.signer
}
func (e *recEngine) CreateKeyGenerator() crypto.KeyGenerator {
	e.log = append(e.log, "CreateKeyGenerator")
	return (*recGen)(e)
}
func (e *recEngine) CreateBlockCipher(s, r *crypto.KeyPair) crypto.BlockCipher {
	e.log = append(e.log, "CreateBlockCipher")
	e.gotS, e.gotR = s, r
	return e.cipher
}
func (e *recEngine) CreateKeyAnalyzer() crypto.KeyAnalyzer {
	e.log = append(e.log, "CreateKeyAnalyzer")
	return (*recAna)(e)
}

type recGen recEngine

func (g *recGen) GenerateKeyPair() (*crypto.KeyPair, error) {
	g.log = append(g.log, "GenerateKeyPair")
	return g.kp, g.kperr
}
func (g *recGen) DerivePublicKey(p *crypto.PrivateKey) *crypto.PublicKey {
	g.log = append(g.log, "DerivePublicKey")
	g.gotPriv = p
	return g.derived
}

type recAna recEngine

func (a *recAna) IsKeyCompressed(p *crypto.PublicKey) bool {
	a.log = append(a.log, "IsKeyCompressed")
	a.gotPub = p
	return a.compressed
}

func count(log []string, s string) (n int) {
	for _, x := range log {
		if x == s {
			n++
		}
	}
	return
}

// samePair: the pair itself or one that holds the same key objects.
func samePair(got, want *crypto.KeyPair) bool {
	return got == want || got != nil && want != nil && got.PrivateKey == want.PrivateKey && got.PublicKey == want.PublicKey
}

func sameSig(got, want *crypto.Signature) bool {
	return got == want || got != nil && want != nil && eq(got.R, want.R) && eq(got.S, want.S) && len(got.R) == len(want.R) && (got.R == nil) == (want.R == nil) && (got.S == nil) == (want.S == nil)
}

// no data and empty data are different things to a signer
func cloneData(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append([]byte{}, b...)
}

func sameData(a, b []byte) bool { return eq(a, b) && (a == nil) == (b == nil) }

type strangeErr struct{ n int }

func (e *strangeErr) Error() string { return fmt.Sprintf("strange %d", e.n) }

func checkC19(c *Ctx) {
	a, b := seedKey(0), seedKey(1)
	sigs := []*crypto.Signature{nil, {}, {R: pattern(32, 1), S: pattern(32, 2)}, {R: pattern(1, 1), S: nil}, {R: nil, S: rep(0xff, 64)}}
	errs := []error{nil, errors.New("x"), &strangeErr{3}, (*strangeErr)(nil)}
	datas := [][]byte{nil, {}, {0}, pattern(32, 5), pattern(4000, 6)}

	c.Section("signer-delegation", "4 methods x 5 signatures returned x 4 errors (a typed nil too) x 5 data x 5 signatures given x both booleans", func(s *Sec) {
		for si, ret := range sigs {
			for ei, er := range errs {
				for di, data := range datas {
					for gi, given := range sigs {
						for _, res := range []bool{false, true} {
							s.Case(func(t *T) {
								var g Guards
								d := data
								if d != nil {
									d = g.New(data)
								}
								r := &recSigner{sig: ret, err: er, res: res}
								sg := crypto.NewSigner(r)
								t.State([]byte{byte(si), byte(ei), byte(di), byte(gi), byte(b2i(res))})
								s1, e1 := sg.Sign(d)
								if !sameSig(s1, ret) || e1 != er || !sameData(r.data, data) {
									t.Failf("Sign: forwarded %s (given %s), returned %v %v (wrapped signer: %v %v)", hx(r.data), hx(data), s1, e1, ret, er)
								}
								v := sg.Verify(d, given)
								if v != res || !sameData(r.data, data) || !sameSig(r.got, given) {
									t.Failf("Verify: forwarded %s %v (given %s %v), returned %v (wrapped signer: %v)", hx(r.data), r.got, hx(data), given, v, res)
								}
								r.got = nil
								ic := sg.IsCanonicalSignature(given)
								if ic != res || !sameSig(r.got, given) {
									t.Failf("IsCanonicalSignature: forwarded %v (given %v), returned %v", r.got, given, ic)
								}
								r.got = nil
								s2, e2 := sg.MakeSignatureCanonical(given)
								if !sameSig(s2, ret) || e2 != er || !sameSig(r.got, given) {
									t.Failf("MakeSignatureCanonical: forwarded %v (given %v), returned %v %v (wrapped signer: %v %v)", r.got, given, s2, e2, ret, er)
								}
								t.Ops(4)
								t.Outcome([]byte(fmt.Sprint(s1, e1, v, s2)))
								for _, m := range []string{"Sign", "Verify", "IsCanonicalSignature", "MakeSignatureCanonical"} {
									if count(r.log, m) != 1 || len(r.log) != 4 {
										t.Failf("the wrapped signer was called %v", r.log)
										return
									}
								}
								g.Check(t, "the data")
							})
						}
					}
				}
			}
		}
	})

	pairs := []*crypto.KeyPair{nil, {}, newKeyPair(a, pubOf(a)), newKeyPair(nil, pubOf(a)), newKeyPair(b, nil), newKeyPair(b, pubOf(a)), newKeyPair(pattern(5, 1), pattern(70, 1))}
	c.Section("factories", "NewSignerFromKeyPair, NewBlockCipher with a recording engine x 7 x 7 key pairs (nil, empty, partial, mismatched, odd lengths)", func(s *Sec) {
		for i, p := range pairs {
			for j, q := range pairs {
				s.Case(func(t *T) {
					e := &recEngine{signer: &recSigner{res: i%2 == 0, sig: sigs[2]}, cipher: &recCipher{7 + i}}
					sg := crypto.NewSignerFromKeyPair(p, e)
					t.Ops(2)
					t.State([]byte{byte(i), byte(j)})
					if !samePair(e.gotKP, p) || count(e.log, "CreateDsaSigner") != 1 {
						t.Failf("NewSignerFromKeyPair: engine calls %v, key pair passed on %p, given %p", e.log, e.gotKP, p)
						return
					}
					got, err := sg.Sign(datas[3])
					if got != sigs[2] || err != nil || len(e.signer.log) != 1 {
						t.Failf("NewSignerFromKeyPair does not wrap the signer of the engine")
						return
					}
					e.log = nil
					ci := crypto.NewBlockCipher(p, q, e)
					if !samePair(e.gotS, p) || !samePair(e.gotR, q) || len(e.log) != 1 {
						t.Failf("NewBlockCipher: engine calls %v, sender passed on: %v, recipient passed on: %v (pairs %d, %d)", e.log, samePair(e.gotS, p), samePair(e.gotR, q), i, j)
						return
					}
					out, err := ci.Encrypt(nil)
					if err != nil || len(out) != 1 || out[0] != byte(7+i) {
						t.Failf("NewBlockCipher does not return the cipher of the engine")
					}
				})
			}
		}
	})

	c19kinds(c)
	c19reentrant(c)

	c.Section("constructor-sequences", "every sequence of 3 (4 thorough) constructions out of {signer, cipher, key pair, generated key pair} x {nil engine, recording engines 1 and 2, seeded engine} over the same key objects", func(s *Sec) {
		depth := 3
		if c.Thorough {
			depth = 4
		}
		total := 1
		for i := 0; i < depth; i++ {
			total *= 16
		}
		msg := pattern(9, 9)
		wantSig := ref.Sign(ref.SHA3_512, a, pubOf(a), msg)
		r := pattern(48, 8)
		wantCT := ref.EncryptWith(sharedOf(a, pubOf(b), r[:32]), r[:32], r[32:], msg)
		for v := 0; v < total; v++ {
			s.Case(func(t *T) {
				kp, kq := newKeyPair(a, pubOf(a)), newKeyPair(b, pubOf(b))
				def, seeded := &tape{}, &tape{}
				eng, isReal := engineWith(def).(*crypto.Ed25519SeedCryptoEngine)
				if !isReal {
					return // no adapter: nothing to replace the default engine with
				}
				old := crypto.CryptoEngines.DefaultEngine
				crypto.CryptoEngines.DefaultEngine = eng
				defer func() { crypto.CryptoEngines.DefaultEngine = old }()
				recs := []*recEngine{}
				for i := 0; i < 2; i++ {
					recs = append(recs, &recEngine{signer: &recSigner{res: i == 0, sig: sigs[2+i]}, cipher: &recCipher{70 + i}, derived: crypto.NewPublicKey(pattern(32, byte(i))), compressed: true, kp: pairs[2+i]})
				}
				engines := []crypto.CryptoEngine{nil, recs[0], recs[1], engineWith(seeded)}
				srcs := []*tape{def, nil, nil, seeded}
				for k := 0; k < depth; k++ {
					o := v >> (4 * k) & 15
					e, what := o&3, o>>2
					var rec *recEngine
					if e == 1 || e == 2 {
						rec = recs[e-1]
						rec.log, rec.signer.log = nil, nil
					} else {
						srcs[e].b, srcs[e].pos = pattern(48, 8), 0
					}
					t.Ops(1)
					bad := ""
					switch what {
					case 0:
						sg := crypto.NewSignerFromKeyPair(kp, engines[e])
						sig, err := sg.Sign(msg)
						if rec != nil {
							if sig != rec.signer.sig || err != nil || len(rec.signer.log) != 1 || !samePair(rec.gotKP, kp) {
								bad = "the signer of the engine is not used"
							}
						} else if err != nil || !eq(sig.Bytes(), wantSig) || !sg.Verify(msg, sig) {
							bad = "the signature is wrong"
						}
					case 1:
						ct, err := crypto.NewBlockCipher(kp, kq, engines[e]).Encrypt(msg)
						if rec != nil {
							if err != nil || len(ct) != 1 || int(ct[0]) != rec.cipher.id || !samePair(rec.gotS, kp) || !samePair(rec.gotR, kq) {
								bad = "the cipher of the engine is not used"
							}
						} else if err != nil || !eq(ct, wantCT) || srcs[e].pos != 48 {
							bad = "the ciphertext is wrong or drawn from another source"
						}
					case 2:
						got, err := crypto.NewKeyPair(kp.PrivateKey, nil, engines[e])
						if rec != nil {
							if err != nil || got.PublicKey != rec.derived || rec.gotPriv != kp.PrivateKey {
								bad = "the key was not derived by the engine"
							}
						} else if err != nil || !eq(got.PublicKey.Raw, pubOf(a)) {
							bad = "the derived key is wrong"
						}
					case 3:
						got, err := crypto.NewKeyPairByEngine(pick(engines[e], e == 0))
						if rec != nil {
							if err != nil || !samePair(got, rec.kp) {
								bad = "the key pair was not generated by the engine"
							}
						} else if err != nil || got == nil || !eq(got.PublicKey.Raw, pubOf(got.PrivateKey.Raw)) || srcs[e].pos == 0 {
							bad = "the generated key pair is wrong or drawn from another source"
						}
					}
					if bad != "" {
						t.Failf("sequence %x (hexadecimal, first construction last; 0-3 signer, 4-7 cipher, 8-b key pair, c-f generated; engines nil, recording 1, 2, seeded), construction %d: %s", v, k, bad)
						return
					}
				}
				t.State([]byte("cs"), []byte{byte(v), byte(v >> 8), byte(v >> 16)})
			})
		}
	})

	c.Section("key-pairs", "NewKeyPair and NewKeyPairByEngine with a recording engine: presence of keys x analyzer answer x derived keys x generator results", func(s *Sec) {
		privs := []*crypto.PrivateKey{nil, crypto.NewPrivateKey(a), crypto.NewPrivateKey(pattern(3, 1))}
		pubs := []*crypto.PublicKey{nil, crypto.NewPublicKey(pubOf(a)), crypto.NewPublicKey(pubOf(b)), crypto.NewPublicKey(pattern(33, 1)), crypto.NewPublicKey(nil)}
		for i, pk := range privs {
			for j, pub := range pubs {
				for _, comp := range []bool{false, true} {
					for k, der := range pubs[1:] {
						s.Case(func(t *T) {
							e := &recEngine{compressed: comp, derived: der}
							kp, err := crypto.NewKeyPair(pk, pub, e)
							t.Ops(1)
							t.State([]byte{byte(i), byte(j), byte(b2i(comp)), byte(k)})
							t.Outcome([]byte{byte(b2i(err == nil)), byte(b2i(kp != nil))})
							switch {
							case pk == nil && pub == nil:
								if err == nil || kp != nil {
									t.Failf("NewKeyPair without any key: %v, error %s", kp, errStr(err))
								}
							case pub != nil:
								if e.gotPub != pub || count(e.log, "IsKeyCompressed") < 1 {
									t.Failf("NewKeyPair: the analyzer of the engine was not asked about the public key (calls %v)", e.log)
									return
								}
								if comp != (err == nil) || comp != (kp != nil) {
									t.Failf("NewKeyPair: analyzer says %v, result %v, error %s", comp, kp, errStr(err))
									return
								}
								if kp != nil && (kp.PrivateKey != pk || kp.PublicKey != pub) {
									t.Failf("NewKeyPair holds other keys than it was given")
								}
								if count(e.log, "GenerateKeyPair") != 0 {
									t.Failf("NewKeyPair generated a key: %v", e.log)
								}
							default:
								if e.gotPriv != pk || count(e.log, "DerivePublicKey") < 1 {
									t.Failf("NewKeyPair: the public key was not derived by the engine given (calls %v)", e.log)
									return
								}
								if err != nil && !comp && e.gotPub == der {
									return // refused after asking the analyzer about the derived key
								}
								if err != nil || kp == nil || kp.PrivateKey != pk || kp.PublicKey != der {
									t.Failf("NewKeyPair: %v, error %s; the engine derived %v", kp, errStr(err), der)
								}
							}
						})
					}
				}
			}
		}
		for i, p := range pairs {
			for j, er := range errs {
				s.Case(func(t *T) {
					e := &recEngine{kp: p, kperr: er}
					kp, err := crypto.NewKeyPairByEngine(e)
					t.Ops(1)
					t.State([]byte{200, byte(i), byte(j)})
					if count(e.log, "GenerateKeyPair") != 1 || err != er || er == nil && !samePair(kp, p) {
						t.Failf("NewKeyPairByEngine: engine calls %v, result %p error %v, the engine gave %p %v", e.log, kp, err, p, er)
					}
				})
			}
		}
	})

	c.Section("default-engine", "the default engine replaced by seeded ones: every constructor with a nil engine uses exactly it; Ed25519Engine is not disturbed", func(s *Sec) {
		for v := 0; v < 16; v++ {
			s.Case(func(t *T) {
				src := &tape{b: pattern(400, byte(v))}
				eng, isReal := engineWith(src).(*crypto.Ed25519SeedCryptoEngine)
				if !isReal {
					return // no adapter: nothing to replace the default engine with
				}
				old := crypto.CryptoEngines.DefaultEngine
				crypto.CryptoEngines.DefaultEngine = eng
				defer func() { crypto.CryptoEngines.DefaultEngine = old }()
				ka, kb := newKeyPair(a, pubOf(a)), newKeyPair(b, pubOf(b))
				m := pattern(v, 1)
				for k := 0; k < 4; k++ {
					p := src.pos
					if (v>>uint(k))&1 == 0 {
						kp, err := crypto.NewRandomKeyPair()
						t.Ops(1)
						if err != nil || src.pos != p+32 || !eq(kp.PrivateKey.Raw, src.b[p:p+32]) {
							t.Failf("NewRandomKeyPair does not use the default engine")
							return
						}
						t.State(kp.PublicKey.Raw)
					} else {
						ct, err := crypto.NewBlockCipher(ka, kb, nil).Encrypt(m)
						t.Ops(1)
						if err != nil || src.pos != p+48 || !eq(ct, ref.EncryptWith(sharedOf(a, pubOf(b), src.b[p:p+32]), src.b[p:p+32], src.b[p+32:p+48], m)) {
							t.Failf("NewBlockCipher with a nil engine does not use the default engine (error %s)", errStr(err))
							return
						}
						t.State(ct)
					}
				}
			})
		}
	})

	c.Section("ready-made", "default, Ed25519 and seeded engines give the same signatures, keys, decisions and decryptions for 40 keys", func(s *Sec) {
		engs := []crypto.CryptoEngine{crypto.CryptoEngines.DefaultEngine, crypto.CryptoEngines.Ed25519Engine, engineWith(&tape{}), nil}
		for i := 0; i < 40; i++ {
			for ei, e := range engs {
				s.Case(func(t *T) {
					k, o := keyAlphabet(false)[i*9], seedKey(3)
					m := pattern(i, byte(i))
					kp, err := crypto.NewKeyPair(crypto.NewPrivateKey(k), nil, e)
					t.Ops(4)
					if err != nil || !eq(kp.PublicKey.Raw, pubOf(k)) {
						t.Failf("engine %d: derived public key is wrong (error %s)", ei, errStr(err))
						return
					}
					sg := crypto.NewSignerFromKeyPair(kp, e)
					want := ref.Sign(ref.SHA3_512, k, pubOf(k), m)
					sig, err := sg.Sign(m)
					if err != nil || !eq(sig.Bytes(), want) || !sg.Verify(m, sig) || sg.Verify(flip(append([]byte{1}, m...), 0), sig) {
						t.Failf("engine %d: signing or verifying is wrong (error %s)", ei, errStr(err))
						return
					}
					ct := ref.EncryptWith(sharedOf(o, pubOf(k), pattern(32, 1)), pattern(32, 1), pattern(16, 1), m)
					out, err := crypto.NewBlockCipher(newKeyPair(nil, pubOf(o)), kp, e).Decrypt(ct)
					if err != nil || !eq(out, m) {
						t.Failf("engine %d: decryption is wrong (error %s)", ei, errStr(err))
						return
					}
					for n := 0; n < 70; n++ {
						pub := crypto.NewPublicKey(pattern(n, 1))
						_, err := crypto.NewKeyPair(nil, pub, e)
						if (err == nil) != (n == 32) {
							t.Failf("engine %d: a public key of %d bytes: error %s", ei, n, errStr(err))
							return
						}
					}
					t.State([]byte{byte(ei)}, want)
				})
			}
		}
	})
}

// pick is the default engine where a nil engine is not part of the interface.
func pick(e crypto.CryptoEngine, isNil bool) crypto.CryptoEngine {
	if isNil {
		return crypto.CryptoEngines.DefaultEngine
	}
	return e
}
