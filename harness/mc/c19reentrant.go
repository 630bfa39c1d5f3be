package main

import (
	"fmt"

	"verifharness/ref"

	crypto "github.com/proximax-storage/go-xpx-crypto"
)

// Engines and signers that use the library themselves while it uses them.

type callingEngine struct {
	crypto.CryptoEngine
	in func()
}

func (e *callingEngine) call() {
	if f := e.in; f != nil {
		e.in = nil
		f()
	}
}
func (e *callingEngine) CreateDsaSigner(kp *crypto.KeyPair) crypto.DsaSigner {
	e.call()
	return &callingSigner{e.CryptoEngine.CreateDsaSigner(kp), e}
}
func (e *callingEngine) CreateKeyGenerator() crypto.KeyGenerator {
	e.call()
	return &callingGen{e.CryptoEngine.CreateKeyGenerator(), e}
}
func (e *callingEngine) CreateBlockCipher(s, r *crypto.KeyPair) crypto.BlockCipher {
	e.call()
	return e.CryptoEngine.CreateBlockCipher(s, r)
}
func (e *callingEngine) CreateKeyAnalyzer() crypto.KeyAnalyzer {
	e.call()
	return &callingAna{e.CryptoEngine.CreateKeyAnalyzer(), e}
}

type callingSigner struct {
	crypto.DsaSigner
	e *callingEngine
}

func (g *callingSigner) Sign(m []byte) (*crypto.Signature, error) {
	g.e.call()
	return g.DsaSigner.Sign(m)
}
func (g *callingSigner) Verify(m []byte, s *crypto.Signature) bool {
	g.e.call()
	return g.DsaSigner.Verify(m, s)
}

type callingGen struct {
	crypto.KeyGenerator
	e *callingEngine
}

func (g *callingGen) GenerateKeyPair() (*crypto.KeyPair, error) {
	g.e.call()
	return g.KeyGenerator.GenerateKeyPair()
}
func (g *callingGen) DerivePublicKey(p *crypto.PrivateKey) *crypto.PublicKey {
	g.e.call()
	return g.KeyGenerator.DerivePublicKey(p)
}

type callingAna struct {
	crypto.KeyAnalyzer
	e *callingEngine
}

func (g *callingAna) IsKeyCompressed(p *crypto.PublicKey) bool {
	g.e.call()
	return g.KeyAnalyzer.IsKeyCompressed(p)
}

// hookSigner says yes to everything and calls in once.
type hookSigner struct {
	sig *crypto.Signature
	in  func()
}

func (h *hookSigner) call() {
	if f := h.in; f != nil {
		h.in = nil
		f()
	}
}
func (h *hookSigner) Sign([]byte) (*crypto.Signature, error) {
	h.call()
	return h.sig, nil
}
func (h *hookSigner) Verify([]byte, *crypto.Signature) bool {
	h.call()
	return true
}
func (h *hookSigner) IsCanonicalSignature(*crypto.Signature) bool {
	h.call()
	return true
}
func (h *hookSigner) MakeSignatureCanonical(s *crypto.Signature) (*crypto.Signature, error) {
	h.call()
	return h.sig, nil
}

func c19reentrant(c *Ctx) {
	msg := pattern(9, 9)
	type use struct {
		name string
		run  func(e crypto.CryptoEngine, i int) string
	}
	errText := func(err error) string {
		if err == nil {
			return ""
		}
		return err.Error()
	}
	// seed i differs between the outer and the inner use
	uses := []use{
		{"NewSignerFromKeyPair, Sign, Verify", func(e crypto.CryptoEngine, i int) string {
			k := seedKey(i)
			sg := crypto.NewSignerFromKeyPair(newKeyPair(k, pubOf(k)), e)
			s, err := sg.Sign(msg)
			if err != nil {
				return errText(err)
			}
			if !eq(s.Bytes(), ref.Sign(ref.SHA3_512, k, pubOf(k), msg)) {
				return "the signature is wrong"
			}
			if !sg.Verify(msg, s) {
				return "the signature is refused"
			}
			return ""
		}},
		{"NewBlockCipher, Encrypt", func(e crypto.CryptoEngine, i int) string {
			a, b := seedKey(i), seedKey(i+1)
			ct, err := crypto.NewBlockCipher(newKeyPair(a, pubOf(a)), newKeyPair(b, pubOf(b)), e).Encrypt(msg)
			if err != nil {
				return errText(err)
			}
			if len(ct) != 64 || !eq(ct, ref.EncryptWith(sharedOf(a, pubOf(b), ct[:32]), ct[:32], ct[32:48], msg)) {
				return "the ciphertext is wrong"
			}
			return ""
		}},
		{"NewKeyPair of a private key", func(e crypto.CryptoEngine, i int) string {
			k := seedKey(i)
			kp, err := crypto.NewKeyPair(crypto.NewPrivateKey(k), nil, e)
			if err != nil {
				return errText(err)
			}
			if !eq(kp.PrivateKey.Raw, k) || !eq(kp.PublicKey.Raw, pubOf(k)) {
				return "the key pair is wrong"
			}
			return ""
		}},
		{"NewKeyPair of a public key", func(e crypto.CryptoEngine, i int) string {
			k := crypto.NewPublicKey(pubOf(seedKey(i)))
			kp, err := crypto.NewKeyPair(nil, k, e)
			if err != nil {
				return errText(err)
			}
			if kp.PublicKey != k || kp.HasPrivateKey() {
				return "the key pair is wrong"
			}
			return ""
		}},
		{"NewKeyPair of a short public key", func(e crypto.CryptoEngine, i int) string {
			if kp, err := crypto.NewKeyPair(nil, crypto.NewPublicKey(pattern(31-i, 1)), e); err == nil || kp != nil {
				return "accepted"
			}
			return ""
		}},
		{"NewKeyPairByEngine", func(e crypto.CryptoEngine, i int) string {
			kp, err := crypto.NewKeyPairByEngine(e)
			if err != nil {
				return errText(err)
			}
			if len(kp.PrivateKey.Raw) != 32 || !eq(kp.PublicKey.Raw, pubOf(kp.PrivateKey.Raw)) {
				return "the key pair is wrong"
			}
			return ""
		}},
	}
	c.Section("reentrant-engines", "every use of an engine x every use of the library from inside its first, second, third and fourth call x {the same engine, the default engine, a ready-made engine}", func(s *Sec) {
		for _, out := range uses {
			for _, in := range uses {
				for nth := 0; nth < 4; nth++ {
					for which := 0; which < 3; which++ {
						s.Case(func(t *T) {
							e := &callingEngine{CryptoEngine: engineWith(&tape{b: pattern(400, 5)})}
							inner := []crypto.CryptoEngine{e, nil, crypto.CryptoEngines.Ed25519Engine}[which]
							if inner == nil && in.name == "NewKeyPairByEngine" {
								inner = crypto.CryptoEngines.DefaultEngine
							}
							bad, ran := "", false
							var hook func(n int) func()
							hook = func(n int) func() {
								return func() {
									if n > 0 {
										e.in = hook(n - 1)
										return
									}
									ran = true
									bad = in.run(inner, 3)
									t.Ops(1)
								}
							}
							e.in = hook(nth)
							if m := out.run(e, 1); m != "" {
								t.Failf("%s, %s run inside call %d of the engine: %s", out.name, in.name, nth+1, m)
								return
							}
							t.Ops(1)
							if bad != "" {
								t.Failf("%s run inside call %d of the engine used by %s: %s", in.name, nth+1, out.name, bad)
								return
							}
							e.in = nil
							if m := out.run(e, 2); m != "" { // again, undisturbed
								t.Failf("%s after %s was run inside call %d of the engine: %s", out.name, in.name, nth+1, m)
								return
							}
							t.State([]byte(out.name+in.name), []byte{byte(nth), byte(which), byte(b2i(ran))})
						})
					}
				}
			}
		}
	})

	c.Section("reentrant-signer", "4 methods of a signer x 4 methods called on the same signer from inside the wrapped one, or a panic inside it, then every method again", func(s *Sec) {
		call := func(sg crypto.DsaSigner, m int, sig *crypto.Signature) string {
			switch m {
			case 0:
				r, err := sg.Sign(msg)
				return fmt.Sprint(r == sig, err)
			case 1:
				return fmt.Sprint(sg.Verify(msg, sig))
			case 2:
				return fmt.Sprint(sg.IsCanonicalSignature(sig))
			}
			r, err := sg.MakeSignatureCanonical(sig)
			return fmt.Sprint(r == sig, err)
		}
		want := []string{"true <nil>", "true", "true", "true <nil>"}
		for m := 0; m < 4; m++ {
			for in := 0; in < 5; in++ {
				for then := 0; then < 4; then++ {
					s.Case(func(t *T) {
						sig := &crypto.Signature{R: pattern(32, 1), S: pattern(32, 2)}
						w := &hookSigner{sig: sig}
						sg := crypto.NewSigner(w)
						got := ""
						w.in = func() {
							if in == 4 {
								panic(errSource)
							}
							got = call(sg, in, sig)
						}
						res := ""
						func() {
							defer func() {
								if r := recover(); r != nil && r != errSource {
									panic(r)
								}
							}()
							res = call(sg, m, sig)
						}()
						again := call(sg, then, sig)
						t.Ops(3)
						if in < 4 && (res != want[m] || got != want[in]) || again != want[then] {
							t.Failf("method %d with method %d called from inside: %q, inside: %q; then method %d: %q (0 Sign, 1 Verify, 2 IsCanonicalSignature, 3 MakeSignatureCanonical)", m, in, res, got, then, again)
							return
						}
						t.State([]byte("rs"), []byte{byte(m), byte(in), byte(then)})
					})
				}
			}
		}
	})

	c.Section("panicking-engines", "every use of an engine that panics in its first, second or third call: the panic is passed on or the use fails, and every use afterwards works", func(s *Sec) {
		for _, out := range uses {
			for _, then := range uses {
				for nth := 0; nth < 3; nth++ {
					s.Case(func(t *T) {
						e := &callingEngine{CryptoEngine: engineWith(&tape{b: pattern(400, 5)})}
						panicked := false
						var hook func(n int) func()
						hook = func(n int) func() {
							return func() {
								if n > 0 {
									e.in = hook(n - 1)
									return
								}
								panicked = true
								panic(errSource)
							}
						}
						e.in = hook(nth)
						m := ""
						func() {
							defer func() {
								if r := recover(); r != nil && r != errSource {
									panic(r)
								}
							}()
							m = out.run(e, 1)
						}()
						t.Ops(1)
						if m != "" && !panicked {
							t.Failf("%s: %s", out.name, m)
							return
						}
						e.in = nil
						if m := then.run(e, 2); m != "" {
							t.Failf("%s after a panic in call %d of the engine used by %s: %s", then.name, nth+1, out.name, m)
							return
						}
						t.Ops(1)
						t.State([]byte(out.name+then.name), []byte{byte(nth), byte(b2i(panicked))})
					})
				}
			}
		}
	})
}
