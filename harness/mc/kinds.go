package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"os"
	"strings"
	"testing/iotest"

	crypto "github.com/proximax-storage/go-xpx-crypto"
)

// Engines, signers and random sources are interfaces: what implements them may
// be of any kind of type and have other methods too.

type (
	valueEngine struct{ *recEngine } // a struct with promoted methods
	sliceEngine struct {             // a struct that can be neither compared nor hashed
		*recEngine
		_ []int
	}
	funcEngine   func() *recEngine // neither, and may be nil
	mapEngine    map[string]*recEngine
	numberEngine int      // of nilEngines
	nilEngine    struct{} // used as a nil pointer
	seededEngine struct { // also contains a ready-made engine
		*crypto.Ed25519SeedCryptoEngine
		e *recEngine
	}
	arrayEngine [1]*recEngine
	chanEngine  chan *recEngine
)

// engineNow is what engines without content of their own record in.
var engineNow *recEngine

func (f funcEngine) CreateDsaSigner(k *crypto.KeyPair) crypto.DsaSigner {
	return f().CreateDsaSigner(k)
}
func (f funcEngine) CreateKeyGenerator() crypto.KeyGenerator { return f().CreateKeyGenerator() }
func (f funcEngine) CreateBlockCipher(a, b *crypto.KeyPair) crypto.BlockCipher {
	return f().CreateBlockCipher(a, b)
}
func (f funcEngine) CreateKeyAnalyzer() crypto.KeyAnalyzer { return f().CreateKeyAnalyzer() }

func (m mapEngine) CreateDsaSigner(k *crypto.KeyPair) crypto.DsaSigner {
	return m["e"].CreateDsaSigner(k)
}
func (m mapEngine) CreateKeyGenerator() crypto.KeyGenerator { return m["e"].CreateKeyGenerator() }
func (m mapEngine) CreateBlockCipher(a, b *crypto.KeyPair) crypto.BlockCipher {
	return m["e"].CreateBlockCipher(a, b)
}
func (m mapEngine) CreateKeyAnalyzer() crypto.KeyAnalyzer { return m["e"].CreateKeyAnalyzer() }

func (numberEngine) CreateDsaSigner(k *crypto.KeyPair) crypto.DsaSigner {
	return engineNow.CreateDsaSigner(k)
}
func (numberEngine) CreateKeyGenerator() crypto.KeyGenerator { return engineNow.CreateKeyGenerator() }
func (numberEngine) CreateBlockCipher(a, b *crypto.KeyPair) crypto.BlockCipher {
	return engineNow.CreateBlockCipher(a, b)
}
func (numberEngine) CreateKeyAnalyzer() crypto.KeyAnalyzer { return engineNow.CreateKeyAnalyzer() }

func (*nilEngine) CreateDsaSigner(k *crypto.KeyPair) crypto.DsaSigner {
	return engineNow.CreateDsaSigner(k)
}
func (*nilEngine) CreateKeyGenerator() crypto.KeyGenerator { return engineNow.CreateKeyGenerator() }
func (*nilEngine) CreateBlockCipher(a, b *crypto.KeyPair) crypto.BlockCipher {
	return engineNow.CreateBlockCipher(a, b)
}
func (*nilEngine) CreateKeyAnalyzer() crypto.KeyAnalyzer { return engineNow.CreateKeyAnalyzer() }

func (s seededEngine) CreateDsaSigner(k *crypto.KeyPair) crypto.DsaSigner {
	return s.e.CreateDsaSigner(k)
}
func (s seededEngine) CreateKeyGenerator() crypto.KeyGenerator { return s.e.CreateKeyGenerator() }
func (s seededEngine) CreateBlockCipher(a, b *crypto.KeyPair) crypto.BlockCipher {
	return s.e.CreateBlockCipher(a, b)
}
func (s seededEngine) CreateKeyAnalyzer() crypto.KeyAnalyzer { return s.e.CreateKeyAnalyzer() }

func (s arrayEngine) CreateDsaSigner(k *crypto.KeyPair) crypto.DsaSigner {
	return s[0].CreateDsaSigner(k)
}
func (s arrayEngine) CreateKeyGenerator() crypto.KeyGenerator { return s[0].CreateKeyGenerator() }
func (s arrayEngine) CreateBlockCipher(a, b *crypto.KeyPair) crypto.BlockCipher {
	return s[0].CreateBlockCipher(a, b)
}
func (s arrayEngine) CreateKeyAnalyzer() crypto.KeyAnalyzer { return s[0].CreateKeyAnalyzer() }

func (c chanEngine) get() *recEngine {
	e := <-c
	c <- e
	return e
}
func (c chanEngine) CreateDsaSigner(k *crypto.KeyPair) crypto.DsaSigner {
	return c.get().CreateDsaSigner(k)
}
func (c chanEngine) CreateKeyGenerator() crypto.KeyGenerator { return c.get().CreateKeyGenerator() }
func (c chanEngine) CreateBlockCipher(a, b *crypto.KeyPair) crypto.BlockCipher {
	return c.get().CreateBlockCipher(a, b)
}
func (c chanEngine) CreateKeyAnalyzer() crypto.KeyAnalyzer { return c.get().CreateKeyAnalyzer() }

var engineKinds = []struct {
	name string
	mk   func(e *recEngine) crypto.CryptoEngine
}{
	{"pointer", func(e *recEngine) crypto.CryptoEngine { return e }},
	{"struct with a pointer", func(e *recEngine) crypto.CryptoEngine { return valueEngine{e} }},
	{"struct with a slice", func(e *recEngine) crypto.CryptoEngine { return sliceEngine{recEngine: e} }},
	{"pointer to a struct with a slice", func(e *recEngine) crypto.CryptoEngine { return &sliceEngine{recEngine: e} }},
	{"function", func(e *recEngine) crypto.CryptoEngine { return funcEngine(func() *recEngine { return e }) }},
	{"map", func(e *recEngine) crypto.CryptoEngine { return mapEngine{"e": e} }},
	{"number 0", func(e *recEngine) crypto.CryptoEngine { engineNow = e; return numberEngine(0) }},
	{"number 7", func(e *recEngine) crypto.CryptoEngine { engineNow = e; return numberEngine(7) }},
	{"nil pointer", func(e *recEngine) crypto.CryptoEngine { engineNow = e; return (*nilEngine)(nil) }},
	{"struct with a ready-made engine", func(e *recEngine) crypto.CryptoEngine {
		return seededEngine{crypto.CryptoEngines.DefaultEngine, e}
	}},
	{"pointer to a struct with a ready-made engine", func(e *recEngine) crypto.CryptoEngine {
		return &seededEngine{crypto.CryptoEngines.Ed25519Engine, e}
	}},
	{"array", func(e *recEngine) crypto.CryptoEngine { return arrayEngine{e} }},
	{"channel", func(e *recEngine) crypto.CryptoEngine {
		c := make(chanEngine, 1)
		c <- e
		return c
	}},
}

type (
	sliceSigner struct {
		*recSigner
		_ []int
	}
	valueSigner struct{ *recSigner }
	nilSigner   struct{}
	funcSigner  func() *recSigner
	// wrapped: a signer that is itself a Signer of the library, or contains one
	embeddedSigner struct {
		*crypto.Ed25519DsaSigner
		*recSigner
	}
)

var signerNow *recSigner

func (*nilSigner) Sign(m []byte) (*crypto.Signature, error)  { return signerNow.Sign(m) }
func (*nilSigner) Verify(m []byte, s *crypto.Signature) bool { return signerNow.Verify(m, s) }
func (*nilSigner) IsCanonicalSignature(s *crypto.Signature) bool {
	return signerNow.IsCanonicalSignature(s)
}
func (*nilSigner) MakeSignatureCanonical(s *crypto.Signature) (*crypto.Signature, error) {
	return signerNow.MakeSignatureCanonical(s)
}
func (f funcSigner) Sign(m []byte) (*crypto.Signature, error)  { return f().Sign(m) }
func (f funcSigner) Verify(m []byte, s *crypto.Signature) bool { return f().Verify(m, s) }
func (f funcSigner) IsCanonicalSignature(s *crypto.Signature) bool {
	return f().IsCanonicalSignature(s)
}
func (f funcSigner) MakeSignatureCanonical(s *crypto.Signature) (*crypto.Signature, error) {
	return f().MakeSignatureCanonical(s)
}
func (f embeddedSigner) Sign(m []byte) (*crypto.Signature, error)  { return f.recSigner.Sign(m) }
func (f embeddedSigner) Verify(m []byte, s *crypto.Signature) bool { return f.recSigner.Verify(m, s) }
func (f embeddedSigner) IsCanonicalSignature(s *crypto.Signature) bool {
	return f.recSigner.IsCanonicalSignature(s)
}
func (f embeddedSigner) MakeSignatureCanonical(s *crypto.Signature) (*crypto.Signature, error) {
	return f.recSigner.MakeSignatureCanonical(s)
}

var signerKinds = []struct {
	name string
	mk   func(e *recSigner) crypto.DsaSigner
}{
	{"pointer", func(e *recSigner) crypto.DsaSigner { return e }},
	{"struct with a pointer", func(e *recSigner) crypto.DsaSigner { return valueSigner{e} }},
	{"struct with a slice", func(e *recSigner) crypto.DsaSigner { return sliceSigner{recSigner: e} }},
	{"nil pointer", func(e *recSigner) crypto.DsaSigner { signerNow = e; return (*nilSigner)(nil) }},
	{"function", func(e *recSigner) crypto.DsaSigner { return funcSigner(func() *recSigner { return e }) }},
	{"struct with a library signer", func(e *recSigner) crypto.DsaSigner {
		return embeddedSigner{crypto.NewEd25519DsaSigner(newKeyPair(seedKey(0), pubOf(seedKey(0)))), e}
	}},
	{"signer around a signer", func(e *recSigner) crypto.DsaSigner { return crypto.NewSigner(crypto.NewSigner(e)) }},
}

func c19kinds(c *Ctx) {
	a, b := seedKey(0), seedKey(1)
	ka, kb := newKeyPair(a, pubOf(a)), newKeyPair(b, pubOf(b))
	sg := &crypto.Signature{R: pattern(32, 1), S: pattern(32, 2)}
	msg := pattern(9, 1)
	c.Section("engine-kinds", fmt.Sprintf("engines of %d kinds of types (structs, functions, maps, numbers, nil pointers, with other engines inside): every pair of them one after the other in every constructor", len(engineKinds)), func(s *Sec) {
		for i, k1 := range engineKinds {
			for j, k2 := range engineKinds {
				s.Case(func(t *T) {
					t.Sample(func() string { return k1.name + ", then " + k2.name })
					for n, k := range []struct {
						name string
						mk   func(e *recEngine) crypto.CryptoEngine
					}{k1, k2, k1} {
						other := crypto.NewPublicKey(pubOf(b))
						e := &recEngine{signer: &recSigner{sig: sg, res: true}, cipher: &recCipher{n + 1}, kp: kb, derived: other, compressed: n != 1}
						eng := k.mk(e)
						bad := func(what string) {
							t.Failf("engines %s, %s, %s: call %d: %s (calls of the engine: %v)", k1.name, k2.name, k1.name, n+1, what, e.log)
						}
						t.Ops(6)
						t.State([]byte{byte(i), byte(j), byte(n)})
						signer := crypto.NewSignerFromKeyPair(ka, eng)
						if got, err := signer.Sign(msg); !sameSig(got, sg) || err != nil || len(e.signer.log) != 1 || !samePair(e.gotKP, ka) {
							bad("NewSignerFromKeyPair does not use the engine given")
							return
						}
						ci := crypto.NewBlockCipher(ka, kb, eng)
						if out, err := ci.Encrypt(nil); err != nil || len(out) != 1 || out[0] != byte(n+1) || !samePair(e.gotS, ka) || !samePair(e.gotR, kb) {
							bad("NewBlockCipher does not use the engine given")
							return
						}
						kp, err := crypto.NewKeyPair(nil, ka.PublicKey, eng)
						if e.gotPub != ka.PublicKey || (err == nil) != e.compressed || (kp != nil) != e.compressed {
							bad("NewKeyPair does not use the analyzer of the engine given")
							return
						}
						e.compressed = true
						kp, err = crypto.NewKeyPair(ka.PrivateKey, nil, eng)
						if e.gotPriv != ka.PrivateKey || err != nil || kp == nil || kp.PublicKey != other {
							bad("NewKeyPair does not use the generator of the engine given")
							return
						}
						kp, err = crypto.NewKeyPairByEngine(eng)
						if err != nil || !samePair(kp, kb) {
							bad("NewKeyPairByEngine does not use the engine given")
							return
						}
					}
				})
			}
		}
	})
	c.Section("signer-kinds", fmt.Sprintf("wrapped signers of %d kinds of types, every pair of them, every method", len(signerKinds)), func(s *Sec) {
		for i, k1 := range signerKinds {
			for j, k2 := range signerKinds {
				s.Case(func(t *T) {
					for n, k := range []struct {
						name string
						mk   func(e *recSigner) crypto.DsaSigner
					}{k1, k2, k1} {
						r := &recSigner{sig: sg, res: n%2 == 0}
						w := crypto.NewSigner(k.mk(r))
						t.Ops(4)
						t.State([]byte{byte(i), byte(j), byte(n)})
						bad := func(what string) {
							t.Failf("signers %s, %s, %s: call %d: %s is not passed on (calls: %v)", k1.name, k2.name, k1.name, n+1, what, r.log)
						}
						if x, err := w.Sign(msg); x != sg || err != nil || !eq(r.data, msg) || len(r.log) != 1 {
							bad("Sign")
							return
						}
						in := &crypto.Signature{R: pattern(32, 5), S: rep(0xff, 32)}
						if w.Verify(msg, in) != r.res || r.got != in || len(r.log) != 2 {
							bad("Verify")
							return
						}
						r.got = nil
						if w.IsCanonicalSignature(in) != r.res || r.got != in || len(r.log) != 3 {
							bad("IsCanonicalSignature")
							return
						}
						r.got = nil
						if x, err := w.MakeSignatureCanonical(in); x != sg || err != nil || r.got != in || len(r.log) != 4 {
							bad("MakeSignatureCanonical")
							return
						}
					}
				})
			}
		}
	})
}

// richReader has, besides Read, whatever else readers have, all on one position.
type richReader struct {
	*bytes.Reader
	closed bool
}

func (r *richReader) Peek(n int) ([]byte, error) {
	b := make([]byte, n)
	m, err := r.ReadAt(b, r.Size()-int64(r.Len()))
	return b[:m], err
}
func (r *richReader) Close() error { r.closed = true; return nil }
func (r *richReader) Discard(n int) (int, error) {
	m, err := io.CopyN(io.Discard, r.Reader, int64(n))
	return int(m), err
}
func (r *richReader) Next(n int) []byte {
	b := make([]byte, n)
	m, _ := io.ReadFull(r.Reader, b)
	return b[:m]
}
func (r *richReader) Int63() int64 { return 4 }
func (r *richReader) Read(p []byte) (int, error) {
	if r.closed {
		return 0, os.ErrClosed
	}
	return r.Reader.Read(p)
}

type plainReader struct{ r io.Reader }

func (p plainReader) Read(b []byte) (int, error) { return p.r.Read(b) }

type sliceReader struct { // cannot be compared
	plainReader
	_ []int
}

type funcReader func(p []byte) (int, error)

func (f funcReader) Read(p []byte) (int, error) { return f(p) }

type mapReader map[string]io.Reader

func (m mapReader) Read(p []byte) (int, error) { return m["r"].Read(p) }

type nilReader struct{} // used as a nil pointer

var readerNow io.Reader

func (*nilReader) Read(p []byte) (int, error) { return readerNow.Read(p) }

var sourceKinds = []struct {
	name string
	mk   func(b []byte) io.Reader
}{
	{"bytes.Reader", func(b []byte) io.Reader { return bytes.NewReader(b) }},
	{"bytes.Buffer", func(b []byte) io.Reader { return bytes.NewBuffer(append([]byte{}, b...)) }},
	{"strings.Reader", func(b []byte) io.Reader { return strings.NewReader(string(b)) }},
	{"bufio.Reader", func(b []byte) io.Reader { return bufio.NewReader(bytes.NewReader(b)) }},
	{"bufio.Reader of 16 bytes", func(b []byte) io.Reader { return bufio.NewReaderSize(plainReader{bytes.NewReader(b)}, 16) }},
	{"bufio.ReadWriter", func(b []byte) io.Reader {
		return bufio.NewReadWriter(bufio.NewReaderSize(bytes.NewReader(b), 40), bufio.NewWriter(io.Discard))
	}},
	{"io.LimitedReader", func(b []byte) io.Reader {
		return &io.LimitedReader{R: bytes.NewReader(append(append([]byte{}, b...), rep(0x55, 100)...)), N: int64(len(b))}
	}},
	{"io.SectionReader", func(b []byte) io.Reader {
		return io.NewSectionReader(bytes.NewReader(append(append(rep(0x66, 9), b...), rep(0x55, 100)...)), 9, int64(len(b)))
	}},
	{"io.MultiReader", func(b []byte) io.Reader {
		var rs []io.Reader
		for i := 0; i < len(b); i += 11 {
			rs = append(rs, bytes.NewReader(b[i:min(i+11, len(b))]))
		}
		return io.MultiReader(rs...)
	}},
	{"io.TeeReader", func(b []byte) io.Reader { return io.TeeReader(bytes.NewReader(b), io.Discard) }},
	{"io.NopCloser", func(b []byte) io.Reader { return io.NopCloser(bytes.NewReader(b)) }},
	{"io.Pipe", func(b []byte) io.Reader {
		r, w := io.Pipe()
		go func() {
			w.Write(b)
			w.Close()
		}()
		return r
	}},
	{"one byte at a time", func(b []byte) io.Reader { return iotest.OneByteReader(bytes.NewReader(b)) }},
	{"half at a time", func(b []byte) io.Reader { return iotest.HalfReader(bytes.NewReader(b)) }},
	{"error with the data", func(b []byte) io.Reader { return iotest.DataErrReader(bytes.NewReader(b)) }},
	{"everything a reader can have", func(b []byte) io.Reader { return &richReader{Reader: bytes.NewReader(b)} }},
	{"struct", func(b []byte) io.Reader { return plainReader{bytes.NewReader(b)} }},
	{"struct with a slice", func(b []byte) io.Reader { return sliceReader{plainReader: plainReader{bytes.NewReader(b)}} }},
	{"function", func(b []byte) io.Reader { return funcReader(bytes.NewReader(b).Read) }},
	{"map", func(b []byte) io.Reader { return mapReader{"r": bytes.NewReader(b)} }},
	{"nil pointer", func(b []byte) io.Reader { readerNow = bytes.NewReader(b); return (*nilReader)(nil) }},
	{"pipe of the system", func(b []byte) io.Reader {
		r, w, err := os.Pipe()
		if err != nil {
			panic(err)
		}
		w.Write(b)
		w.Close()
		return r
	}},
}

func c10kinds(c *Ctx) {
	c.Section("source-kinds", fmt.Sprintf("sources of %d kinds (readers of the standard library, with other methods, of types that cannot be compared), with 0..200 bytes, all sequences of 2 operations and a reading of the source by its owner in between", len(sourceKinds)), func(s *Sec) {
		for _, k := range sourceKinds {
			for n := 0; n <= 200; n++ {
				if !c.Thorough && n > 100 && n%16 > 1 || !c.Thorough && n%16 > 1 && n%3 != 0 {
					continue
				}
				for code := 0; code < 16; code++ {
					if !c.Thorough && (code+n)%4 != 0 {
						continue
					}
					s.Case(func(t *T) {
						b := pattern(n, byte(77+code))
						src := k.mk(append([]byte{}, b...))
						if cl, ok := src.(*os.File); ok {
							defer cl.Close()
						}
						w := newWorld(src, code%2 == 0)
						pos := 0
						for i, o := range []int{code % 4, code / 4, code % 4} {
							op := rops[o]
							out, err := op.run(w)
							t.Ops(1)
							id := fmt.Sprintf("source: %s with %d bytes; operations %s, %s, %s: number %d", k.name, n, rops[code%4].name, rops[code/4].name, rops[code%4].name, i+1)
							t.State([]byte(k.name), []byte{byte(n), byte(code), byte(i)}, out)
							t.Outcome([]byte(errStr(err)))
							if pos+op.need > n {
								if err == nil || len(out) != 0 {
									t.Failf("%s: %d bytes were left, the operation gave %s, error %s", id, n-pos, hx(out), errStr(err))
								}
								return
							}
							if err != nil {
								t.Failf("%s: %d bytes were left, the operation failed: %v", id, n-pos, err)
								return
							}
							if want := op.want(b[pos : pos+op.need]); !eq(out, want) {
								t.Failf("%s: the result is %s, with the bytes of the source (%x) it should be %s", id, hx(out), b[pos:pos+op.need], hx(want))
								return
							}
							pos += op.need
							if i == 0 && code%3 == 0 && pos+5 <= n {
								x := make([]byte, 5)
								if _, err := io.ReadFull(src, x); err != nil || !eq(x, b[pos:pos+5]) {
									t.Failf("%s: after it the source gives its owner %x (%s), should be %x", id, x, errStr(err), b[pos:pos+5])
									return
								}
								pos += 5
							}
						}
					})
				}
			}
		}
	})
}
