package main

import (
	"bytes"
	"fmt"
	"io"
	"math/big"
	"os"
	"strings"

	crypto "github.com/proximax-storage/go-xpx-crypto"
	"verifharness/ref"
	"verifharness/vtrace"
)

func init() { checks["C21"] = checkC21 }

// tracer compares the traces of one operation for many secrets with that of the first.
type tracer struct {
	have   bool
	first  []byte
	hash   uint64
	events int64
}

var tracePoints []string

func pointName(id int32) string {
	if tracePoints == nil {
		b, _ := os.ReadFile(os.Getenv("VERIF_TRACE_POINTS"))
		tracePoints = strings.Split(string(b), "\n")
	}
	if int(id) < len(tracePoints) {
		return tracePoints[id]
	}
	return fmt.Sprint("point ", id)
}

func evName(e vtrace.Event) string {
	n := pointName(e.ID)
	if e.V >= 0 {
		n += fmt.Sprintf(" = %d", e.V)
	}
	return n
}

// run does the operation with the secret; f must not keep state.
func (tr *tracer) run(t *T, what string, secret []byte, f func(secret []byte)) bool {
	do := func(s []byte, full bool) (uint64, int64, []vtrace.Event) {
		s = append([]byte{}, s...)
		vtrace.Start(full)
		f(s)
		return vtrace.Stop()
	}
	if !tr.have {
		tr.have = true
		if tr.first == nil {
			tr.first = append([]byte{}, secret...)
		}
		do(tr.first, false) // warm up: tables, caches, lazily made values
		do(secret, false)
		tr.hash, tr.events, _ = do(tr.first, false)
	}
	h, n, _ := do(secret, false)
	t.Ops(1)
	t.State([]byte(what), secret)
	t.Outcome([]byte(fmt.Sprint(h)))
	if h == tr.hash {
		return true
	}
	_, _, a := do(tr.first, true)
	_, _, b := do(secret, true)
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	x, y := "the end", "the end"
	if i < len(a) {
		x = evName(a[i])
	}
	if i < len(b) {
		y = evName(b[i])
	}
	t.Failf("%s: the secrets %x and %x lead to different steps (%d and %d in all); step %d is %s for the one, %s for the other",
		what, tr.first, secret, tr.events, n, i, x, y)
	return false
}

func checkC21(c *Ctx) {
	if vtrace.Points == 0 {
		c.Skip("all", "the package could not be instrumented")
		return
	}
	o := groupOps()
	keys := secretKeys(c.Thorough)

	gen := crypto.NewEd25519KeyGenerator(bytes.NewReader(nil))
	trDerive := &tracer{first: keys[0]}
	c.Section("derive", fmt.Sprintf("%d private keys: derivation of the public key", len(keys)), func(s *Sec) {
		for _, k := range keys {
			s.Case(func(t *T) {
				trDerive.run(t, "DerivePublicKey", k, func(k []byte) { gen.DerivePublicKey(crypto.NewPrivateKey(k)) })
			})
		}
	})
	c.Section("generate", fmt.Sprintf("%d key pairs generated from given random bytes", len(keys)), func(s *Sec) {
		tr := &tracer{first: keys[0]}
		for _, k := range keys {
			s.Case(func(t *T) {
				tr.run(t, "GenerateKeyPair", k, func(k []byte) {
					if _, err := crypto.NewEd25519KeyGenerator(bytes.NewReader(k)).GenerateKeyPair(); err != nil {
						panic(err)
					}
				})
			})
		}
	})
	c.Section("sign", fmt.Sprintf("%d private keys x 5 messages: signatures", len(keys)), func(s *Sec) {
		pub := crypto.NewPublicKey(ref.B.Encode()) // the same for all: it takes part as a byte string
		for mi, m := range [][]byte{nil, []byte("m"), pattern(32, 1), pattern(71, 2), pattern(300, 3)} {
			tr := &tracer{first: keys[0]}
			for ki, k := range keys {
				if mi > 1 && (ki+mi)%3 != 0 {
					continue
				}
				s.Case(func(t *T) {
					tr.run(t, fmt.Sprintf("Sign, %d-byte message", len(m)), k, func(k []byte) {
						kp := &crypto.KeyPair{PrivateKey: crypto.NewPrivateKey(k), PublicKey: pub}
						if _, err := crypto.NewEd25519DsaSigner(kp).Sign(m); err != nil {
							panic(err)
						}
					})
				})
			}
		}
	})
	c.Section("shared-key", fmt.Sprintf("%d private keys x 3 public keys (ordinary, small order, neutral)", len(keys)), func(s *Sec) {
		for pi, p := range []ref.Point{ref.B.MulInt(12345), ref.Torsion[1], ref.Neutral} {
			tr := &tracer{first: keys[0]}
			for ki, k := range keys {
				if pi > 0 && ki%4 != pi {
					continue
				}
				s.Case(func(t *T) {
					tr.run(t, "GetSharedKey", k, func(k []byte) {
						priv := crypto.NewPrivateKey(k)
						pub := crypto.NewPublicKey(p.Encode())
						bc := crypto.NewEd25519BlockCipher(&crypto.KeyPair{PrivateKey: priv, PublicKey: pub}, &crypto.KeyPair{PublicKey: pub}, bytes.NewReader(nil))
						if _, err := bc.GetSharedKey(priv, pub, rep(7, 32)); err != nil {
							panic(err)
						}
					})
				})
			}
		}
	})
	c.Section("encrypt", "private keys x messages: encryption and decryption", func(s *Sec) {
		pub := crypto.NewPublicKey(ref.B.MulInt(777).Encode())
		for _, n := range []int{0, 16, 50} {
			tr := &tracer{first: keys[0]}
			m := pattern(n, 9)
			for ki, k := range keys {
				if ki%4 != n%4 {
					continue
				}
				s.Case(func(t *T) {
					tr.run(t, fmt.Sprintf("Encrypt, %d-byte message", n), k, func(k []byte) {
						kp := &crypto.KeyPair{PrivateKey: crypto.NewPrivateKey(k), PublicKey: pub}
						bc := crypto.NewEd25519BlockCipher(kp, &crypto.KeyPair{PublicKey: pub}, io.MultiReader(bytes.NewReader(rep(3, 48))))
						if _, err := bc.Encrypt(m); err != nil {
							panic(err)
						}
					})
				})
			}
		}
	})

	if o.scal != nil {
		sc := secretScalars(c.Thorough)
		c.Section("scalar-multiplication", fmt.Sprintf("%d scalars (every digit at every position, runs, extremes) times the base point and another one", len(sc)), func(s *Sec) {
			other := element(ref.B.MulInt(4711), crypto.P3, ref.One, ref.One)
			other.PrecomputeForScalarMultiplication()
			for ti, g := range []ge{crypto.Ed25519Group.BASE_POINT(), other} {
				tr := &tracer{first: sc[0]}
				for i, k := range sc {
					if ti == 1 && i%5 != 0 {
						continue
					}
					s.Case(func(t *T) {
						tr.run(t, "scalar multiplication", k, func(k []byte) {
							if _, err := o.scal(g, k); err != nil {
								panic(err)
							}
						})
					})
				}
			}
		})
	}
	c.Section("select", "table lookup: 32 positions x 17 digits; the same steps for all digits of a position", func(s *Sec) {
		g := crypto.Ed25519Group.BASE_POINT()
		for pos := 0; pos < 32; pos++ {
			tr := &tracer{first: []byte{8}}
			for b := 0; b <= 16; b++ {
				s.Case(func(t *T) {
					tr.run(t, fmt.Sprintf("Select at position %d (digit + 8)", pos), []byte{byte(b)}, func(k []byte) {
						if _, err := g.Select(pos, int(k[0])-8); err != nil {
							panic(err)
						}
					})
				})
			}
		}
	})
	if modQ, ok := hook[func(a []byte) []byte]("efe.modQ"); ok {
		wide := wideNumbers(c.Thorough)
		c.Section("reduction", "reduction modulo L of 64-byte numbers: digits 0 or all ones, multiples of L, single bits", func(s *Sec) {
			tr := &tracer{first: wide[0]}
			for _, x := range wide {
				s.Case(func(t *T) { tr.run(t, "modQ", x, func(k []byte) { modQ(k) }) })
			}
		})
	}
	if mulAdd, ok := hook[func(a, b, c []byte) []byte]("efe.mulAdd"); ok {
		c.Section("multiply-add", "a*b+c modulo L, all triples of extreme numbers", func(s *Sec) {
			tr := &tracer{first: make([]byte, 96)}
			var al [][]byte
			for _, x := range []*big.Int{bi(0), bi(1), addB(ref.L, -1), ref.L, pow2(252), addB(pow2(255), -1), addB(pow2(256), -1), new(big.Int).Rsh(ref.L, 1), addB(pow2(21), -1)} {
				al = append(al, le32(x))
			}
			for i := 0; i < 12; i++ {
				al = append(al, le32(new(big.Int).Lsh(big.NewInt(1<<21-1), uint(21*i))))
			}
			for _, x := range al {
				for _, y := range al {
					for _, z := range al[:9] {
						s.Case(func(t *T) {
							tr.run(t, "multiplyAndAddModQ", append(append(append([]byte{}, x...), y...), z...), func(k []byte) { mulAdd(k[:32], k[32:64], k[64:]) })
						})
					}
				}
			}
		})
	}
	type f1 = func(a fe) fe
	type f2 = func(a, b fe) fe
	vec := limbAlphabetSmall()
	for _, name := range []string{"field.sqr", "field.sqrDbl", "field.neg", "field.inv"} {
		if f, ok := hook[f1](name); ok {
			c.Section(name, fmt.Sprintf("%d limb vectors", len(vec)), func(s *Sec) {
				tr := &tracer{first: []byte{0, 0}}
				for i := range vec {
					s.Case(func(t *T) {
						tr.run(t, name, []byte{byte(i), byte(i >> 8)}, func(k []byte) { f(fe{Raw: vec[int(k[0])|int(k[1])<<8]}) })
					})
				}
			})
		}
	}
	for _, name := range []string{"field.add", "field.sub", "field.mul"} {
		if f, ok := hook[f2](name); ok {
			c.Section(name, fmt.Sprintf("all pairs of %d limb vectors", len(vec)), func(s *Sec) {
				tr := &tracer{first: []byte{0, 0, 0, 0}}
				for i := range vec {
					for j := range vec {
						s.Case(func(t *T) {
							tr.run(t, name, []byte{byte(i), byte(i >> 8), byte(j), byte(j >> 8)}, func(k []byte) {
								f(fe{Raw: vec[int(k[0])|int(k[1])<<8]}, fe{Raw: vec[int(k[2])|int(k[3])<<8]})
							})
						})
					}
				}
			})
		}
	}
}

// secretKeys: byte patterns, single bits, and many keys (the scalars are hashes of them).
func secretKeys(thorough bool) [][]byte {
	var r [][]byte
	for _, v := range []byte{0, 1, 2, 0x7f, 0x80, 0xff} {
		r = append(r, rep(v, 32))
	}
	for i := 0; i < 256; i += 3 {
		k := rep(0, 32)
		k[i/8] = 1 << (i % 8)
		r = append(r, k)
	}
	for n := 0; n < 32; n += 5 {
		k := pattern(32, byte(n))
		for i := 0; i < n; i++ {
			k[i] = 0
		}
		r = append(r, k)
	}
	n := 200
	if thorough {
		n = 6000
	}
	for i := 0; i < n; i++ {
		r = append(r, ref.SHA3_256([]byte{byte(i), byte(i >> 8), 21}))
	}
	return r
}

func secretScalars(thorough bool) [][]byte {
	var r [][]byte
	r = append(r, le32(bi(0)), le32(bi(1)), le32(addB(pow2(255), -1)), le32(addB(ref.L, -1)), le32(pow2(254)))
	for i := uint(0); i < 64; i++ {
		for d := int64(1); d < 16; d++ {
			if i == 63 && d > 7 {
				continue
			}
			r = append(r, le32(new(big.Int).Lsh(bi(d), 4*i)))
			if thorough || d == 8 {
				bg := new(big.Int).Sub(addB(pow2(255), -1), new(big.Int).Lsh(bi(min64(d, 7)), 4*i))
				r = append(r, le32(bg))
			}
		}
	}
	for d := 0; d < 16; d++ {
		b := rep(byte(d|d<<4), 32)
		b[31] &= 0x7f
		r = append(r, b)
	}
	for i := 0; i < 255; i++ {
		r = append(r, le32(addB(pow2(uint(i)), -1)), le32(new(big.Int).Sub(addB(pow2(255), -1), addB(pow2(uint(i)), -1))))
	}
	return r
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

func wideNumbers(thorough bool) [][]byte {
	var r [][]byte
	nb := uint(11)
	if thorough {
		nb = 16
	}
	max := big.NewInt(1<<21 - 1)
	for m := 0; m < 1<<nb; m++ {
		x := new(big.Int)
		for i := uint(0); i < nb; i++ {
			if m>>i&1 == 1 {
				x.Or(x, new(big.Int).Lsh(max, 21*(23-i)))
			}
		}
		r = append(r, le64(x.And(x, addB(pow2(512), -1))))
	}
	for i := uint(0); i < 512; i++ {
		r = append(r, le64(pow2(i)), le64(addB(pow2(i), -1)))
	}
	for k := int64(0); k < 256; k++ {
		y := new(big.Int).Mul(ref.L, bi(k))
		r = append(r, le64(y))
		if k > 0 {
			r = append(r, le64(addB(y, -1)))
		}
	}
	return r
}

func limbAlphabetSmall() []crypto.FieldElements {
	var r []crypto.FieldElements
	for _, v := range []ref.Fe{ref.Zero, ref.One, ref.FeFromInt(-1), ref.SqrtM1, ref.D, ref.FeFromInt(2)} {
		for _, l := range limbVariants(v) {
			r = append(r, crypto.FieldElements(l))
		}
	}
	for i := 0; i < 10; i++ {
		for _, v := range []int64{1, -1, 1 << 25, -(1 << 25)} {
			var x crypto.FieldElements
			x[i] = v
			r = append(r, x)
		}
	}
	return r
}
