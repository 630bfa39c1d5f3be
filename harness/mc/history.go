package main

import (
	"fmt"
	"math/big"
	"strings"

	crypto "github.com/proximax-storage/go-xpx-crypto"
	"verifharness/ref"
)

// Every property that says what an operation returns says so whatever was
// called before. history adds to a property the sections near-arguments and
// changed-objects of C11 for the operations the property speaks of.
func history(c *Ctx, id string) {
	near := map[string][]string{
		"C01": {"Sign,"},
		"C02": {"Verify,"},
		"C03": {"MakeSignatureCanonical", "IsCanonicalSignature", "Verify, signature"},
		"C04": {"DerivePublicKey", "NewKeyPair", "PrepareForScalarMultiply", "GenerateKeyPair"},
		"C05": {"key text", "printed key", "private key of"},
		"C06": {"signature "},
		"C07": {"Encrypt,", "Decrypt,"},
		"C08": {"Decrypt,"},
		"C09": {"GetSharedKey,"},
		"C10": {"GenerateKeyPair", "Encrypt, randomness"},
		"C13": {"group "},
		"C14": {"scalar multiplication", "double scalar", "base point times"},
		"C15": {"field ", "encoded field element"},
		"C16": {"scalars "},
		"C17": {"encoded group element", "affine"},
		"C18": {"Hashes"},
		"C20": {"MathUtils."},
		"C23": {"text of"},
	}[id]
	chg := map[string][]string{
		"C01": {"PrivateKey.Sign", "PublicKey.Sign"},
		"C02": {"PublicKey.Verify", "Signature.Verify"},
		"C03": {"Signature.IsCanonicalSignature", "Signature.MakeSignatureCanonical"},
		"C04": {"PrivateKey.DerivePublicKey", "PrivateKey.NewKeyPair", "PrivateKey.PrepareForScalarMultiply", "PublicKey.IsKeyCompressed"},
		"C05": {"PrivateKey.String", "PublicKey.String"},
		"C06": {"Signature.Bytes", "Signature.String", "Signature.GetR", "Signature.GetS"},
		"C07": {"PrivateKey.Encrypt", "PrivateKey.Decrypt", "recipient's PublicKey.Encrypt", "PublicKey.Decrypt"},
		"C09": {"PrivateKey.GetSharedKey", "PublicKey.GetSharedKey"},
		"C15": {"encoded field element.Decode", "encoded field element.IsNegative", "encoded field element.IsNonZero", "field element.Encode", "field element.IsNegative", "field element.IsNonZero"},
		"C16": {"encoded field element.ReduceModGroupOrder"},
		"C13": {"group element.Encode", "group element.Equals", "group element.SatisfiesCurveEquation"},
		"C17": {"encoded group element.Decode", "encoded group element.GetAffineX", "encoded group element.GetAffineY"},
		"C20": {"encoded field element.ReduceModGroupOrder", "encoded field element.EncodedFieldToBigInteger", "field element.FieldToBigInteger", "group element.DoubleGroupElement"},
		"C23": {"encoded field element.String", "field element.String", "group element.String", "encoded group element.String"},
	}[id]
	if near != nil {
		want := func(name string) bool {
			for _, p := range near {
				if strings.HasPrefix(name, p) {
					return true
				}
			}
			return false
		}
		nearSection(c, want)
		reversedSection(c, want)
		longSection(c, want)
		countedSection(c, want)
	}
	if chg != nil {
		chgSection(c, func(name string) bool {
			for _, p := range chg {
				if name == p {
					return true
				}
			}
			return false
		})
	}
}

func ptOrErr(p ref.Point, ok bool) []byte {
	if !ok {
		return []byte("error")
	}
	return p.Encode()
}

// textNear: texts at distance one of hex digits.
func textNear(b []byte) [][]byte {
	var r [][]byte
	for i := range b {
		for _, v := range []byte("0f9A") {
			if b[i] != v {
				c := append([]byte{}, b...)
				c[i] = v
				r = append(r, c)
			}
		}
	}
	r = append(r, []byte(strings.ToUpper(string(b))), b[1:], b[:len(b)-1], b[2:], b[:0], append([]byte("0"), b...), append(append([]byte{}, b...), '0'), []byte(strings.Replace(string(b), "a", "g", 1)))
	return append(r, sameSumsText(b)...)
}

// lowOps: operations below keys, signers and ciphers.
func lowOps(variant int) []nearOp {
	pattern, seedKey := variantOf(variant)
	fixed := func(f func(g *Guards, x []byte) (got, want []byte)) func(g *Guards) func(x []byte) ([]byte, []byte) {
		return func(g *Guards) func(x []byte) ([]byte, []byte) {
			return func(x []byte) ([]byte, []byte) { return f(g, x) }
		}
	}
	seed := seedKey(3)
	pub, pub1 := pubOf(seed), pubOf(seedKey(4))
	two := append(append([]byte{}, pub...), pub1...)
	sig := ref.Sign(ref.SHA3_512, seed, pub, pattern(9, 9))
	ops := []nearOp{}
	add := func(name string, base []byte, f func(g *Guards, x []byte) (got, want []byte)) {
		ops = append(ops, nearOp{name: name, base: base, mk: fixed(f)})
	}
	hexOf := func(b []byte) []byte { return []byte(fmt.Sprintf("%x", b)) }
	parse := func(x []byte) []byte {
		s := string(x)
		if len(s)%2 == 1 {
			s = "0" + s
		}
		var b []byte
		for i := 0; i < len(s); i += 2 {
			h := strings.IndexByte("0123456789abcdef", lower(s[i]))
			l := strings.IndexByte("0123456789abcdef", lower(s[i+1]))
			if h < 0 || l < 0 {
				return []byte("error")
			}
			b = append(b, byte(h<<4|l))
		}
		if len(b) != 32 {
			return []byte("error")
		}
		return b
	}
	ops = append(ops,
		nearOp{"key text, private", hexOf(seed), false, fixed(func(g *Guards, x []byte) ([]byte, []byte) {
			k, err := crypto.NewPrivateKeyfromHexString(string(x))
			if err != nil {
				return []byte("error"), parse(x)
			}
			return rawKey(k), parse(x)
		})},
		nearOp{"key text, public", hexOf(seed), false, fixed(func(g *Guards, x []byte) ([]byte, []byte) {
			k, err := crypto.NewPublicKeyfromHex(string(x))
			if err != nil {
				return []byte("error"), parse(x)
			}
			return rawKey(k), parse(x)
		})})
	add("printed key, private", seed, func(g *Guards, x []byte) ([]byte, []byte) {
		return []byte(crypto.NewPrivateKey(g.New(x)).String()), hexOf(x)
	})
	add("printed key, public", pub, func(g *Guards, x []byte) ([]byte, []byte) {
		return []byte(crypto.NewPublicKey(g.New(x)).String()), []byte(fmt.Sprintf("%X", x))
	})
	add("private key of an integer", seed, func(g *Guards, x []byte) ([]byte, []byte) {
		return rawKey(crypto.NewPrivateKeyFromBigInt(new(big.Int).SetBytes(x))), x
	})
	add("GenerateKeyPair, randomness", seed, func(g *Guards, x []byte) ([]byte, []byte) {
		kp, err := crypto.NewEd25519KeyGenerator(&tape{b: x}).GenerateKeyPair()
		b, err := pairBytes(kp, err)
		if err == nil {
			spoil(kp.PrivateKey, kp.PublicKey, kp)
		}
		return resB(b, err), append(append([]byte{}, x...), pubOf(x)...)
	})
	all := func(s *crypto.Signature, err error) []byte {
		if err != nil {
			return []byte("error")
		}
		b := []byte(fmt.Sprintf("%x %s %x %x", s.Bytes(), s.String(), le32(s.GetR()), le32(s.GetS())))
		spoil(s)
		return b
	}
	add("signature from bytes", sig, func(g *Guards, x []byte) ([]byte, []byte) {
		return all(crypto.NewSignatureFromBytes(g.New(x))), []byte(fmt.Sprintf("%x %x %x %x", x, x, x[:32], x[32:]))
	})
	add("signature from parts", sig, func(g *Guards, x []byte) ([]byte, []byte) {
		return all(crypto.NewSignature(g.New(x[:32]), g.New(x[32:]))), []byte(fmt.Sprintf("%x %x %x %x", x, x, x[:32], x[32:]))
	})
	add("signature from integers", append(append([]byte{}, pattern(32, 3)[:31]...), append([]byte{0}, append(pattern(31, 4), 0)...)...), func(g *Guards, x []byte) ([]byte, []byte) {
		w := []byte(fmt.Sprintf("%x %x %x %x", x, x, x[:32], x[32:]))
		got := all(crypto.NewSignatureFromBigInt(ref.LE(x[:32]), ref.LE(x[32:])))
		if string(got) == "error" {
			return nil, nil
		}
		return got, w
	})
	add("IsCanonicalSignature, S", le32(addB(ref.L, -5)), func(g *Guards, x []byte) ([]byte, []byte) {
		s := crypto.NewSignerFromKeyPair(newKeyPair(nil, pub), nil)
		return boolB(s.IsCanonicalSignature(sigOf(g.New(pub), g.New(x)))), boolB(ref.Canonical(x))
	})
	// field elements
	dec := func(g *Guards, b []byte) fe {
		return *crypto.MathUtils.ToFieldElement(ref.LE(b))
	}
	fo := fieldOps()
	pair := append(pattern(31, 40), append([]byte{1}, append(pattern(31, 41), 2)...)...)
	f2 := func(name string, f func(a, b fe) fe, w func(a, b ref.Fe) ref.Fe) {
		if f != nil {
			add("field "+name, pair, func(g *Guards, x []byte) ([]byte, []byte) {
				a, b := x[:32], x[32:]
				a[31] &= 0x7f
				b[31] &= 0x7f
				r := f(dec(g, a), dec(g, b))
				return r.Encode().Raw, w(ref.FeFromBytes(a), ref.FeFromBytes(b)).Bytes()
			})
		}
	}
	f1 := func(name string, f func(a fe) fe, w func(a ref.Fe) ref.Fe) {
		if f != nil {
			add("field "+name, pair[:32], func(g *Guards, x []byte) ([]byte, []byte) {
				x[31] &= 0x7f
				r := f(dec(g, x))
				return r.Encode().Raw, w(ref.FeFromBytes(x)).Bytes()
			})
		}
	}
	f2("sum", fo.add, ref.Fe.Add)
	f2("difference", fo.sub, ref.Fe.Sub)
	f2("product", fo.mul, ref.Fe.Mul)
	f1("negation", fo.neg, ref.Fe.Neg)
	f1("square", fo.sqr, ref.Fe.Sqr)
	f1("doubled square", fo.sqrDbl, func(a ref.Fe) ref.Fe { return a.Sqr().Add(a.Sqr()) })
	f1("inverse", fo.invt, ref.Fe.Inv)
	// scalars
	if modQ, ok := hook[func(a []byte) []byte]("efe.modQ"); ok {
		add("scalars reduced", pattern(64, 50), func(g *Guards, x []byte) ([]byte, []byte) {
			n := ref.LE(x)
			return modQ(g.New(x)), le32(n.Mod(n, ref.L))
		})
	}
	if mulAdd, ok := hook[func(a, b, c []byte) []byte]("efe.mulAdd"); ok {
		add("scalars multiplied and added", pattern(96, 51), func(g *Guards, x []byte) ([]byte, []byte) {
			n := new(big.Int).Mul(ref.LE(x[:32]), ref.LE(x[32:64]))
			n.Add(n, ref.LE(x[64:]))
			return mulAdd(g.New(x[:32]), g.New(x[32:64]), g.New(x[64:])), le32(n.Mod(n, ref.L))
		})
	}
	// points
	decode := func(x []byte) (ge, ref.Point, bool) {
		p, ok := ref.Decode(x)
		if !ok {
			return nil, p, false
		}
		return element(p, crypto.P3, ref.One, ref.One), p, true
	}
	out := func(g ge) []byte {
		p, ok := gval(g)
		if !ok {
			return []byte("no point")
		}
		e, err := g.Encode()
		if err != nil {
			return []byte("error")
		}
		return append(p.Encode(), e.Raw...)
	}
	dup := func(p ref.Point) []byte { return append(p.Encode(), p.Encode()...) }
	o := groupOps()
	if o.add != nil && o.ca != nil && o.sub != nil {
		add("group sum and difference", two, func(g *Guards, x []byte) ([]byte, []byte) {
			a, pa, ok1 := decode(x[:32])
			b, pb, ok2 := decode(x[32:])
			if !ok1 || !ok2 {
				return nil, nil
			}
			cb := o.ca(b)
			return append(out(o.add(a, cb)), out(o.sub(a, cb))...), append(dup(pa.Add(pb)), dup(pa.Sub(pb))...)
		})
	}
	if o.dbl != nil && o.neg != nil {
		add("group doubling and negation", pub, func(g *Guards, x []byte) ([]byte, []byte) {
			a, p, ok := decode(x)
			if !ok {
				return nil, nil
			}
			n, err := o.neg(a)
			if err != nil {
				return []byte("error"), nil
			}
			return append(out(o.dbl(a)), out(n)...), append(dup(p.Dbl()), dup(p.Neg())...)
		})
	}
	add("group equality", two, func(g *Guards, x []byte) ([]byte, []byte) {
		a, _, ok1 := decode(x[:32])
		b, _, ok2 := decode(x[32:])
		if !ok1 || !ok2 {
			return nil, nil
		}
		a2, _, _ := decode(x[:32])
		return append(boolB(a.Equals(b)), boolB(a.Equals(a2))...), append(boolB(eq(x[:32], x[32:])), boolB(true)...)
	})
	if o.scal != nil {
		ops = append(ops, nearOp{"scalar multiplication, scalar", append(pattern(31, 60), 0), false, func(g *Guards) func(x []byte) ([]byte, []byte) {
			a, p, _ := decode(pub)
			a.PrecomputeForScalarMultiplication()
			tab := ref.PowTable(p)
			return func(x []byte) ([]byte, []byte) {
				x[31] &= 0x7f
				r, err := o.scal(a, g.New(x))
				if err != nil {
					return []byte("error"), nil
				}
				return out(r), dup(ref.MulTable(tab, ref.LE(x)))
			}
		}})
		k := append(pattern(31, 61), 0)
		add("scalar multiplication, point", pub, func(g *Guards, x []byte) ([]byte, []byte) {
			a, p, ok := decode(x)
			if !ok {
				return nil, nil
			}
			a.PrecomputeForScalarMultiplication()
			r, err := o.scal(a, k)
			if err != nil {
				return []byte("error"), nil
			}
			return out(r), dup(p.Mul(ref.LE(k)))
		})
	}
	if o.dscal != nil {
		ab := append(append(append([]byte{}, pattern(31, 62)...), 0), append(pattern(31, 63), 0)...)
		ops = append(ops, nearOp{"double scalar multiplication, scalars", ab, false, func(g *Guards) func(x []byte) ([]byte, []byte) {
			A, p, _ := decode(pub)
			A.PrecomputeForDoubleScalarMultiplication()
			tab := ref.PowTable(p)
			return func(x []byte) ([]byte, []byte) {
				x[31] &= 0x0f
				x[63] &= 0x0f
				r, err := o.dscal(A, g.New(x[:32]), g.New(x[32:]))
				if err != nil {
					return []byte("error"), nil
				}
				q, ok := gval(r)
				if !ok {
					return []byte("no point"), nil
				}
				return q.Encode(), ref.BaseMul(ref.LE(x[32:])).Sub(ref.MulTable(tab, ref.LE(x[:32]))).Encode()
			}
		}})
		add("double scalar multiplication, point", pub, func(g *Guards, x []byte) ([]byte, []byte) {
			A, p, ok := decode(x)
			if !ok {
				return nil, nil
			}
			A.PrecomputeForDoubleScalarMultiplication()
			r, err := o.dscal(A, ab[:32], ab[32:])
			if err != nil {
				return []byte("error"), nil
			}
			q, _ := gval(r)
			return q.Encode(), ref.BaseMul(ref.LE(ab[32:])).Sub(p.Mul(ref.LE(ab[:32]))).Encode()
		})
	}
	// big-integer helpers
	M := crypto.MathUtils
	add("MathUtils.BytesToBigInteger", pattern(32, 70), func(g *Guards, x []byte) ([]byte, []byte) {
		return le32(M.BytesToBigInteger(g.New(x))), x
	})
	add("MathUtils.ToByteArray", pattern(32, 71), func(g *Guards, x []byte) ([]byte, []byte) {
		return M.ToByteArray(ref.LE(x)), x
	})
	add("MathUtils.ReduceModGroupOrder", pattern(32, 72), func(g *Guards, x []byte) ([]byte, []byte) {
		e, err := crypto.NewEd25519EncodedFieldElement(g.New(x))
		if err != nil {
			return []byte("error"), nil
		}
		n := ref.LE(x)
		return rawKey(M.ReduceModGroupOrder(e)), le32(n.Mod(n, ref.L))
	})
	add("MathUtils.ScalarMultiplyGroupElement, scalar", append(pattern(30, 73), 0, 0), func(g *Guards, x []byte) ([]byte, []byte) {
		x[31] &= 0x0f
		a, p, _ := decode(pub)
		return ptOrErr(gval(M.ScalarMultiplyGroupElement(a, *M.ToFieldElement(ref.LE(x))))), p.Mul(ref.LE(x)).Encode()
	})
	add("MathUtils.AddGroupElements", two, func(g *Guards, x []byte) ([]byte, []byte) {
		a, pa, ok1 := decode(x[:32])
		b, pb, ok2 := decode(x[32:])
		if !ok1 || !ok2 {
			return nil, nil
		}
		return ptOrErr(gval(M.AddGroupElements(a, b))), pa.Add(pb).Encode()
	})
	add("affine x from y", pub, func(g *Guards, x []byte) ([]byte, []byte) {
		y := append([]byte{}, x...)
		y[31] &= 0x7f
		w, ok := ref.RecoverX(ref.FeFromBytes(y), x[31]>>7 == 1)
		got, err := M.GetAffineXFromAffineY(ref.LE(y), x[31]>>7 == 1)
		if !ok {
			return boolB(err != nil), boolB(true)
		}
		if err != nil {
			return []byte("error"), w.Bytes()
		}
		return le32(got), w.Bytes()
	})
	// printed forms
	add("text of a field element", pattern(32, 80), func(g *Guards, x []byte) ([]byte, []byte) {
		x[31] &= 0x7f
		return []byte(M.ToFieldElement(ref.LE(x)).String()), hexOf(ref.FeFromBytes(x).Bytes())
	})
	add("text of a group element", pub, func(g *Guards, x []byte) ([]byte, []byte) {
		a, p, ok := decode(x)
		if !ok {
			return nil, nil
		}
		ax, ay := p.Affine()
		return []byte(a.String()), []byte(fmt.Sprintf("X=%x\nY=%x\nZ=%x\nT=%x\n", ax.Bytes(), ay.Bytes(), ref.One.Bytes(), ax.Mul(ay).Bytes()))
	})
	add("text of an encoded group element", pub, func(g *Guards, x []byte) ([]byte, []byte) {
		p, ok := ref.Decode(x)
		got := (&crypto.Ed25519EncodedGroupElement{Raw: g.New(x)}).String()
		if !ok {
			return boolB(strings.Contains(got, "x=")), boolB(false)
		}
		ax, ay := p.Affine()
		return []byte(got), []byte(fmt.Sprintf("x=%x\ny=%x\n", ax.Bytes(), ay.Bytes()))
	})
	return ops
}

func lower(b byte) byte {
	if b >= 'A' && b <= 'Z' {
		return b + 32
	}
	return b
}
