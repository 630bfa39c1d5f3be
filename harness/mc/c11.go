package main

import (
	"fmt"
	"math/big"
	"reflect"

	crypto "github.com/proximax-storage/go-xpx-crypto"
	"verifharness/ref"
)

func init() { checks["C11"] = checkC11 }

// deepHash walks a value (unexported fields too) and hashes what it finds.
func deepHash(h uint64, v reflect.Value, seen map[uintptr]bool, depth int) uint64 {
	if depth > 12 {
		return h
	}
	n := func(x uint64) { h = (h ^ x) * 0x9fb21c651e98df25; h ^= h >> 31 }
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			n(1)
			return h
		}
		if seen[v.Pointer()] {
			n(2)
			return h
		}
		seen[v.Pointer()] = true
		return deepHash(h, v.Elem(), seen, depth+1)
	case reflect.Interface:
		if v.IsNil() {
			n(3)
			return h
		}
		return deepHash(h, v.Elem(), seen, depth+1)
	case reflect.Struct:
		if v.Type().PkgPath() != "" && v.Type().PkgPath() != "github.com/proximax-storage/go-xpx-crypto" && v.Type().PkgPath() != "math/big" && v.Type().PkgPath() != "main" {
			n(4) // other packages' internals (locks, readers) are not state of this one
			return h
		}
		for i := 0; i < v.NumField(); i++ {
			h = deepHash(h, v.Field(i), seen, depth+1)
		}
	case reflect.Slice, reflect.Array:
		n(uint64(v.Len()))
		for i := 0; i < v.Len(); i++ {
			h = deepHash(h, v.Index(i), seen, depth+1)
		}
	case reflect.Map:
		n(uint64(v.Len()))
	case reflect.String:
		h = mix(h, []byte(v.String()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n(uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		n(v.Uint())
	case reflect.Bool:
		n(uint64(b2i(v.Bool())))
	}
	return h
}

// world: the objects shared by the operations of one sequence.
type world struct {
	key    [3][]byte
	kp     [3]*crypto.KeyPair
	signer [3]*crypto.Signer
	pubOnl *crypto.Signer
	ci     [3]crypto.BlockCipher // 0: k0->k1, 1: k1->k0, 2: k0->k2
	shared *crypto.Ed25519BlockCipher
	gen    crypto.KeyGenerator
	src    *tape
	msg    []byte
	mver   int
	sig    *crypto.Signature // valid for key 0 and message version 0
	sigS   *crypto.Signature // the same with S+L
	sigBad *crypto.Signature
	fe     *crypto.Ed25519FieldElement
	p3     ge
	p3b    ge
	enc    *crypto.Ed25519EncodedGroupElement
	encBad *crypto.Ed25519EncodedGroupElement
	efe    *crypto.Ed25519EncodedFieldElement
	big    *big.Int
	g      Guards
	ret    [][2][]byte // returned slices and what they held
	scrib  bool
}

var msgVersions = [][]byte{pattern(50, 200), flip(pattern(50, 200), 203), flip(pattern(50, 200), 0)}

func newC11World(scrib bool) *world {
	w := &world{scrib: scrib}
	w.key = [3][]byte{seedKey(0), flip(seedKey(0), 255), flip(seedKey(0), 4)}
	for i := range w.key {
		w.kp[i] = newKeyPair(w.g.New(w.key[i]), w.g.New(pubOf(w.key[i])))
		w.signer[i] = crypto.NewSignerFromKeyPair(w.kp[i], nil)
	}
	w.pubOnl = crypto.NewSignerFromKeyPair(newKeyPair(nil, w.g.New(pubOf(w.key[0]))), nil)
	w.src = &tape{b: tapeBytes}
	w.ci[0] = crypto.NewEd25519BlockCipher(w.kp[0], w.kp[1], w.src)
	w.ci[1] = crypto.NewEd25519BlockCipher(w.kp[1], w.kp[0], w.src)
	w.ci[2] = crypto.NewEd25519BlockCipher(w.kp[0], w.kp[2], w.src)
	w.shared = crypto.NewEd25519BlockCipher(w.kp[0], w.kp[1], w.src)
	w.gen = crypto.NewEd25519KeyGenerator(w.src)
	w.msg = w.g.New(msgVersions[0])
	s := memoSign(w.key[0], msgVersions[0])
	w.sig = sigOf(w.g.New(s[:32]), w.g.New(s[32:]))
	w.sigS = sigOf(w.g.New(s[:32]), w.g.New(le32(new(big.Int).Add(ref.LE(s[32:]), ref.L))))
	w.sigBad = sigOf(w.g.New(s[:32]), w.g.New(flip(s[32:], 3)))
	w.fe = feOf(ref.FeFromInt(-77))
	w.p3 = element(c11P, crypto.P3, zVariants()[3], ref.One)
	w.p3b = element(c11P, crypto.P3, zVariants()[1], ref.One)
	w.enc, _ = crypto.NewEd25519EncodedGroupElement(w.g.New(c11P.Encode()))
	w.encBad, _ = crypto.NewEd25519EncodedGroupElement(w.g.New(le32(bi(2))))
	w.efe, _ = crypto.NewEd25519EncodedFieldElement(w.g.New(pattern(32, 9)))
	w.big = ref.LE(pattern(31, 4))
	return w
}

var (
	tapeBytes = pattern(2000, 60)
	c11P      = ref.BaseMul(bi(987654321))
	signMemo  = map[string][]byte{}
)

func memoSign(seed, m []byte) []byte {
	k := string(seed) + string(m)
	s, ok := signMemo[k]
	if !ok {
		s = ref.Sign(ref.SHA3_512, seed, pubOf(seed), m)
		signMemo[k] = s
	}
	return s
}

func boolB(b bool) []byte { return []byte{byte(b2i(b))} }

func resB(b []byte, err error) []byte {
	if err != nil {
		return []byte("error")
	}
	keepResult(b)
	return b
}

type c11op struct {
	name string
	slow bool
	// run performs the operation; it returns what was observed and what the
	// definition says, and hands returned slices to keep.
	run func(w *world, keep func(b []byte)) (got, want []byte)
}

func c11ops() []c11op {
	var ops []c11op
	add := func(name string, slow bool, f func(w *world, keep func([]byte)) (got, want []byte)) {
		ops = append(ops, c11op{name, slow, f})
	}
	m := func(w *world) []byte { return msgVersions[w.mver] }
	for i := 0; i < 3; i++ {
		add(fmt.Sprintf("Sign(key %d)", i), false, func(w *world, keep func([]byte)) ([]byte, []byte) {
			s, err := w.signer[i].Sign(w.msg)
			if err != nil {
				return []byte("error"), memoSign(w.key[i], m(w))
			}
			got := append(append([]byte{}, s.R...), s.S...)
			keep(s.R)
			keep(s.S)
			spoil(s)
			return got, memoSign(w.key[i], m(w))
		})
	}
	add("rewrite the message in place", false, func(w *world, keep func([]byte)) ([]byte, []byte) {
		w.mver = (w.mver + 1) % len(msgVersions)
		copy(w.msg, msgVersions[w.mver])
		for _, g := range w.g.list {
			if &g.B[0] == &w.msg[0] {
				copy(g.want[guardPad:], w.msg)
			}
		}
		return nil, nil
	})
	verify := func(name string, s func(w *world) *crypto.Signer, sig func(w *world) *crypto.Signature, want func(w *world) bool) {
		add("Verify("+name+")", false, func(w *world, keep func([]byte)) ([]byte, []byte) {
			return boolB(s(w).Verify(w.msg, sig(w))), boolB(want(w))
		})
	}
	valid := func(w *world) *crypto.Signature { return w.sig }
	v0 := func(w *world) bool { return w.mver == 0 }
	never := func(w *world) bool { return false }
	verify("valid", func(w *world) *crypto.Signer { return w.signer[0] }, valid, v0)
	verify("valid, public key only", func(w *world) *crypto.Signer { return w.pubOnl }, valid, v0)
	verify("other key", func(w *world) *crypto.Signer { return w.signer[1] }, valid, never)
	verify("changed S", func(w *world) *crypto.Signer { return w.signer[0] }, func(w *world) *crypto.Signature { return w.sigBad }, never)
	verify("S+L", func(w *world) *crypto.Signer { return w.signer[0] }, func(w *world) *crypto.Signature { return w.sigS }, never)
	verify("nil", func(w *world) *crypto.Signer { return w.signer[0] }, func(w *world) *crypto.Signature { return nil }, never)
	add("Sign without private key", false, func(w *world, keep func([]byte)) ([]byte, []byte) {
		s, err := w.pubOnl.Sign(w.msg)
		return boolB(err != nil && s == nil), boolB(true)
	})
	add("MakeSignatureCanonical", false, func(w *world, keep func([]byte)) ([]byte, []byte) {
		s, err := w.signer[0].MakeSignatureCanonical(w.sigS)
		if err != nil {
			return []byte("error"), w.sig.S
		}
		return s.S, memoSign(w.key[0], msgVersions[0])[32:]
	})
	add("IsCanonicalSignature", false, func(w *world, keep func([]byte)) ([]byte, []byte) {
		return []byte{byte(b2i(w.signer[0].IsCanonicalSignature(w.sig))), byte(b2i(w.signer[1].IsCanonicalSignature(w.sigS)))}, []byte{1, 0}
	})
	for i := 0; i < 2; i++ {
		add(fmt.Sprintf("DerivePublicKey(%d)", i), false, func(w *world, keep func([]byte)) ([]byte, []byte) {
			p := w.gen.DerivePublicKey(w.kp[i].PrivateKey)
			got := append([]byte{}, p.Raw...)
			keep(p.Raw)
			spoil(p)
			return got, pubOf(w.key[i])
		})
	}
	add("GenerateKeyPair", false, func(w *world, keep func([]byte)) ([]byte, []byte) {
		pos := w.src.pos
		kp, err := w.gen.GenerateKeyPair()
		b, err := pairBytes(kp, err)
		if err == nil {
			keep(kp.PublicKey.Raw)
			keep(kp.PrivateKey.Raw)
			spoil(kp.PrivateKey, kp.PublicKey, kp)
		}
		r := tapeBytes[pos : pos+32]
		return resB(b, err), append(append([]byte{}, r...), memoPub(r)...)
	})
	ends := [3][2]int{{0, 1}, {1, 0}, {0, 2}}
	for i := range ends {
		add(fmt.Sprintf("Encrypt(%d->%d)", ends[i][0], ends[i][1]), true, func(w *world, keep func([]byte)) ([]byte, []byte) {
			pos := w.src.pos
			ct, err := w.ci[i].Encrypt(w.msg)
			got := append([]byte{}, resB(ct, err)...)
			keep(ct)
			r := tapeBytes[pos : pos+48]
			return got, ref.EncryptWith(sharedOf(w.key[ends[i][0]], pubOf(w.key[ends[i][1]]), r[:32]), r[:32], r[32:], m(w))
		})
	}
	salt, iv := pattern(32, 70), pattern(16, 71)
	plain := pattern(21, 72)
	for i := 0; i < 2; i++ {
		add(fmt.Sprintf("Decrypt(%d->%d)", ends[i][0], ends[i][1]), true, func(w *world, keep func([]byte)) ([]byte, []byte) {
			ct := ref.EncryptWith(sharedOf(w.key[ends[i][1]], pubOf(w.key[ends[i][0]]), salt), salt, iv, plain)
			out, err := w.ci[i].Decrypt(w.g.New(ct))
			got := append([]byte{}, resB(out, err)...)
			keep(out)
			return got, plain
		})
	}
	add("Decrypt(bad padding)", true, func(w *world, keep func([]byte)) ([]byte, []byte) {
		ct := ref.EncryptRaw(sharedOf(w.key[1], pubOf(w.key[0]), salt), salt, iv, rep(17, 32))
		out, err := w.ci[0].Decrypt(w.g.New(ct))
		return resB(out, err), []byte("error")
	})
	sh := []struct {
		name string
		seed func(w *world) *crypto.PrivateKey
		a, b int
		salt []byte
	}{
		{"0,1", func(w *world) *crypto.PrivateKey { return w.kp[0].PrivateKey }, 0, 1, salt},
		{"0,1, salt differing in the last bit", func(w *world) *crypto.PrivateKey { return w.kp[0].PrivateKey }, 0, 1, flip(salt, 255)},
		{"2,1", func(w *world) *crypto.PrivateKey { return w.kp[2].PrivateKey }, 2, 1, salt},
	}
	for _, x := range sh {
		add("GetSharedKey("+x.name+")", true, func(w *world, keep func([]byte)) ([]byte, []byte) {
			k, err := w.shared.GetSharedKey(x.seed(w), w.kp[x.b].PublicKey, w.g.New(x.salt))
			got := append([]byte{}, resB(k, err)...)
			keep(k)
			return got, sharedOf(w.key[x.a], pubOf(w.key[x.b]), x.salt)
		})
	}
	for _, h := range hashFns {
		add(h.name, false, func(w *world, keep func([]byte)) ([]byte, []byte) {
			b, err := h.f(w.msg)
			got := append([]byte{}, resB(b, err)...)
			keep(b)
			return got, h.want(m(w))
		})
	}
	add("HashesSha3_512(parts)", false, func(w *world, keep func([]byte)) ([]byte, []byte) {
		b, err := crypto.HashesSha3_512(w.msg[:20], nil, w.msg[20:])
		got := append([]byte{}, resB(b, err)...)
		keep(b)
		return got, ref.SHA3_512(m(w))
	})
	add("Signature.Bytes, String, integers", false, func(w *world, keep func([]byte)) ([]byte, []byte) {
		b := w.sig.Bytes()
		got := append([]byte{}, b...)
		keep(b)
		s := memoSign(w.key[0], msgVersions[0])
		got = append(got, w.sig.String()...)
		got = append(got, w.sig.GetR().String()+w.sig.GetS().String()...)
		return got, append(append([]byte{}, s...), fmt.Sprintf("%x", s)+ref.LE(s[:32]).String()+ref.LE(s[32:]).String()...)
	})
	add("keys: print and parse", false, func(w *world, keep func([]byte)) ([]byte, []byte) {
		st := w.kp[0].PrivateKey.String()
		k, err := crypto.NewPrivateKeyfromHexString(st)
		p, err2 := crypto.NewPublicKeyfromHex(w.kp[1].PublicKey.String())
		if err != nil || err2 != nil {
			return []byte("error"), nil
		}
		got := append(append([]byte{}, k.Raw...), p.Raw...)
		keep(k.Raw)
		keep(p.Raw)
		spoil(k, p)
		return got, append(append([]byte{}, w.key[0]...), pubOf(w.key[1])...)
	})
	add("refused keys", false, func(w *world, keep func([]byte)) ([]byte, []byte) {
		_, e1 := crypto.NewKeyPair(nil, crypto.NewPublicKey(pattern(31, 1)), nil)
		_, e2 := crypto.NewPublicKeyfromHex("zz")
		_, e3 := crypto.NewSignature(pattern(31, 1), pattern(32, 1))
		return boolB(e1 != nil && e2 != nil && e3 != nil), boolB(true)
	})
	for i := 0; i < 2; i++ {
		add(fmt.Sprintf("PrepareForScalarMultiply(%d)", i), false, func(w *world, keep func([]byte)) ([]byte, []byte) {
			e := crypto.PrepareForScalarMultiply(w.kp[i].PrivateKey)
			got := append([]byte{}, e.Raw...)
			keep(e.Raw)
			spoil(e)
			a, _ := ref.Clamped(ref.SHA3_512, w.key[i])
			return got, le32(a)
		})
	}
	add("field: Encode, IsNonZero, IsNegative, String", false, func(w *world, keep func([]byte)) ([]byte, []byte) {
		e := w.fe.Encode()
		got := append([]byte{}, e.Raw...)
		keep(e.Raw)
		got = append(got, byte(b2i(w.fe.IsNonZero())), byte(b2i(w.fe.IsNegative())))
		v := ref.FeFromInt(-77)
		return got, append(v.Bytes(), 1, byte(b2i(v.Odd())))
	})
	add("field: Decode", false, func(w *world, keep func([]byte)) ([]byte, []byte) {
		return fval(w.efe.Decode()).Bytes(), ref.FeFromBytes(pattern(32, 9)).Bytes()
	})
	add("field: zero slices", false, func(w *world, keep func([]byte)) ([]byte, []byte) {
		a, b := crypto.Ed25519FieldZeroShort(), crypto.Ed25519FieldZeroLong()
		got := append(append([]byte{}, a...), b...)
		keep(a)
		keep(b)
		return got, rep(0, 96)
	})
	add("group: Encode", false, func(w *world, keep func([]byte)) ([]byte, []byte) {
		e, err := w.p3.Encode()
		if err != nil {
			return []byte("error"), nil
		}
		got := append([]byte{}, e.Raw...)
		keep(e.Raw)
		return got, c11P.Encode()
	})
	add("group: Decode good and bad", false, func(w *world, keep func([]byte)) ([]byte, []byte) {
		g, err := w.enc.Decode()
		_, err2 := w.encBad.Decode()
		if err != nil || err2 == nil {
			return []byte("error"), nil
		}
		p, ok := gval(g)
		if !ok {
			return []byte("no point"), nil
		}
		return p.Encode(), c11P.Encode()
	})
	add("group: Equals, SatisfiesCurveEquation", false, func(w *world, keep func([]byte)) ([]byte, []byte) {
		return []byte{byte(b2i(w.p3.Equals(w.p3b))), byte(b2i(w.p3.SatisfiesCurveEquation())), byte(b2i(w.p3.Equals(crypto.Ed25519Group.BASE_POINT())))}, []byte{1, 1, 0}
	})
	add("group: neutral elements and base point", false, func(w *world, keep func([]byte)) ([]byte, []byte) {
		var got []byte
		for _, g := range []ge{crypto.Ed25519Group.ZERO_P2(), crypto.Ed25519Group.ZERO_P3(), crypto.Ed25519Group.ZERO_PRECOMPUTED(), crypto.Ed25519Group.BASE_POINT()} {
			p, ok := gval(g)
			if !ok {
				return []byte("no point"), nil
			}
			got = append(got, p.Encode()...)
		}
		return got, append(append(append(ref.Neutral.Encode(), ref.Neutral.Encode()...), ref.Neutral.Encode()...), ref.B.Encode()...)
	})
	add("group: precompute on a shared element", true, func(w *world, keep func([]byte)) ([]byte, []byte) {
		w.p3b.PrecomputeForScalarMultiplication()
		w.p3b.PrecomputeForDoubleScalarMultiplication()
		g, err := w.p3b.Select(0, -3)
		if err != nil {
			return []byte("error"), nil
		}
		p, ok := gval(g)
		if !ok {
			return []byte("no point"), nil
		}
		return p.Encode(), c11P.MulInt(-3).Encode()
	})
	add("MathUtils", false, func(w *world, keep func([]byte)) ([]byte, []byte) {
		b := crypto.MathUtils.ToByteArray(w.big)
		got := append([]byte{}, b...)
		keep(b)
		g, err := crypto.MathUtils.ToRepresentation(w.p3, crypto.PRECOMPUTED)
		if err != nil {
			return []byte("error"), nil
		}
		p, ok := gval(g)
		q, ok2 := gval(crypto.MathUtils.AddGroupElements(w.p3, w.p3))
		if !ok || !ok2 {
			return []byte("no point"), nil
		}
		return append(append(got, p.Encode()...), q.Encode()...), append(append(append(pattern(31, 4), 0), c11P.Encode()...), c11P.MulInt(2).Encode()...)
	})
	return ops
}

func memoPub(r []byte) []byte { return pubOf(r) }

func runC11(t *T, ops []c11op, seq []int, scrib bool, globals []interface{}) {
	w := newC11World(scrib)
	name := func(k int) string {
		s := ""
		for i, o := range seq[:k+1] {
			if i > 0 {
				s += "; "
			}
			s += ops[o].name
		}
		if scrib {
			s += " (returned slices overwritten by the caller)"
		}
		return s
	}
	t.Sample(func() string { return name(len(seq) - 1) })
	var hist []byte
	for k, o := range seq {
		got, want := ops[o].run(w, func(b []byte) {
			if b == nil {
				return
			}
			if scrib {
				full := b[:cap(b)]
				for i := range full {
					full[i] ^= 0x5b
				}
			}
			w.ret = append(w.ret, [2][]byte{b, append([]byte{}, b...)})
		})
		t.Ops(1)
		if !eq(got, want) {
			t.Failf("after %s: got %s, should be %s", name(k), hx(got), hx(want))
			return
		}
		hist = append(hist, byte(o))
		t.Outcome(got)
		t.State(hist, got, []byte{byte(b2i(scrib))})
	}
	for i, r := range w.ret {
		if !eq(r[0], r[1]) {
			t.Failf("%s: returned slice %d (%s) was changed later to %s", name(len(seq)-1), i, hx(r[1]), hx(r[0]))
			return
		}
	}
	if !w.g.Check(t, name(len(seq)-1)+": an argument") {
		return
	}
	if p, ok := gval(w.p3); !ok || !p.Equal(c11P) {
		t.Failf("%s: an element given as an argument was changed", name(len(seq)-1))
	}
	if p, ok := gval(w.p3b); !ok || !p.Equal(c11P) {
		t.Failf("%s: an element given as an argument was changed", name(len(seq)-1))
	}
	if fval(w.fe) != ref.FeFromInt(-77) || w.big.Cmp(ref.LE(pattern(31, 4))) != 0 {
		t.Failf("%s: a number given as an argument was changed", name(len(seq)-1))
	}
	if globals != nil {
		h := uint64(7)
		for _, g := range globals {
			h = deepHash(h, reflect.ValueOf(g), map[uintptr]bool{}, 0)
		}
		t.StateH(h)
	}
}

func checkC11(c *Ctx) {
	ops := c11ops()
	globals, _ := hook[[]interface{}]("globals")
	n := len(ops)
	var fast, core []int
	for i, o := range ops {
		if !o.slow {
			fast = append(fast, i)
		}
	}
	for i, o := range ops {
		switch o.name {
		case "Sign(key 0)", "Sign(key 1)", "Verify(valid)", "Verify(changed S)", "rewrite the message in place", "DerivePublicKey(0)", "GenerateKeyPair",
			"Encrypt(0->1)", "Encrypt(0->2)", "Decrypt(0->1)", "Decrypt(1->0)", "Decrypt(bad padding)", "GetSharedKey(0,1)", "GetSharedKey(2,1)", "HashesSha3_512":
			core = append(core, i)
		}
	}
	c.Section("pairs", fmt.Sprintf("every sequence of 2 out of %d operations on shared objects, with and without the caller overwriting returned slices", n), func(s *Sec) {
		for a := 0; a < n; a++ {
			for b := 0; b < n; b++ {
				for v := 0; v < 2; v++ {
					s.Case(func(t *T) { runC11(t, ops, []int{a, b}, v == 1, globals) })
				}
			}
		}
	})
	checkC11near(c)
	checkC11chg(c)
	c.Section("core-triples", fmt.Sprintf("every sequence of 3 out of %d central operations", len(core)), func(s *Sec) {
		for _, a := range core {
			for _, b := range core {
				for _, d := range core {
					s.Case(func(t *T) { runC11(t, ops, []int{a, b, d}, (a+b+d)%2 == 0, nil) })
				}
			}
		}
	})
	c.Section("fast-triples", fmt.Sprintf("every sequence of 3 out of %d operations without encryption", len(fast)), func(s *Sec) {
		for _, a := range fast {
			for _, b := range fast {
				for _, d := range fast {
					s.Case(func(t *T) { runC11(t, ops, []int{a, b, d}, (a+b+d)%2 == 1, nil) })
				}
			}
		}
	})
	c.Section("repetition", "every operation 300 times (slow ones 40), and every pair of operations alternating 8 times", func(s *Sec) {
		for a := 0; a < n; a++ {
			s.Case(func(t *T) {
				r := 300
				if ops[a].slow || ops[a].name == "GenerateKeyPair" {
					r = 40
				}
				seq := make([]int, r)
				for i := range seq {
					seq[i] = a
				}
				if ops[a].name == "Encrypt(0->1)" || ops[a].name == "Encrypt(1->0)" || ops[a].name == "Encrypt(0->2)" {
					seq = seq[:30]
				}
				runC11(t, ops, seq, false, globals)
			})
		}
		for a := 0; a < n; a++ {
			for b := 0; b < n; b++ {
				if !c.Thorough && (ops[a].slow || ops[b].slow) {
					continue
				}
				s.Case(func(t *T) {
					var seq []int
					for i := 0; i < 8; i++ {
						seq = append(seq, a, b)
					}
					runC11(t, ops, seq, false, nil)
				})
			}
		}
	})
	if c.Thorough {
		c.Section("triples", fmt.Sprintf("every sequence of 3 out of %d operations", n), func(s *Sec) {
			for a := 0; a < n; a++ {
				for b := 0; b < n; b++ {
					for d := 0; d < n; d++ {
						s.Case(func(t *T) { runC11(t, ops, []int{a, b, d}, (a+b+d)%2 == 0, nil) })
					}
				}
			}
		})
		c.Section("core-quadruples", fmt.Sprintf("every sequence of 4 out of %d central operations", len(core)), func(s *Sec) {
			for _, a := range core {
				for _, b := range core {
					for _, d := range core {
						for _, e := range core {
							s.Case(func(t *T) { runC11(t, ops, []int{a, b, d, e}, (a+b+d)%2 == 0, nil) })
						}
					}
				}
			}
		})
	}
}
