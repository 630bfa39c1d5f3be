package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"time"

	crypto "github.com/proximax-storage/go-xpx-crypto"
	"verifharness/prerand"
	"verifharness/ref"
	"verifharness/sched"
)

func init() {
	checks["C12"] = checkC12
	checks["C12R"] = checkC12Race
}

// c12tape is a random source that several goroutines may use. Under the
// controlled scheduler every thread has its own stream, so that what a thread
// must produce does not depend on the schedule.
type c12tape struct {
	mu  sync.Mutex
	pos [8]int
}

var c12streams = func() (r [8][]byte) {
	for i := range r {
		r[i] = pattern(4096, byte(150+i))
	}
	return
}()

func (r *c12tape) Read(p []byte) (int, error) {
	if sched.On() {
		th := sched.Current()
		sched.P(-100)
		n := copy(p, c12streams[th][r.pos[th]:])
		r.pos[th] += n
		sched.P(-101)
		if n == 0 {
			return 0, io.EOF
		}
		return n, nil
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	for i := range p { // an endless stream without repetition
		if r.pos[0]%32 == 0 {
			copy(c12free[:], ref.SHA3_256([]byte(fmt.Sprint("stream ", r.pos[0]))))
		}
		p[i] = c12free[r.pos[0]%32]
		r.pos[0]++
	}
	return len(p), nil
}

var c12free [32]byte

// c12world: the objects that the threads share.
type c12world struct {
	kp      [2]*crypto.KeyPair
	signer  [2]*crypto.Signer
	dsa     crypto.DsaSigner
	pubOnly *crypto.Signer
	ci      [2]crypto.BlockCipher // 0->1, 1->0
	shared  *crypto.Ed25519BlockCipher
	gen     crypto.KeyGenerator
	seedEng crypto.CryptoEngine
	src     *c12tape
	msg     [2][]byte
	sig     [2]*crypto.Signature // of message 0 by key 0, 1
	sigS    *crypto.Signature
	sigBad  *crypto.Signature
	cts     [2][]byte
	badCt   []byte
	salt    [2][]byte
	fe, feB *crypto.Ed25519FieldElement
	p3, p3b ge
	p2, pre ge
	enc     [2]*crypto.Ed25519EncodedGroupElement
	encBad  *crypto.Ed25519EncodedGroupElement
	efe     [2]*crypto.Ed25519EncodedFieldElement
	scalar  *big.Int
	unset   func()
}

var (
	c12key  = [2][]byte{seedKey(0), flip(seedKey(0), 9)}
	c12msg  = [2][]byte{pattern(50, 200), flip(pattern(50, 200), 203)}
	c12salt = [2][]byte{pattern(32, 70), flip(pattern(32, 70), 100)}
	c12iv   = pattern(16, 71)
	c12text = [2][]byte{pattern(21, 72), pattern(37, 73)}
	c12Q    = ref.BaseMul(bi(55)).Neg()
)

func newC12World() *c12world {
	w := &c12world{src: &c12tape{}}
	cp := func(b []byte) []byte { return append([]byte{}, b...) }
	for i := range w.kp {
		w.kp[i] = newKeyPair(cp(c12key[i]), pubOf(c12key[i]))
		w.signer[i] = crypto.NewSignerFromKeyPair(w.kp[i], nil)
		w.msg[i] = cp(c12msg[i])
		s := memoSign(c12key[i], c12msg[0])
		w.sig[i] = sigOf(cp(s[:32]), cp(s[32:]))
		w.salt[i] = cp(c12salt[i])
		w.cts[i] = ref.EncryptWith(sharedOf(c12key[0], pubOf(c12key[1]), c12salt[i]), c12salt[i], c12iv, c12text[i])
		w.efe[i], _ = crypto.NewEd25519EncodedFieldElement(pattern(32, byte(9+i)))
	}
	w.badCt = ref.EncryptRaw(sharedOf(c12key[0], pubOf(c12key[1]), c12salt[0]), c12salt[0], c12iv, rep(17, 32))
	s := memoSign(c12key[0], c12msg[0])
	w.sigS = sigOf(cp(s[:32]), le32(new(big.Int).Add(ref.LE(s[32:]), ref.L)))
	w.sigBad = sigOf(cp(s[:32]), flip(s[32:], 3))
	w.dsa = crypto.NewEd25519DsaSigner(w.kp[0])
	w.pubOnly = crypto.NewSignerFromKeyPair(newKeyPair(nil, pubOf(c12key[0])), nil)
	w.ci[0] = crypto.NewEd25519BlockCipher(w.kp[0], w.kp[1], w.src)
	w.ci[1] = crypto.NewEd25519BlockCipher(w.kp[1], w.kp[0], w.src)
	w.shared = crypto.NewEd25519BlockCipher(w.kp[0], w.kp[1], w.src)
	w.gen = crypto.NewEd25519KeyGenerator(w.src)
	w.fe, w.feB = feOf(ref.FeFromInt(-77)), feOf(ref.FeFromInt(123456789))
	z := ref.FeFromInt(3).Inv()
	w.p3 = element(c11P, crypto.P3, z, ref.One)
	w.p3b = element(c11P, crypto.P3, z.Sqr(), ref.One)
	w.p2 = element(c12Q, crypto.P2, z, ref.One)
	w.pre = element(c11P, crypto.P3, z.Sqr().Sqr(), ref.One)
	w.enc[0], _ = crypto.NewEd25519EncodedGroupElement(c11P.Encode())
	w.enc[1], _ = crypto.NewEd25519EncodedGroupElement(c12Q.Encode())
	w.encBad, _ = crypto.NewEd25519EncodedGroupElement(le32(bi(2)))
	w.scalar = ref.LE(pattern(31, 4))
	w.unset = prerand.Set(w.src)
	return w
}

type c12op struct {
	name  string
	slow  bool
	cold  bool // part of the cold-start exploration
	run   func(w *c12world) []byte
	check func(th int, got []byte) string
	// at checks what was made with these random bytes, of which draws were used
	at    func(stream, got []byte) string
	draws int
}

// fixed expects one result.
func fixed(want []byte) func(int, []byte) string {
	return func(_ int, got []byte) string {
		if !eq(got, want) {
			return fmt.Sprintf("got %s, alone it gives %s", hx(got), hx(want))
		}
		return ""
	}
}

// checkPair: what GenerateKeyPair gave, private then public key.
func checkPair(th int, got []byte) string {
	if th >= 0 {
		return checkPairAt(c12streams[th], got)
	}
	return checkPairAt(got, got)
}

func checkPairAt(stream, got []byte) string {
	if len(got) != 64 {
		return "no key pair"
	}
	if !eq(got[:32], stream[:32]) {
		return fmt.Sprintf("the private key %s is not what the source delivered to this call (%s)", hx(got[:32]), hx(stream[:32]))
	}
	if !eq(got[32:], ref.Public(ref.SHA3_512, got[:32])) {
		return "the public key does not belong to the private key " + hx(got)
	}
	return ""
}

func checkCtAt(a, b int, m []byte) func(r, got []byte) string {
	return func(r, got []byte) string {
		want := ref.EncryptWith(sharedOf(c12key[a], pubOf(c12key[b]), r[:32]), r[:32], r[32:48], m)
		if !eq(got, want) {
			return fmt.Sprintf("the ciphertext is %s, alone it is %s", hx(got), hx(want))
		}
		return ""
	}
}

func checkCt(a, b int, m []byte) func(int, []byte) string {
	return func(th int, got []byte) string {
		if th >= 0 {
			return checkCtAt(a, b, m)(c12streams[th], got)
		}
		if len(got) < 64 {
			return "no ciphertext"
		}
		out, ok := ref.DecryptWith(sharedOf(c12key[a], pubOf(c12key[b]), got[:32]), got)
		if !ok || !eq(out, m) {
			return fmt.Sprintf("the ciphertext %s does not decrypt to the message", hx(got))
		}
		return ""
	}
}

func c12ops() []c12op {
	var ops []c12op
	add := func(name string, flags string, run func(w *c12world) []byte, check func(int, []byte) string) {
		ops = append(ops, c12op{name: name, slow: strings.Contains(flags, "s"), cold: strings.Contains(flags, "c"), run: run, check: check})
	}
	drawing := func(n int, at func(stream, got []byte) string) {
		o := &ops[len(ops)-1]
		o.draws, o.at = n, at
	}
	sigB := func(s *crypto.Signature, err error) []byte {
		if err != nil || s == nil {
			return []byte("error")
		}
		return append(append([]byte{}, s.R...), s.S...)
	}
	cat := func(p ...[]byte) []byte { return bytes.Join(p, nil) }
	add("Sign(key 0, m0)", "c", func(w *c12world) []byte { return sigB(w.signer[0].Sign(w.msg[0])) }, fixed(memoSign(c12key[0], c12msg[0])))
	add("Sign(key 0, m1)", "c", func(w *c12world) []byte { return sigB(w.signer[0].Sign(w.msg[1])) }, fixed(memoSign(c12key[0], c12msg[1])))
	add("Sign(key 1, m0)", "", func(w *c12world) []byte { return sigB(w.signer[1].Sign(w.msg[0])) }, fixed(memoSign(c12key[1], c12msg[0])))
	add("Ed25519DsaSigner.Sign(m1)", "", func(w *c12world) []byte { return sigB(w.dsa.Sign(w.msg[1])) }, fixed(memoSign(c12key[0], c12msg[1])))
	add("Verify(key 0, valid)", "c", func(w *c12world) []byte { return boolB(w.signer[0].Verify(w.msg[0], w.sig[0])) }, fixed(boolB(true)))
	add("Verify(key 1, valid)", "c", func(w *c12world) []byte { return boolB(w.signer[1].Verify(w.msg[0], w.sig[1])) }, fixed(boolB(true)))
	add("Verify(other message)", "", func(w *c12world) []byte { return boolB(w.signer[0].Verify(w.msg[1], w.sig[0])) }, fixed(boolB(false)))
	add("Verify(public only, changed S)", "", func(w *c12world) []byte { return boolB(w.pubOnly.Verify(w.msg[0], w.sigBad)) }, fixed(boolB(false)))
	add("canonical signatures", "", func(w *c12world) []byte {
		r := []byte{byte(b2i(w.signer[0].IsCanonicalSignature(w.sig[0]))), byte(b2i(w.signer[0].IsCanonicalSignature(w.sigS)))}
		return append(r, sigB(w.signer[0].MakeSignatureCanonical(w.sigS))...)
	}, fixed(cat([]byte{1, 0}, memoSign(c12key[0], c12msg[0]))))
	for i := 0; i < 2; i++ {
		f := ""
		if i == 0 {
			f = "c"
		}
		add(fmt.Sprintf("DerivePublicKey(key %d)", i), f, func(w *c12world) []byte {
			return append([]byte{}, w.gen.DerivePublicKey(w.kp[i].PrivateKey).Raw...)
		}, fixed(pubOf(c12key[i])))
	}
	add("NewKeyPair(private key 1)", "", func(w *c12world) []byte {
		kp, err := crypto.NewKeyPair(w.kp[1].PrivateKey, nil, nil)
		b, err := pairBytes(kp, err)
		return resB(b, err)
	}, fixed(cat(c12key[1], pubOf(c12key[1]))))
	add("GenerateKeyPair", "c", func(w *c12world) []byte {
		kp, err := w.gen.GenerateKeyPair()
		b, err := pairBytes(kp, err)
		return resB(b, err)
	}, checkPair)
	drawing(32, checkPairAt)
	add("NewRandomKeyPair", "", func(w *c12world) []byte {
		kp, err := crypto.NewRandomKeyPair()
		b, err := pairBytes(kp, err)
		return resB(b, err)
	}, checkPair)
	drawing(32, checkPairAt)
	add("Encrypt(0->1, m0)", "sc", func(w *c12world) []byte { b, err := w.ci[0].Encrypt(w.msg[0]); return resB(b, err) }, checkCt(0, 1, c12msg[0]))
	drawing(48, checkCtAt(0, 1, c12msg[0]))
	add("Encrypt(0->1, m1)", "s", func(w *c12world) []byte { b, err := w.ci[0].Encrypt(w.msg[1][:33]); return resB(b, err) }, checkCt(0, 1, c12msg[1][:33]))
	drawing(48, checkCtAt(0, 1, c12msg[1][:33]))
	add("Encrypt(1->0, m0)", "s", func(w *c12world) []byte { b, err := w.ci[1].Encrypt(w.msg[0]); return resB(b, err) }, checkCt(1, 0, c12msg[0]))
	drawing(48, checkCtAt(1, 0, c12msg[0]))
	for i := 0; i < 2; i++ {
		f := "s"
		if i == 0 {
			f = "sc"
		}
		add(fmt.Sprintf("Decrypt(ciphertext %d)", i), f, func(w *c12world) []byte { b, err := w.ci[1].Decrypt(w.cts[i]); return resB(b, err) }, fixed(c12text[i]))
	}
	add("Decrypt(bad padding)", "s", func(w *c12world) []byte { b, err := w.ci[1].Decrypt(w.badCt); return resB(b, err) }, fixed([]byte("error")))
	for i := 0; i < 2; i++ {
		add(fmt.Sprintf("GetSharedKey(salt %d)", i), "s", func(w *c12world) []byte {
			b, err := w.shared.GetSharedKey(w.kp[0].PrivateKey, w.kp[1].PublicKey, w.salt[i])
			return resB(b, err)
		}, fixed(sharedOf(c12key[0], pubOf(c12key[1]), c12salt[i])))
	}
	for i := 0; i < 2; i++ {
		f := ""
		if i == 0 {
			f = "c"
		}
		var want []byte
		for _, h := range hashFns {
			want = append(want, h.want(c12msg[i])...)
		}
		want = append(want, ref.SHA3_512(c12msg[i])...)
		add(fmt.Sprintf("hashes(m%d)", i), f, func(w *c12world) []byte {
			var r []byte
			for _, h := range hashFns {
				b, err := h.f(w.msg[i])
				r = append(r, resB(b, err)...)
			}
			b, err := crypto.HashesSha3_512(w.msg[i][:7], nil, w.msg[i][7:])
			return append(r, resB(b, err)...)
		}, fixed(want))
	}
	for i := 0; i < 2; i++ {
		s := memoSign(c12key[i], c12msg[0])
		want := cat(c12key[i], pubOf(c12key[i]), s, s, []byte(fmt.Sprintf("%x", s)), []byte(ref.LE(s[32:]).String()))
		add(fmt.Sprintf("print and parse %d", i), "", func(w *c12world) []byte {
			k, err := crypto.NewPrivateKeyfromHexString(w.kp[i].PrivateKey.String())
			p, err2 := crypto.NewPublicKeyfromHex(w.kp[i].PublicKey.String())
			g, err3 := crypto.NewSignatureFromBytes(w.sig[i].Bytes())
			if err != nil || err2 != nil || err3 != nil {
				return []byte("error")
			}
			return cat(k.Raw, p.Raw, g.Bytes(), w.sig[i].Bytes(), []byte(w.sig[i].String()), []byte(w.sig[i].GetS().String()))
		}, fixed(want))
	}
	v := ref.FeFromInt(-77)
	add("field elements", "", func(w *c12world) []byte {
		e := w.fe.Encode()
		r := append([]byte{}, e.Raw...)
		r = append(r, byte(b2i(w.fe.IsNonZero())), byte(b2i(w.fe.IsNegative())), byte(b2i(w.fe.Equals(w.feB))))
		r = append(r, fval(w.efe[0].Decode()).Bytes()...)
		r = append(r, crypto.Ed25519FieldZeroShort()...)
		q := crypto.Ed25519FieldElementSqrt(*w.fe, *w.feB)
		s := fval(&q)
		return append(r, byte(b2i(s.Sqr().Mul(ref.FeFromInt(123456789)) == v || s.Sqr().Mul(ref.FeFromInt(123456789)) == v.Neg() || !s.IsZero())))
	}, fixed(cat(v.Bytes(), []byte{1, byte(b2i(v.Odd())), 0}, ref.FeFromBytes(pattern(32, 9)).Bytes(), rep(0, 32), []byte{1})))
	add("field elements, others", "", func(w *c12world) []byte {
		e := w.feB.Encode()
		return cat(e.Raw, fval(w.efe[1].Decode()).Bytes(), []byte{byte(b2i(w.feB.Equals(w.feB)))})
	}, fixed(cat(ref.FeFromInt(123456789).Bytes(), ref.FeFromBytes(pattern(32, 10)).Bytes(), []byte{1})))
	pt := func(g ge, err error) []byte {
		if err != nil {
			return []byte("error")
		}
		p, ok := gval(g)
		if !ok {
			return []byte("no point")
		}
		return p.Encode()
	}
	for i := 0; i < 2; i++ {
		P, Q := c11P, c12Q
		want := cat(P.Encode(), Q.Encode(), Q.Encode(), []byte{1, 1, 0})
		if i == 0 {
			want = cat(P.Encode(), Q.Encode(), P.Encode(), []byte{1, 1, 0})
		}
		f := ""
		if i == 0 {
			f = "c"
		}
		add(fmt.Sprintf("group elements %d", i), f, func(w *c12world) []byte {
			e, err := w.p3.Encode()
			e2, err2 := w.p2.Encode()
			if err != nil || err2 != nil {
				return []byte("error")
			}
			_, err = w.encBad.Decode()
			return cat(e.Raw, e2.Raw, pt(w.enc[i].Decode()), []byte{byte(b2i(w.p3.Equals(w.p3b))), byte(b2i(err != nil && w.p3b.SatisfiesCurveEquation())), byte(b2i(w.p3.Equals(w.p2)))})
		}, fixed(want))
	}
	add("neutral elements and base point", "", func(w *c12world) []byte {
		return cat(pt(crypto.Ed25519Group.ZERO_P2(), nil), pt(crypto.Ed25519Group.ZERO_P3(), nil), pt(crypto.Ed25519Group.ZERO_PRECOMPUTED(), nil), pt(crypto.Ed25519Group.BASE_POINT(), nil))
	}, fixed(cat(ref.Neutral.Encode(), ref.Neutral.Encode(), ref.Neutral.Encode(), ref.B.Encode())))
	add("Select from the base point's table", "", func(w *c12world) []byte {
		g := crypto.Ed25519Group.BASE_POINT()
		return cat(pt(g.Select(3, -5)), pt(g.Select(31, 8)))
	}, fixed(cat(ref.B.Mul(new(big.Int).Lsh(bi(1), 24)).MulInt(-5).Encode(), ref.B.Mul(new(big.Int).Lsh(bi(1), 248)).MulInt(8).Encode())))
	add("MathUtils", "", func(w *c12world) []byte {
		return cat(crypto.MathUtils.ToByteArray(w.scalar), pt(crypto.MathUtils.ToRepresentation(w.p3, crypto.PRECOMPUTED)), pt(crypto.MathUtils.AddGroupElements(w.p3, w.p3b), nil))
	}, fixed(cat(pattern(31, 4), []byte{0}, c11P.Encode(), c11P.MulInt(2).Encode())))
	if f, ok := hook[func(a, b ge) ge]("group.add"); ok {
		add("add shared elements", "", func(w *c12world) []byte {
			c, ok := hook[func(a ge) ge]("group.toCached")
			if !ok {
				return nil
			}
			return pt(f(w.p3, c(w.p3b)), nil)
		}, func(th int, got []byte) string {
			if got == nil {
				return ""
			}
			return fixed(c11P.MulInt(2).Encode())(th, got)
		})
	}
	return ops
}

// unchanged checks that the shared objects still hold what they held.
func (w *c12world) unchanged() string {
	for i := range w.kp {
		if !eq(w.kp[i].PrivateKey.Raw, c12key[i]) || !eq(w.kp[i].PublicKey.Raw, pubOf(c12key[i])) || !eq(w.msg[i], c12msg[i]) || !eq(w.salt[i], c12salt[i]) {
			return "a shared key, message or salt was changed"
		}
		s := memoSign(c12key[i], c12msg[0])
		if !eq(w.sig[i].R, s[:32]) || !eq(w.sig[i].S, s[32:]) {
			return "a shared signature was changed"
		}
	}
	for _, x := range []struct {
		g ge
		p ref.Point
	}{{w.p3, c11P}, {w.p3b, c11P}, {w.p2, c12Q}} {
		if p, ok := gval(x.g); !ok || !p.Equal(x.p) {
			return "a shared group element was changed"
		}
	}
	if fval(w.fe) != ref.FeFromInt(-77) || fval(w.feB) != ref.FeFromInt(123456789) {
		return "a shared field element was changed"
	}
	return ""
}

// runSchedule runs the operations as threads under a plan.
func runSchedule(ops []c12op, sel []int, plan []sched.Switch, rec bool) (w *c12world, got [][]byte, problem string) {
	w = newC12World()
	defer w.unset()
	got = make([][]byte, len(sel))
	var fs []func()
	for th, o := range sel {
		fs = append(fs, func() { got[th] = ops[o].run(w) })
	}
	problem = sched.Run(plan, rec, fs...)
	return
}

func judge(ops []c12op, sel []int, w *c12world, got [][]byte, problem string) string {
	if problem != "" {
		return problem
	}
	for th, o := range sel {
		if s := ops[o].check(th, got[th]); s != "" {
			return fmt.Sprintf("thread %d, %s: %s", th, ops[o].name, s)
		}
	}
	if w != nil {
		return w.unchanged()
	}
	return ""
}

// positions picks the points of a run at which to preempt: the first k and the
// last occurrence of every program point.
func positions(trace []int32, k int, alsoLast bool) []int {
	last := map[int32]int{}
	for i, id := range trace {
		last[id] = i
	}
	cnt := map[int32]int{}
	var r []int
	for i, id := range trace {
		cnt[id]++
		if cnt[id] <= k || alsoLast && last[id] == i {
			r = append(r, i)
		}
	}
	return r
}

type c12explorer struct {
	c      *Ctx
	ops    []c12op
	traces [][]int32
	points map[int32]bool
}

func (x *c12explorer) trace(o int) []int32 {
	if x.traces[o] == nil {
		for i := 0; i < 2; i++ { // the second run is the warm one
			_, got, problem := runSchedule(x.ops, []int{o}, nil, true)
			_ = got
			_ = problem
		}
		x.traces[o] = append([]int32{}, sched.Trace...)
		if x.traces[o] == nil {
			x.traces[o] = []int32{}
		}
	}
	return x.traces[o]
}

func planStr(ops []c12op, sel []int, plan []sched.Switch) string {
	s := ""
	for th, o := range sel {
		s += fmt.Sprintf("thread %d: %s; ", th, ops[o].name)
	}
	for _, p := range plan {
		if p.Thread == sched.Gather {
			return s + fmt.Sprintf("all stop when they first come to point %d; when all have come, wait or have ended, the one that came %s goes on", p.N, []string{"first", "last"}[p.Next])
		}
		s += fmt.Sprintf("at point %d of thread %d switch to thread %d; ", p.N, p.Thread, p.Next)
	}
	return s
}

func (x *c12explorer) one(t *T, sel []int, plan []sched.Switch) {
	t.Sample(func() string { return planStr(x.ops, sel, plan) })
	w, got, problem := runSchedule(x.ops, sel, plan, false)
	t.Ops(len(sel))
	if s := judge(x.ops, sel, w, got, problem); s != "" {
		t.Failf("%s: %s", planStr(x.ops, sel, plan), s)
	}
	var b []byte
	for _, o := range sel {
		b = append(b, byte(o))
	}
	for _, p := range plan {
		id := int32(-1 << 20)
		if p.Thread == sched.Gather {
			id = int32(p.N)
		} else if tr := x.trace(sel[p.Thread]); p.N < len(tr) {
			id = tr[p.N]
		}
		b = append(b, byte(p.Thread), byte(p.Next), byte(p.N), byte(p.N>>8), byte(p.N>>16), byte(id), byte(id>>8))
	}
	t.State(b, bytes.Join(got, nil))
	t.Outcome(got[0])
}

func checkC12(c *Ctx) {
	ops := c12ops()
	x := &c12explorer{c: c, ops: ops, traces: make([][]int32, len(ops))}
	n := len(ops)
	kFast, kSlow := 2, 1
	if c.Thorough {
		kFast, kSlow = 12, 4
	}
	c.Section("alone", "every operation alone under the scheduler", func(s *Sec) {
		for a := 0; a < n; a++ {
			s.Case(func(t *T) {
				x.one(t, []int{a}, nil)
				x.one(t, []int{a}, nil)
			})
		}
	})
	if len(c.res.Violations) > 0 {
		return
	}
	if c.shard == 0 && c.onlyIdx < 0 {
		ids := map[int32]bool{}
		max := 0
		for a := 0; a < n; a++ {
			for _, id := range x.trace(a) {
				ids[id] = true
			}
			if len(x.trace(a)) > max {
				max = len(x.trace(a))
			}
		}
		c.Note("%d operations pass %d different program points; the longest passes %d", n, len(ids), max)
	}
	for a := 0; a < n; a++ { // every shard has to know whether the code starts goroutines
		x.trace(a)
	}
	modes := []bool{false}
	if sched.Spawned {
		modes = []bool{false, true}
		c.Note("the code starts goroutines: every section runs twice, goroutines running at once and goroutines running when their parent waits")
	}
	for _, eager := range modes {
		sched.Eager = eager
		y, mode := x, ""
		if eager {
			y, mode = &c12explorer{c: c, ops: ops, traces: make([][]int32, n)}, ", goroutines first"
		}
		y.sections(mode, kFast, kSlow)
	}
	sched.Eager = false
}

func (x *c12explorer) sections(mode string, kFast, kSlow int) {
	c, ops, n := x.c, x.ops, len(x.ops)
	if sched.Spawned {
		c.Section("goroutines"+mode, "every operation that starts goroutines, alone: at every point another thread that can run goes on (the first three of them)", func(s *Sec) {
			for a := 0; a < n; a++ {
				for _, i := range positions(x.trace(a), kFast, true) {
					for k := 1; k <= 3; k++ {
						s.Case(func(t *T) { x.one(t, []int{a}, []sched.Switch{{Thread: 0, N: i, Next: -k}}) })
					}
				}
			}
		})
	}
	cold := func() {
		k := 1
		if c.Thorough {
			k = 3
		}
		var co []int
		for i, o := range ops {
			if o.cold {
				co = append(co, i)
			}
		}
		c.Section("cold start"+mode, fmt.Sprintf("in a fresh process, %d operations as the first ones: every ordered pair, the first preempted at the first %d and the last occurrence of every point", len(co), k), func(s *Sec) {
			for _, a := range co {
				var pos []int
				have := false
				for _, b := range co {
					if !have {
						pos, have = positions(coldTrace(a), k, true), true
					}
					for _, i := range pos {
						s.Case(func(t *T) { coldCase(t, ops, a, b, i) })
					}
				}
			}
		})
	}
	one := func(name, which string, k int, last bool, want func(a, b int) bool) {
		at := fmt.Sprintf("the first %d occurrences of every program point", k)
		if last {
			at += " and the last one"
		}
		c.Section(name+mode, "every ordered pair of "+which+" on shared objects: the first is preempted at a point, the second runs, the first goes on; at "+at, func(s *Sec) {
			for a := 0; a < n; a++ {
				for b := 0; b < n; b++ {
					if !want(a, b) {
						continue
					}
					for _, i := range positions(x.trace(a), k, last) {
						s.Case(func(t *T) { x.one(t, []int{a, b}, []sched.Switch{{Thread: 0, N: i, Next: 1}}) })
					}
				}
			}
		})
	}
	main := func(a int) bool { return c.Thorough || ops[a].slow || ops[a].cold }
	one("one preemption, encryption", "operations of which one is encryption, decryption or key agreement and the other any (quick: the main ones)", kSlow, c.Thorough, func(a, b int) bool {
		return (ops[a].slow || ops[b].slow) && main(a) && main(b)
	})
	one("one preemption", "operations without encryption", kFast, true, func(a, b int) bool { return !ops[a].slow && !ops[b].slow })
	nearInFlight(c, mode)
	x.crowds(mode, main)
	if mode == "" {
		cold()
	}
	if c.Thorough {
		c.Section("two preemptions"+mode, "every ordered pair of the operations without encryption: the first is preempted at the first occurrence of a point, then the second at the first occurrence of a point, the first ends, the second ends", func(s *Sec) {
			for a := 0; a < n; a++ {
				for b := 0; b < n; b++ {
					if ops[a].slow || ops[b].slow {
						continue
					}
					pb := positions(x.trace(b), 1, false)
					for _, i := range positions(x.trace(a), 1, false) {
						for _, j := range pb {
							s.Case(func(t *T) {
								x.one(t, []int{a, b}, []sched.Switch{{Thread: 0, N: i, Next: 1}, {Thread: 1, N: j, Next: 0}})
							})
						}
					}
				}
			}
		})
	}
}

// nearInFlight: two calls of one operation under way with arguments that are
// nearly the same.
func nearInFlight(c *Ctx, mode string) {
	var ops []nearOp
	for _, o := range append(nearOps(0), lowOps(0)...) {
		skip := len(o.base) > 200
		for _, p := range []string{"Encrypt,", "MathUtils.Scalar", "base point times", "scalar multiplication, point"} {
			skip = skip || strings.HasPrefix(o.name, p) && !(c.Thorough && p != "Encrypt,") // those of Encrypt share their source
		}
		if !skip {
			ops = append(ops, o)
		}
	}
	c.Section("near arguments"+mode, fmt.Sprintf("%d operations x 4 pairs of arguments that are nearly the same (one bit at either end, one byte in the middle, halves exchanged), on one object: the first call is preempted at the first occurrence of every point, the second runs, the first goes on", len(ops)), func(s *Sec) {
		for _, o := range ops {
			var pos []int
			have := false
			mid := append([]byte{}, o.base...)
			mid[len(mid)/2]++
			half := append(append([]byte{}, o.base[len(o.base)/2:]...), o.base[:len(o.base)/2]...)
			for _, y := range [][]byte{flip(o.base, 8*len(o.base)-1), flip(o.base, 0), mid, half} {
				run := func(plan []sched.Switch, rec bool, xs ...[]byte) (got, want [2][]byte, problem string, g *Guards) {
					g = &Guards{}
					f := o.mk(g)
					var fs []func()
					for i, x := range xs {
						fs = append(fs, func() { got[i], want[i] = f(append([]byte{}, x...)) })
					}
					problem = sched.Run(plan, rec, fs...)
					return
				}
				if !have {
					run(nil, true, o.base)
					run(nil, true, o.base)
					pos, have = positions(sched.Trace, 1, false), true
				}
				for _, i := range pos {
					s.Case(func(t *T) {
						ref.Memo = true
						defer func() { ref.Memo = false }()
						got, want, problem, g := run([]sched.Switch{{Thread: 0, N: i, Next: 1}}, false, o.base, y)
						t.Ops(2)
						what := func() string {
							return fmt.Sprintf("%s with x=%s, preempted at point %d by the same with %s", o.name, hx(o.base), i, hx(y))
						}
						t.Sample(what)
						if problem != "" {
							t.Failf("%s: %s", what(), problem)
							return
						}
						for k := range got {
							if !eq(got[k], want[k]) {
								t.Failf("%s: call %d gives %s, should be %s", what(), k+1, hx(got[k]), hx(want[k]))
								return
							}
						}
						g.Check(t, what()+": an argument")
						t.State([]byte("near "+o.name), y, []byte{byte(i), byte(i >> 8)})
						t.Outcome(got[0])
					})
				}
			}
		}
	})
}

// sibling is another operation of the same kind (the operation itself if there
// is none): the same code with other arguments.
func sibling(ops []c12op, a int) int {
	kind := func(i int) string {
		n := ops[i].name
		if j := strings.IndexAny(n, "(,"); j >= 0 {
			n = n[:j]
		}
		return strings.TrimRight(n, " 01")
	}
	for d := 1; d < len(ops); d++ {
		if b := (a + d) % len(ops); kind(b) == kind(a) && ops[a].slow == ops[b].slow {
			return b
		}
	}
	return a
}

// crowds: more than two calls at a time. Scratch space that is handed out in
// turn is shared only when as many calls are under way as there are places.
func (x *c12explorer) crowds(mode string, main func(a int) bool) {
	c, ops, n := x.c, x.ops, len(x.ops)
	first := func(a int) map[int32]int {
		m := map[int32]int{}
		for i, id := range x.trace(a) {
			if _, ok := m[id]; !ok {
				m[id] = i
			}
		}
		return m
	}
	threads := func(a, k int) []int {
		b := sibling(ops, a)
		sel := make([]int, k)
		for i := range sel {
			sel[i] = a
			if i%2 == 1 {
				sel[i] = b
			}
		}
		return sel
	}
	c.Section("in flight"+mode, "every operation: eight calls (alternating with another operation of its kind, where there is one), every one preempted at the first occurrence of the same program point, then ending in the order of their beginning and in nearly the opposite one (three calls with encryption)", func(s *Sec) {
		for a := 0; a < n; a++ {
			if ops[a].slow && !main(a) {
				continue
			}
			k := 8
			if ops[a].slow && !c.Thorough {
				k = 3
			}
			sel := threads(a, k)
			fa, fb := first(a), first(sel[1])
			for _, i := range positions(x.trace(a), 1, false) {
				id := x.trace(a)[i]
				j, ok := fb[id]
				if !ok {
					continue
				}
				for order := 0; order < 2; order++ {
					if order == 1 && ops[a].slow && !c.Thorough {
						continue
					}
					s.Case(func(t *T) {
						var plan []sched.Switch
						th := func(m int) int { // the thread that is started as number m
							if m > 0 && order == 1 {
								return k - m
							}
							return m
						}
						for m := 0; m+1 < k; m++ {
							at := fa[id]
							if sel[th(m)] != a {
								at = j
							}
							plan = append(plan, sched.Switch{Thread: th(m), N: at, Next: th(m + 1)})
						}
						x.one(t, sel, plan)
					})
				}
			}
		}
	})
	c.Section("gathered"+mode, "every operation: eight calls (alternating with another operation of its kind, where there is one); each stops at the first occurrence of the same program point, those that wait for something come there when they can, then the one that came first goes on (thorough: also the last); for operations with encryption at the points that they pass up to 16 times", func(s *Sec) {
		for a := 0; a < n; a++ {
			if ops[a].slow && !main(a) {
				continue
			}
			sel := threads(a, 8)
			passed := map[int32]int{}
			for _, id := range x.trace(a) {
				passed[id]++
			}
			for _, i := range positions(x.trace(a), 1, false) {
				id := x.trace(a)[i]
				if ops[a].slow && passed[id] > 16 && !c.Thorough {
					continue
				}
				for last := 0; last < 1+b2i(c.Thorough || !ops[a].slow && passed[id] <= 16); last++ {
					s.Case(func(t *T) { x.one(t, sel, []sched.Switch{{Thread: sched.Gather, N: int(id), Next: last}}) })
				}
			}
		}
	})
	c.Section("one among many"+mode, "the main operations: one is preempted at the first occurrence of a point, another of its kind runs 40 times (17 with encryption), the first goes on", func(s *Sec) {
		for a := 0; a < n; a++ {
			if !ops[a].cold && !c.Thorough {
				continue
			}
			b := sibling(ops, a)
			m := 40
			if ops[a].slow {
				m = 17
			}
			many := ops[b]
			many.name = fmt.Sprintf("%d times %s", m, ops[b].name)
			many.run = func(w *c12world) []byte {
				var r []byte
				for i := 0; i < m; i++ {
					g := ops[b].run(w)
					if ops[b].at != nil {
						r = append(r, g...)
						continue
					}
					if i > 0 && !eq(g, r) {
						return g
					}
					r = g
				}
				return r
			}
			if at := ops[b].at; at != nil {
				many.check = func(th int, got []byte) string {
					l, d := len(got)/m, ops[b].draws
					for i := 0; i < m; i++ {
						if s := at(c12streams[th][i*d:], got[i*l:i*l+l]); s != "" {
							return fmt.Sprintf("call %d: %s", i+1, s)
						}
					}
					return ""
				}
			}
			y := &c12explorer{c: c, ops: append(append([]c12op{}, ops...), many), traces: append(append([][]int32{}, x.traces...), []int32{})}
			for _, i := range positions(x.trace(a), 1, false) {
				s.Case(func(t *T) { y.one(t, []int{a, n}, []sched.Switch{{Thread: 0, N: i, Next: 1}}) })
			}
		}
	})
}

// Cold start: the schedule runs in a process of its own.

// c12child runs "a,b,i" (or "a" alone, printing the trace) and exits.
func c12child(spec string) {
	f := strings.Split(spec, ",")
	num := func(i int) int { v, _ := strconv.Atoi(f[i]); return v }
	ops := c12ops()
	if len(f) == 1 {
		runSchedule(ops, []int{num(0)}, nil, true)
		var sb strings.Builder
		for _, id := range sched.Trace {
			fmt.Fprintf(&sb, "%d ", id)
		}
		fmt.Fprintln(realStdout, sb.String())
		os.Exit(0)
	}
	sel := []int{num(0), num(1)}
	w, got, problem := runSchedule(ops, sel, []sched.Switch{{Thread: 0, N: num(2), Next: 1}}, false)
	s := judge(ops, sel, w, got, problem)
	fmt.Fprintf(realStdout, "%s %s\n", hex.EncodeToString(bytes.Join(got, nil)), hex.EncodeToString([]byte(s)))
	os.Exit(0)
}

func runChild(spec string) (string, error) { return runChildEnv("VERIF_C12_CHILD", spec) }

func runChildEnv(name, spec string) (string, error) {
	self, err := os.Executable()
	if err != nil {
		return "", err
	}
	cmd := exec.Command(self)
	cmd.Env = append(os.Environ(), name+"="+spec, "GOMAXPROCS=1")
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	tm := time.AfterFunc(100*time.Second, func() { cmd.Process.Kill() })
	err = cmd.Wait()
	if !tm.Stop() {
		return "", fmt.Errorf("the process did not end within 100 s")
	}
	if err != nil {
		e := se.String()
		if len(e) > 2000 {
			e = e[:2000]
		}
		return "", fmt.Errorf("%v %s", err, e)
	}
	return so.String(), nil
}

func coldTrace(a int) []int32 {
	out, err := runChild(fmt.Sprint(a))
	if err != nil {
		return []int32{0}
	}
	var r []int32
	for _, f := range strings.Fields(out) {
		v, _ := strconv.Atoi(f)
		r = append(r, int32(v))
	}
	return r
}

func coldCase(t *T, ops []c12op, a, b, i int) {
	d := planStr(ops, []int{a, b}, []sched.Switch{{Thread: 0, N: i, Next: 1}})
	t.Sample(func() string { return "fresh process: " + d })
	out, err := runChild(fmt.Sprintf("%d,%d,%d", a, b, i))
	t.Ops(2)
	if err != nil {
		t.Failf("fresh process: %s: %v", d, err)
		return
	}
	f := strings.Split(strings.TrimSuffix(out, "\n"), " ")
	if len(f) != 2 {
		t.Failf("fresh process: %s: unexpected output %q", d, out)
		return
	}
	if s, _ := hex.DecodeString(f[1]); len(s) > 0 {
		t.Failf("fresh process: %s: %s", d, s)
	}
	t.State([]byte{byte(a), byte(b), byte(i), byte(i >> 8), byte(i >> 16)}, []byte(f[0]))
	t.Outcome([]byte(f[0]))
}

// The same operations free-running, in a binary built with the race detector.

func runFree(ops []c12op, sel []int, rounds int) string {
	w := newC12World()
	defer w.unset()
	got := make([][][]byte, len(sel))
	problems := make([]string, len(sel))
	var wg sync.WaitGroup
	start := make(chan struct{})
	for th, o := range sel {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					problems[th] = fmt.Sprint("panic: ", e)
				}
			}()
			<-start
			for r := 0; r < rounds; r++ {
				got[th] = append(got[th], ops[o].run(w))
			}
		}()
	}
	close(start)
	wg.Wait()
	secrets := map[string]bool{}
	for th, o := range sel {
		if problems[th] != "" {
			return ops[o].name + ": " + problems[th]
		}
		for _, g := range got[th] {
			if s := ops[o].check(-1, g); s != "" {
				return ops[o].name + ": " + s
			}
			if strings.HasPrefix(ops[o].name, "Encrypt") || strings.Contains(ops[o].name, "Generate") || strings.Contains(ops[o].name, "Random") {
				if secrets[string(g[:32])] {
					return ops[o].name + ": random bytes were used twice"
				}
				secrets[string(g[:32])] = true
			}
		}
	}
	return w.unchanged()
}

// c12freeChild starts "a,b" from cold.
func c12freeChild(spec string) {
	f := strings.Split(spec, ",")
	num := func(i int) int { v, _ := strconv.Atoi(f[i]); return v }
	s := runFree(c12ops(), []int{num(1), num(2), num(1), num(2)}, 1)
	fmt.Fprintln(realStdout, s)
	os.Exit(0)
}

func checkC12Race(c *Ctx) {
	ops := c12ops()
	n := len(ops)
	k := 1
	if c.Thorough {
		k = 6
	}
	c.Section("free-running, cold", "in a fresh process with the race detector, every pair of operations started at once, two goroutines each", func(s *Sec) {
		for a := 0; a < n; a++ {
			for b := a; b < n; b++ {
				if !c.Thorough && a != b && !(ops[a].cold && ops[b].cold) {
					continue
				}
				s.Case(func(t *T) {
					self, _ := os.Executable()
					cmd := exec.Command(self)
					cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_C12_CHILD=free,%d,%d", a, b), "GOMAXPROCS=4")
					var so, se bytes.Buffer
					cmd.Stdout, cmd.Stderr = &so, &se
					if err := cmd.Start(); err != nil {
						panic(err)
					}
					tm := time.AfterFunc(100*time.Second, func() { cmd.Process.Kill() })
					err := cmd.Wait()
					tm.Stop()
					t.Ops(4)
					e := se.String()
					if i := strings.Index(e, "WARNING: DATA RACE"); i >= 0 {
						if len(e) > i+2500 {
							e = e[:i+2500]
						}
						t.Failf("%s and %s at the same time, first thing in a process: %s", ops[a].name, ops[b].name, e[i:])
					} else if err != nil {
						if len(e) > 2000 {
							e = e[:2000]
						}
						t.Failf("%s and %s at the same time, first thing in a process: %v %s", ops[a].name, ops[b].name, err, e)
					} else if s := strings.TrimSpace(so.String()); s != "" {
						t.Failf("%s and %s at the same time, first thing in a process: %s", ops[a].name, ops[b].name, s)
					}
					t.State([]byte{byte(a), byte(b)}, []byte(so.String()))
				})
			}
		}
	})
	c.Section("free-running", "every pair of operations, four goroutines each, with the race detector", func(s *Sec) {
		for a := 0; a < n; a++ {
			for b := a; b < n; b++ {
				s.Case(func(t *T) {
					t.Sample(func() string { return ops[a].name + " and " + ops[b].name })
					r := k
					if !ops[a].slow && !ops[b].slow {
						r = 3 * k
					}
					if m := runFree(ops, []int{a, b, a, b, a, b, a, b}, r); m != "" {
						t.Failf("%s and %s in four goroutines each: %s", ops[a].name, ops[b].name, m)
					}
					t.Ops(8 * r)
					t.State([]byte{byte(a), byte(b)})
				})
			}
		}
	})
}
