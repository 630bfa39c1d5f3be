package main

import (
	"errors"
	"fmt"
	"io"
	"os"
	"strconv"
	"strings"

	crypto "github.com/proximax-storage/go-xpx-crypto"
	"verifharness/prerand"
	"verifharness/ref"
)

func init() { checks["C10"] = checkC10 }

// The random source of C10 is an adversary: at every Read call it picks one of
// the answers below. The exploration enumerates all choice sequences with at
// most k answers that are not "everything asked for".
type answer int

const (
	full answer = iota
	oneByte
	half
	allButOne
	nothing    // 0, nil
	fail       // 0, error
	eof        // 0, io.EOF
	oneFail    // 1, error
	mostFail   // n-1, error
	mostEOF    // n-1, io.EOF
	fullEOF    // n, io.EOF
	fullFail   // n, error
	halfUnexp  // n/2, io.ErrUnexpectedEOF
	numAnswers // count
)

var answerNames = [...]string{"full", "1 byte", "half", "all but one", "nothing", "error", "EOF", "1 byte+error", "all but one+error", "all but one+EOF", "full+EOF", "full+error", "half+ErrUnexpectedEOF"}

var errSource = errors.New("random source failed")

type deviation struct {
	call int // index of the Read call, over the whole sequence
	a    answer
	k    int // with a == partial sizes: number of bytes (0: by kind)
}

func (d deviation) String() string {
	if d.k > 0 {
		return fmt.Sprintf("call %d: %d bytes, %s", d.call, d.k, answerNames[d.a])
	}
	return fmt.Sprintf("call %d: %s", d.call, answerNames[d.a])
}

// adversary serves a stream whose byte i is stream(i), following the plan.
type adversary struct {
	stream []byte
	pos    int
	calls  int
	plan   []deviation
	// what happened since mark(): delivered bytes and the number of bytes delivered when a failure was reported first (-1: none)
	start  int
	failAt int
}

func (r *adversary) mark() { r.start, r.failAt = r.pos, -1 }

func (r *adversary) Read(p []byte) (int, error) {
	i := r.calls
	r.calls++
	if i > 4000 {
		panic("more than 4000 reads of the random source")
	}
	a, k := full, 0
	for _, d := range r.plan {
		if d.call == i {
			a, k = d.a, d.k
		}
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := len(p)
	var err error
	switch a {
	case oneByte:
		n = 1
	case half:
		n = (n + 1) / 2
	case allButOne:
		n--
	case nothing:
		n = 0
	case fail:
		n, err = 0, errSource
	case eof:
		n, err = 0, io.EOF
	case oneFail:
		n, err = 1, errSource
	case mostFail:
		n, err = n-1, errSource
	case mostEOF:
		n, err = n-1, io.EOF
	case fullEOF:
		err = io.EOF
	case fullFail:
		err = errSource
	case halfUnexp:
		n, err = n/2, io.ErrUnexpectedEOF
	}
	if k > 0 && k <= len(p) {
		n = k
	}
	if r.pos+n > len(r.stream) {
		panic("the random source was read far too often")
	}
	copy(p[:n], r.stream[r.pos:])
	for j := n; j < len(p); j++ {
		p[j] = 0xEE // a reader may use all of p as scratch space
	}
	r.pos += n
	if err != nil && r.failAt < 0 {
		r.failAt = r.pos - r.start
	}
	return n, err
}

type rop struct {
	name string
	need int
	// run returns the produced bytes (nil: nothing) and the error
	run func(w *rworld) ([]byte, error)
	// want computes the product from the random bytes
	want func(r []byte) []byte
}

type rworld struct {
	eng  crypto.CryptoEngine
	gen  crypto.KeyGenerator
	c1   crypto.BlockCipher
	c2   crypto.BlockCipher
	last *crypto.KeyPair
}

func newWorld(src io.Reader, byEngine bool) *rworld {
	a, b := seedKey(0), seedKey(1)
	ka, kb := newKeyPair(a, pubOf(a)), newKeyPair(b, pubOf(b))
	w := &rworld{eng: engineWith(src)}
	if byEngine {
		w.gen, w.c1, w.c2 = w.eng.CreateKeyGenerator(), w.eng.CreateBlockCipher(ka, kb), w.eng.CreateBlockCipher(kb, ka)
	} else {
		w.gen, w.c1, w.c2 = crypto.NewEd25519KeyGenerator(src), crypto.NewEd25519BlockCipher(ka, kb, src), crypto.NewEd25519BlockCipher(kb, ka, src)
	}
	return w
}

func pairBytes(kp *crypto.KeyPair, err error) ([]byte, error) {
	if kp == nil {
		return nil, err
	}
	var b []byte
	if kp.PrivateKey != nil {
		b = append(b, kp.PrivateKey.Raw...)
	}
	if kp.PublicKey != nil {
		b = append(b, kp.PublicKey.Raw...)
	}
	return b, err
}

var m10a, m10b = pattern(20, 3), pattern(16, 4)

var rops = []rop{
	{"GenerateKeyPair", 32, func(w *rworld) ([]byte, error) { return pairBytes(w.gen.GenerateKeyPair()) },
		func(r []byte) []byte { return append(append([]byte{}, r...), pubOf(r)...) }},
	{"Encrypt", 48, func(w *rworld) ([]byte, error) { return w.c1.Encrypt(m10a) },
		func(r []byte) []byte {
			return ref.EncryptWith(sharedOf(seedKey(0), pubOf(seedKey(1)), r[:32]), r[:32], r[32:], m10a)
		}},
	{"NewKeyPairByEngine", 32, func(w *rworld) ([]byte, error) { return pairBytes(crypto.NewKeyPairByEngine(w.eng)) },
		func(r []byte) []byte { return append(append([]byte{}, r...), pubOf(r)...) }},
	{"Encrypt (other cipher)", 48, func(w *rworld) ([]byte, error) { return w.c2.Encrypt(m10b) },
		func(r []byte) []byte {
			return ref.EncryptWith(sharedOf(seedKey(1), pubOf(seedKey(0)), r[:32]), r[:32], r[32:], m10b)
		}},
}

// runOps runs the operations on one source under the plan and judges each by
// what the source delivered while it ran. It returns the number of read calls.
func runOps(t *T, ops []int, plan []deviation, byEngine bool) (calls int, good bool) {
	return runStream(t, ops, plan, byEngine, pattern(48*len(ops)*8+400, byte(len(ops))), "")
}

func runStream(t *T, ops []int, plan []deviation, byEngine bool, stream []byte, what string) (calls int, good bool) {
	src := &adversary{stream: stream, plan: plan}
	w := newWorld(src, byEngine)
	var products [][2][]byte
	st := [][]byte{}
	id := func(i int) string {
		s := ""
		for j, o := range ops {
			m := ""
			if j == i {
				m = "*"
			}
			s += " " + m + rops[o].name
		}
		return fmt.Sprintf("operations%s, source: %v%s", s, plan, what)
	}
	for i, o := range ops {
		op := rops[o]
		src.mark()
		out, err := op.run(w)
		t.Ops(1)
		got := src.pos - src.start
		st = append(st, []byte(op.name), out, le32(bi(int64(got))), []byte(errStr(err)))
		if err != nil {
			if len(out) != 0 {
				t.Failf("%s: a product was returned together with the error %v", id(i), err)
				return src.calls, false
			}
			if src.failAt < 0 {
				t.Failf("%s: the operation failed (%v) although the source never failed", id(i), err)
				return src.calls, false
			}
			continue
		}
		if src.failAt >= 0 && src.failAt < op.need {
			// Succeeding is only possible if the failure came together with the last
			// byte of one complete read (the salt): those bytes were delivered.
			if !(op.need == 48 && src.failAt == 32) {
				t.Failf("%s: the operation succeeded although the source failed after %d bytes", id(i), src.failAt)
				return src.calls, false
			}
		}
		if got != op.need {
			t.Failf("%s: the operation drew %d bytes, needs %d", id(i), got, op.need)
			return src.calls, false
		}
		want := op.want(src.stream[src.start:src.pos])
		if !eq(out, want) {
			t.Failf("%s: the result is %s, with the bytes drawn (%x) it should be %s", id(i), hx(out), src.stream[src.start:src.pos], hx(want))
			return src.calls, false
		}
		products = append(products, [2][]byte{out, want})
	}
	for _, p := range products {
		if !eq(p[0], p[1]) {
			t.Failf("%s: an earlier result was changed by a later operation", id(-1))
			return src.calls, false
		}
	}
	t.State(st...)
	for _, x := range st {
		t.Outcome(x)
	}
	return src.calls, true
}

// explore enumerates all plans with at most depth deviations: a plan is
// extended behind its last deviation, within the read calls that its own run made.
func explore(s *Sec, ops []int, plan []deviation, depth int, byEngine bool, callsOf func(plan []deviation) int) {
	p := append([]deviation{}, plan...)
	s.Case(func(t *T) {
		t.Sample(func() string { return fmt.Sprintf("operations %v plan %v", ops, p) })
		runOps(t, ops, p, byEngine)
	})
	if depth == 0 || !s.More() {
		return
	}
	first := 0
	if len(plan) > 0 {
		first = plan[len(plan)-1].call + 1
	}
	n := callsOf(plan)
	for call := first; call < n; call++ {
		for a := full + 1; a < numAnswers; a++ {
			explore(s, ops, append(plan[:len(plan):len(plan)], deviation{call: call, a: a}), depth-1, byEngine, callsOf)
		}
	}
}

// callCount runs the operations once, outside of any case, to learn how many
// reads a plan leads to. Crypto results are not needed for that, only the calls.
func callCount(ops []int, byEngine bool) func(plan []deviation) int {
	return func(plan []deviation) (n int) {
		src := &adversary{stream: pattern(48*len(ops)*8+400, byte(len(ops))), plan: plan}
		defer func() {
			if recover() != nil {
				n = src.calls
			}
		}()
		w := newWorld(src, byEngine)
		for _, o := range ops {
			rops[o].run(w)
		}
		return src.calls
	}
}

func checkC10(c *Ctx) {
	c.Section("partial-reads", "each operation x each read call x each possible number of bytes, with no error, an error, EOF", func(s *Sec) {
		for o, op := range rops {
			for call := 0; call < 3; call++ {
				for k := 1; k <= op.need; k++ {
					for _, a := range []answer{full, fail, eof} {
						s.Case(func(t *T) { runOps(t, []int{o, o}, []deviation{{call, a, k}}, call%2 == 0) })
					}
				}
			}
		}
	})

	c.Section("byte-wise", "sources that always deliver 1, 2, 3, 5, 7, 16, 31, 32, 33 bytes, all 2-operation sequences", func(s *Sec) {
		for _, k := range []int{1, 2, 3, 5, 7, 15, 16, 17, 31, 32, 33, 47, 48, 49} {
			for code := 0; code < 16; code++ {
				s.Case(func(t *T) {
					var plan []deviation
					for i := 0; i < 200; i++ {
						plan = append(plan, deviation{i, full, k})
					}
					runOps(t, []int{code % 4, code / 4}, plan, code%2 == 0)
				})
			}
		}
	})

	c.Section("contents", "all sequences of 2 operations on sources that deliver special bytes: each byte value over and over, blocks repeated with periods 1..48, zero or one bits at the start or end of each part, bytes that occurred before, keys that are in use, extreme scalars", func(s *Sec) {
		for _, st := range specialStreams() {
			for code := 0; code < 16; code++ {
				s.Case(func(t *T) {
					runStream(t, []int{code % 4, code / 4}, nil, code%2 == 0, st.b, ", delivering "+st.name)
				})
			}
		}
	})

	len1, len2, len3 := 3, 2, 1
	if c.Thorough {
		len1, len2, len3 = 4, 3, 2
	}
	c.Section("one-operation", fmt.Sprintf("every operation, every plan of up to %d deviating answers (12 kinds) at every read", len1), func(s *Sec) {
		for o := range rops[:2] {
			explore(s, []int{o}, nil, len1, false, memoCalls([]int{o}, false))
		}
	})
	c.Section("two-operations", fmt.Sprintf("every sequence of 2 out of 4 operations on one source, every plan of up to %d deviating answers", len2), func(s *Sec) {
		for code := 0; code < 16; code++ {
			ops := []int{code % 4, code / 4}
			explore(s, ops, nil, len2, code%3 == 0, memoCalls(ops, code%3 == 0))
		}
	})
	c.Section("three-operations", fmt.Sprintf("every sequence of 3 out of 4 operations on one source, every plan of up to %d deviating answers", len3), func(s *Sec) {
		for code := 0; code < 64; code++ {
			ops := []int{code % 4, code / 4 % 4, code / 16}
			explore(s, ops, nil, len3, code%3 == 0, memoCalls(ops, code%3 == 0))
		}
	})

	c10kinds(c)
	c10reentrant(c)

	c.Section("long-runs", "60 operations on one source, 8 mixes: no byte used twice, none left out", func(s *Sec) {
		for v := 0; v < 8; v++ {
			s.Case(func(t *T) {
				n := 60
				ops := make([]int, n)
				for i := range ops {
					ops[i] = (i*(v+1) + i/7) % 4
				}
				runOps(t, ops, nil, v%2 == 0)
			})
		}
	})

	c.Section("system-source", "operations without explicit source: the next bytes of the operating system's source, with short reads at every call (no errors)", func(s *Sec) {
		dops := defaultOps()
		for i := range dops {
			for j := range dops {
				for call := -1; call < 4; call++ {
					for _, ans := range []answer{oneByte, half, allButOne, nothing} {
						if call < 0 && ans != oneByte {
							continue
						}
						s.Case(func(t *T) {
							src := &adversary{stream: pattern(400, byte(i*5+j)), plan: []deviation{{call: call, a: ans}}}
							defer prerand.Set(src)()
							for _, o := range []int{i, j} {
								op := dops[o]
								src.mark()
								out, err := op.run()
								t.Ops(1)
								r := src.stream[src.start:src.pos]
								if err != nil {
									t.Failf("%s: error %v although the source did not fail (%v)", op.name, err, src.plan)
									return
								}
								if len(r) != op.need || !eq(out, op.want(r)) {
									t.Failf("%s after %s: drew %d bytes, result %s does not belong to them (%v)", op.name, dops[i].name, len(r), hx(out), src.plan)
									return
								}
								t.State([]byte(op.name), out, []byte{byte(call), byte(ans)})
							}
						})
					}
				}
			}
		}
	})

	c.Section("system-source-fails", "operations without explicit source in a process of its own: the operating system's source fails at each of the first three calls, in 5 ways; then the operation is repeated", func(s *Sec) {
		for i := range defaultOps() {
			for call := 0; call < 3; call++ {
				for _, ans := range []answer{fail, eof, oneFail, mostFail, halfUnexp} {
					s.Case(func(t *T) {
						out, err := runChildEnv("VERIF_C10_CHILD", fmt.Sprintf("%d,%d,%d", i, call, ans))
						t.Ops(1)
						if err != nil {
							// the standard library may end the process
							if !strings.Contains(err.Error(), "crypto/rand: failed to read random data") {
								t.Failf("%s, the system's source: call %d: %s: the process failed: %v", defaultOps()[i].name, call, answerNames[ans], err)
							}
							t.State([]byte("ended"), []byte{byte(i), byte(call), byte(ans)})
							return
						}
						out = strings.TrimSpace(out)
						if strings.HasPrefix(out, "BAD ") {
							t.Failf("%s, the system's source: call %d: %s: %s", defaultOps()[i].name, call, answerNames[ans], out[4:])
							return
						}
						t.State([]byte(out), []byte{byte(i), byte(call), byte(ans)})
						t.Outcome([]byte(out))
					})
				}
			}
		}
	})
}

type dop struct {
	name string
	need int
	run  func() ([]byte, error)
	want func(r []byte) []byte
}

// defaultOps: operations that are given no random source.
func defaultOps() []dop {
	a, b := seedKey(0), seedKey(1)
	ka, kb := newKeyPair(a, pubOf(a)), newKeyPair(b, pubOf(b))
	pair, ct := rops[0].want, rops[1].want
	return []dop{
		{"NewRandomKeyPair", 32, func() ([]byte, error) { return pairBytes(crypto.NewRandomKeyPair()) }, pair},
		{"NewKeyPairByEngine(Ed25519Engine)", 32, func() ([]byte, error) {
			return pairBytes(crypto.NewKeyPairByEngine(crypto.CryptoEngines.Ed25519Engine))
		}, pair},
		{"NewEd25519KeyGenerator(nil)", 32, func() ([]byte, error) { return pairBytes(crypto.NewEd25519KeyGenerator(nil).GenerateKeyPair()) }, pair},
		{"NewBlockCipher(nil)", 48, func() ([]byte, error) { return crypto.NewBlockCipher(ka, kb, nil).Encrypt(m10a) }, ct},
		{"NewEd25519BlockCipher(nil)", 48, func() ([]byte, error) { return crypto.NewEd25519BlockCipher(ka, kb, nil).Encrypt(m10a) }, ct},
	}
}

// c10child runs one operation twice on a failing system source.
func c10child(spec string) {
	f := strings.Split(spec, ",")
	num := func(i int) int { v, _ := strconv.Atoi(f[i]); return v }
	op := defaultOps()[num(0)]
	src := &adversary{stream: pattern(1000, byte(num(0))), plan: []deviation{{call: num(1), a: answer(num(2))}}}
	defer prerand.Set(src)()
	res := ""
	for k := 0; k < 2; k++ {
		src.mark()
		out, err := op.run()
		r := src.stream[src.start:src.pos]
		bad := func(what string, x ...interface{}) {
			fmt.Fprintf(realStdout, "BAD operation %d: %s\n", k+1, fmt.Sprintf(what, x...))
			os.Exit(0)
		}
		if err != nil {
			if len(out) != 0 {
				bad("a product together with the error %v", err)
			}
			if src.failAt < 0 {
				bad("error %v although the source did not fail", err)
			}
			res += "error "
			continue
		}
		if src.failAt >= 0 && src.failAt < op.need && !(op.need == 48 && src.failAt == 32) {
			bad("success although the source failed after %d bytes", src.failAt)
		}
		if len(r) != op.need || !eq(out, op.want(r)) {
			bad("drew %d bytes, result %s does not belong to them", len(r), hx(out))
		}
		res += fmt.Sprintf("%x ", out)
	}
	fmt.Fprintln(realStdout, res)
	os.Exit(0)
}

// memoCalls remembers the number of reads per plan shape of one exploration.
func memoCalls(ops []int, byEngine bool) func(plan []deviation) int {
	memo := map[string]int{}
	f := callCount(ops, byEngine)
	return func(plan []deviation) int {
		k := fmt.Sprint(plan)
		n, ok := memo[k]
		if !ok {
			n = f(plan)
			memo[k] = n
		}
		return n
	}
}

type namedStream struct {
	name string
	b    []byte
}

// specialStreams: what a random source delivers with negligible probability,
// and what code might therefore take for a mistake of the source.
func specialStreams() []namedStream {
	const n = 500
	base := pattern(n, 77)
	var r []namedStream
	add := func(name string, b []byte) {
		for len(b) < n {
			b = append(b, base[len(b)])
		}
		r = append(r, namedStream{name, b})
	}
	cyc := func(b []byte) []byte {
		var x []byte
		for len(x) < n {
			x = append(x, b...)
		}
		return x
	}
	for v := 0; v < 256; v++ {
		add(fmt.Sprintf("%02x over and over", v), rep(byte(v), n))
	}
	for p := 2; p <= 48; p++ {
		add(fmt.Sprintf("%d bytes over and over", p), cyc(base[:p]))
	}
	for _, v := range []byte{0, 255} {
		for _, k := range []int{1, 2, 4, 8, 15, 16, 17, 24, 31, 32, 33, 40, 47, 48} {
			for _, period := range []int{32, 48} {
				head, tail := append([]byte{}, base...), append([]byte{}, base...)
				for i := range head {
					if i%period < k {
						head[i] = v
					}
					if period-1-i%period < k {
						tail[i] = v
					}
				}
				add(fmt.Sprintf("%d bytes %02x at the start of every %d", k, v, period), head)
				add(fmt.Sprintf("%d bytes %02x at the end of every %d", k, v, period), tail)
				// the IV only
				iv := append([]byte{}, base...)
				for i := range iv {
					if i%48 >= 32 && i%48-32 < k {
						iv[i] = v
					}
				}
				add(fmt.Sprintf("IVs that begin with %d bytes %02x", k, v), iv)
			}
		}
	}
	a, b := seedKey(0), seedKey(1)
	for _, x := range []namedStream{{"the sender's private key", a}, {"the recipient's private key", b}, {"the sender's public key", pubOf(a)}, {"the recipient's public key", pubOf(b)},
		{"the shared point's encoding", sharedPoint(a, pubOf(b))}, {"L", le32(ref.L)}, {"p", le32(ref.P)}, {"one", append([]byte{1}, make([]byte, 31)...)}} {
		add(x.name+", then others", append([]byte{}, x.b...))
		add("others, then "+x.name, append(append([]byte{}, base[:32]...), x.b...))
		add(x.name+" over and over", cyc(x.b))
		add(x.name+" and its reverse", cyc(append(append([]byte{}, x.b...), backwards(x.b)...)))
	}
	// counting
	up := make([]byte, n)
	down := make([]byte, n)
	for i := range up {
		up[i], down[i] = byte(i), byte(255-i)
	}
	add("00 01 02 ...", up)
	add("ff fe fd ...", down)
	// printable text
	add("text", cyc([]byte("0123456789abcdef")))
	return r
}

func sharedPoint(priv, pub []byte) []byte {
	a, _ := ref.Clamped(ref.SHA3_512, priv)
	p, _ := ref.Decode(pub)
	return p.Mul(a).Encode()
}

func backwards(b []byte) []byte {
	r := make([]byte, len(b))
	for i, v := range b {
		r[len(b)-1-i] = v
	}
	return r
}
