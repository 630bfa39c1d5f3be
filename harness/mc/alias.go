package main

import (
	"fmt"
	"math/big"

	crypto "github.com/proximax-storage/go-xpx-crypto"
	"verifharness/ref"
)

// Arguments that share memory: an operation that is given the same array, or
// overlapping parts of one, in two places must not notice, and must leave it
// as it is.

type aliasOp struct {
	props string // the properties that say what the operation returns
	name  string
	size  int // bytes of the array
	n     int // number of ways to lay the arguments into it
	// f runs the operation on parts of mem; the results must agree
	f func(mem []byte, way int) (got, want []byte)
}

// the array of the running case with 64 bytes before and behind it, and its content
var aliasMem, aliasWas []byte

func laidOut() { aliasWas = append(aliasWas[:0], aliasMem...) }

// lay: start offsets of the k arguments of 32 bytes in way i (k digits over
// {0, 1, 16, 31, 32}).
func lay(i, k int) (r []int) {
	offs := []int{0, 1, 16, 31, 32}
	for ; k > 0; k-- {
		r = append(r, offs[i%5])
		i /= 5
	}
	return
}

func aliasOps() []aliasOp {
	cp := func(b []byte) []byte { return append([]byte{}, b...) }
	sigR := func(s *crypto.Signature, err error) []byte {
		if err != nil {
			return []byte("error")
		}
		return append(cp(s.R), s.S...)
	}
	orErr := func(b []byte) []byte {
		if b == nil {
			return []byte("error")
		}
		return b
	}
	other := pubOf(seedKey(1))
	ops := []aliasOp{
		{"C01", "Sign, private key, public key and message in one array", 64, 375, func(mem []byte, way int) ([]byte, []byte) {
			o := lay(way, 3)
			end := o[2] + []int{0, 32, 32}[way/125]
			if way/125 == 2 {
				end = len(mem)
			}
			k, p, m := mem[o[0]:o[0]+32], mem[o[1]:o[1]+32], mem[o[2]:end]
			want := ref.Sign(ref.SHA3_512, cp(k), cp(p), cp(m))
			s := crypto.NewSignerFromKeyPair(newKeyPair(k, p), nil)
			return sigR(s.Sign(m)), want
		}},
		{"C02", "Verify, public key, R, S and message in one array", 64, 625, func(mem []byte, way int) ([]byte, []byte) {
			o := lay(way, 4)
			p, R, S, m := mem[o[0]:o[0]+32], mem[o[1]:o[1]+32], mem[o[2]:o[2]+32], mem[o[3]:]
			want := boolB(ref.Verify(ref.SHA3_512, cp(p), cp(m), cp(R), cp(S)))
			return boolB(crypto.NewSignerFromKeyPair(newKeyPair(nil, p), nil).Verify(m, sigOf(R, S))), want
		}},
		{"C02", "Verify, a valid signature whose parts, key and message lie in one array", 160, 24 * 6, func(mem []byte, way int) ([]byte, []byte) {
			// the parts in each of the 24 orders, 0..5 bytes apart (spare capacity runs into the next)
			gap, perm := way/24, way%24
			seed := seedKey(2)
			m := pattern(20, 3)
			sg := ref.Sign(ref.SHA3_512, seed, pubOf(seed), m)
			parts := [][]byte{pubOf(seed), sg[:32], sg[32:], m}
			var at [4][]byte
			pos, left := 0, []int{0, 1, 2, 3}
			for k := 4; k > 0; k-- {
				i := perm % k
				perm /= k
				j := left[i]
				left = append(append([]int{}, left[:i]...), left[i+1:]...)
				at[j] = mem[pos : pos+len(parts[j])]
				copy(at[j], parts[j])
				pos += len(parts[j]) + gap
			}
			laidOut()
			return boolB(crypto.NewSignerFromKeyPair(newKeyPair(nil, at[0]), nil).Verify(at[3], sigOf(at[1], at[2]))), boolB(true)
		}},
		{"C03", "MakeSignatureCanonical and IsCanonicalSignature, R and S in one array", 64, 25, func(mem []byte, way int) ([]byte, []byte) {
			o := lay(way, 2)
			R, S := mem[o[0]:o[0]+32], mem[o[1]:o[1]+32]
			n := ref.LE(S)
			want := append(append(cp(R), le32(n.Mod(n, ref.L))...), boolB(ref.Canonical(cp(S)))...)
			s := crypto.NewSignerFromKeyPair(newKeyPair(nil, other), nil)
			sg := sigOf(R, S)
			got := sigR(s.MakeSignatureCanonical(sg))
			return append(got, boolB(s.IsCanonicalSignature(sg))...), want
		}},
		{"C04", "NewKeyPair, private and public key in one array", 64, 25, func(mem []byte, way int) ([]byte, []byte) {
			o := lay(way, 2)
			k, p := mem[o[0]:o[0]+32], mem[o[1]:o[1]+32]
			want := append(append(append(cp(k), pubOf(cp(k))...), k...), p...)
			kp, err := crypto.NewKeyPair(crypto.NewPrivateKey(k), nil, nil)
			a, err := pairBytes(kp, err)
			if err != nil {
				return []byte("error"), want
			}
			kp, err = crypto.NewKeyPair(crypto.NewPrivateKey(k), crypto.NewPublicKey(p), nil)
			b, err := pairBytes(kp, err)
			return append(cp(a), resB(b, err)...), want
		}},
		{"C09", "GetSharedKey, private key, public key and salt in one array", 64, 125, func(mem []byte, way int) ([]byte, []byte) {
			o := lay(way, 3)
			k, p, salt := mem[o[0]:o[0]+32], mem[o[1]:o[1]+32], mem[o[2]:o[2]+32]
			want := cp(orErr(sharedOf(cp(k), cp(p), cp(salt))))
			c := crypto.NewEd25519BlockCipher(newKeyPair(nil, other), newKeyPair(nil, other), &tape{})
			return resB(c.GetSharedKey(crypto.NewPrivateKey(k), crypto.NewPublicKey(p), salt)), want
		}},
		{"C07", "Encrypt, keys, message and random bytes in one array", 96, 125 * 3, func(mem []byte, way int) ([]byte, []byte) {
			o := lay(way, 3)
			k, p, m, r := mem[o[0]:o[0]+32], mem[o[1]:o[1]+32], mem[o[2]:o[2]+30], mem[way/125*16:way/125*16+48]
			want := []byte("error")
			if sk := sharedOf(cp(k), cp(p), cp(r[:32])); sk != nil {
				want = ref.EncryptWith(sk, cp(r[:32]), cp(r[32:]), cp(m))
			}
			c := crypto.NewEd25519BlockCipher(newKeyPair(k, p), newKeyPair(nil, p), &tape{b: r})
			return resB(c.Encrypt(m)), cp(want)
		}},
		{"C08 C07", "Decrypt, keys inside the array of the input", 160, 100, func(mem []byte, way int) ([]byte, []byte) {
			// the salt is the private key (ways 0-24), the sender's public key (25-49), both keys behind the input (50-74) or in front (75-99)
			in := mem[40 : 40+96]
			k, p := seedKey(way%25), pubOf(seedKey(30+way%25))
			m := pattern(way%25+16, byte(way))
			at := [][2][]byte{{in[:32], mem[:32]}, {mem[:32], in[:32]}, {mem[128:], mem[:32]}, {mem[:32], mem[8:40]}}[way/25]
			salt := pattern(32, 9)
			switch way / 25 {
			case 0:
				salt = cp(k)
			case 1:
				salt = cp(p)
			}
			var full []byte
			switch way / 25 {
			case 2: // the private key is the last 8 bytes of the input and 24 behind it
				full = ref.EncryptWith(sharedOf(k, p, salt), salt, pattern(16, 1), m)
				copy(mem[:32], p)
				copy(in, full)
				k = cp(at[0])
				laidOut()
				w, ok := ref.DecryptWith(sharedOf(k, p, salt), in[:len(full)])
				got, err := crypto.NewEd25519BlockCipher(newKeyPair(nil, at[1]), newKeyPair(at[0], other), &tape{}).Decrypt(in[:len(full)])
				if !ok {
					return boolB(err == nil), boolB(false)
				}
				return resB(got, err), w
			case 3: // the keys overlap
				copy(mem[:32], k)
				copy(mem[8:40], p)
				k, p = cp(at[0]), cp(at[1])
			}
			sk := sharedOf(k, p, salt)
			if sk == nil {
				return nil, nil
			}
			full = ref.EncryptWith(sk, salt, pattern(16, 1), m)
			copy(in, full)
			copy(at[0], k)
			copy(at[1], p)
			laidOut()
			got, err := crypto.NewEd25519BlockCipher(newKeyPair(nil, at[1]), newKeyPair(at[0], other), &tape{}).Decrypt(in[:len(full)])
			return resB(got, err), m
		}},
		{"C18", "SHA3-512 of three parts of one array that repeat and overlap", 64, 125 * 3, func(mem []byte, way int) ([]byte, []byte) {
			o := lay(way, 3)
			a, b, c := mem[o[0]:o[0]+32], mem[o[1]:o[1]+32], mem[o[2]:o[2]+10*(way/125)]
			want := ref.SHA3_512(cp(a), cp(b), cp(c))
			return resB(crypto.HashesSha3_512(a, b, c)), want
		}},
		{"C20", "BytesToBigInteger and back of overlapping parts", 64, 25, func(mem []byte, way int) ([]byte, []byte) {
			o := lay(way, 2)
			a, b := mem[o[0]:o[0]+32], mem[o[1]:o[1]+32]
			want := append(cp(a), b...)
			x, y := crypto.MathUtils.BytesToBigInteger(a), crypto.MathUtils.BytesToBigInteger(b)
			return append(cp(crypto.MathUtils.ToByteArray(x)), crypto.MathUtils.ToByteArray(y)...), want
		}},
		{"C20", "the same element given twice", 64, 16, func(mem []byte, way int) ([]byte, []byte) {
			g := element(pts(1)[way].p, crypto.P3, ref.One, ref.One)
			p := pts(1)[way].p
			return ptOrErr(gval(crypto.MathUtils.AddGroupElements(g, g))), p.Dbl().Encode()
		}},
		{"C13", "an element compared with itself", 64, 24, func(mem []byte, way int) ([]byte, []byte) {
			g := element(pts(1)[way].p, []crypto.CoordinateSystem{crypto.P2, crypto.P3, crypto.CACHED}[way%3], ref.FeFromInt(7), ref.FeFromInt(7))
			return boolB(g.Equals(g)), boolB(true)
		}},
		{"C06", "signatures whose parts overlap", 64, 25, func(mem []byte, way int) ([]byte, []byte) {
			o := lay(way, 2)
			R, S := mem[o[0]:o[0]+32], mem[o[1]:o[1]+32]
			want := []byte(fmt.Sprintf("%x%x %x%x %x %x", R, S, R, S, R, S))
			s, err := crypto.NewSignature(R, S)
			if err != nil {
				return []byte("error"), want
			}
			return []byte(fmt.Sprintf("%x %s %x %x", s.Bytes(), s.String(), le32(s.GetR()), le32(s.GetS()))), want
		}},
	}
	if mulAdd, ok := hook[func(a, b, c []byte) []byte]("efe.mulAdd"); ok {
		ops = append(ops, aliasOp{"C16", "a*b+c of overlapping parts", 64, 125, func(mem []byte, way int) ([]byte, []byte) {
			o := lay(way, 3)
			a, b, c := mem[o[0]:o[0]+32], mem[o[1]:o[1]+32], mem[o[2]:o[2]+32]
			n := new(big.Int).Mul(ref.LE(a), ref.LE(b))
			n.Add(n, ref.LE(c))
			want := le32(n.Mod(n, ref.L))
			return mulAdd(a, b, c), want
		}})
	}
	return ops
}

func aliasSection(c *Ctx, id string) {
	var ops []aliasOp
	for _, o := range aliasOps() {
		if id == "C11" || o.props == id || len(o.props) > 3 && (o.props[:3] == id || o.props[4:] == id) {
			ops = append(ops, o)
		}
	}
	if len(ops) == 0 {
		return
	}
	c.Section("shared-memory", fmt.Sprintf("%d operations whose arguments lie in one array, repeated, overlapping, next to each other: every layout", len(ops)), func(s *Sec) {
		for _, o := range ops {
			for way := 0; way < o.n; way++ {
				for v := 0; v < 2; v++ {
					s.Case(func(t *T) {
						aliasMem = pattern(o.size+128, byte(way+100*v))
						mem := aliasMem[64 : 64+o.size]
						if v == 1 && o.size == 64 {
							copy(mem[16:], pubOf(seedKey(way%7))) // a point at one of the offsets
						}
						laidOut()
						got, want := o.f(mem, way)
						t.Ops(1)
						t.State([]byte(o.name), []byte{byte(way), byte(way >> 8), byte(v)}, got)
						t.Outcome(got)
						if !eq(got, want) {
							t.Failf("%s, layout %d, filling %d: %s, should be %s", o.name, way, v, hx(got), hx(want))
						} else if !eq(aliasMem, aliasWas) {
							t.Failf("%s, layout %d, filling %d: the array of the arguments was changed", o.name, way, v)
						}
					})
				}
			}
		}
	})
}
