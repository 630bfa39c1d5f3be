package ref

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/sha3"
	"crypto/sha512"
	"math/big"
)

// Hash512 is the 64-byte hash the signature scheme is built on.
type Hash512 func(parts ...[]byte) []byte

func SHA3_512(parts ...[]byte) []byte {
	h := sha3.New512()
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

func SHA512(parts ...[]byte) []byte {
	h := sha512.New()
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

func SHA3_256(b []byte) []byte {
	r := sha3.Sum256(b)
	return r[:]
}

// Clamped returns the secret scalar of a private key and the prefix for nonces.
func Clamped(h Hash512, seed []byte) (*big.Int, []byte) {
	d := h(seed)
	s := append([]byte{}, d[:32]...)
	s[0] &= 0xf8
	s[31] = s[31]&0x7f | 0x40
	return LE(s), d[32:]
}

func Public(h Hash512, seed []byte) []byte {
	if !Memo {
		a, _ := Clamped(h, seed)
		return BaseMul(a).Encode()
	}
	return append([]byte{}, memo(func() []byte {
		a, _ := Clamped(h, seed)
		return BaseMul(a).Encode()
	}, "public", hashID(h), string(seed))...)
}

// Sign returns R||S for the private key, using pub in the challenge.
func Sign(h Hash512, seed, pub, msg []byte) []byte {
	if !Memo {
		return sign(h, seed, pub, msg)
	}
	return append([]byte{}, memo(func() []byte { return sign(h, seed, pub, msg) }, "sign", hashID(h), string(seed), "|", string(pub), "|", string(msg))...)
}

func sign(h Hash512, seed, pub, msg []byte) []byte {
	a, prefix := Clamped(h, seed)
	r := new(big.Int).Mod(LE(h(prefix, msg)), L)
	R := BaseMul(r).Encode()
	k := new(big.Int).Mod(LE(h(R, pub, msg)), L)
	s := k.Mul(k, a)
	s.Add(s, r).Mod(s, L)
	return append(R, ToLE(s, 32)...)
}

func Canonical(s []byte) bool {
	v := LE(s)
	return v.Sign() > 0 && v.Cmp(L) < 0
}

// Verify decides a signature as the property states it.
func Verify(h Hash512, pub, msg, R, S []byte) bool {
	if !Memo {
		return verify(h, pub, msg, R, S)
	}
	return memo(func() bool { return verify(h, pub, msg, R, S) }, "verify", hashID(h), string(pub), "|", string(msg), "|", string(R), "|", string(S))
}

func verify(h Hash512, pub, msg, R, S []byte) bool {
	if len(R) != 32 || len(S) != 32 || len(pub) != 32 || !Canonical(S) {
		return false
	}
	if bytes.Equal(pub, make([]byte, 32)) {
		return false
	}
	A, ok := Decode(pub)
	if !ok {
		return false
	}
	k := new(big.Int).Mod(LE(h(R, pub, msg)), L)
	return bytes.Equal(BaseMul(LE(S)).Sub(A.Mul(k)).Encode(), R)
}

// SharedKey is SHA3-256(encode(a*A) xor salt).
func SharedKey(seed, pub, salt []byte) ([]byte, bool) {
	A, ok := Decode(pub)
	if !ok {
		return nil, false
	}
	a, _ := Clamped(SHA3_512, seed)
	e := A.Mul(a).Encode()
	for i := range e {
		e[i] ^= salt[i]
	}
	return SHA3_256(e), true
}

// EncryptWith builds salt||iv||ciphertext for the given shared key.
func EncryptWith(key, salt, iv, msg []byte) []byte {
	pad := 16 - len(msg)%16
	buf := append(append([]byte{}, msg...), bytes.Repeat([]byte{byte(pad)}, pad)...)
	c, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	cipher.NewCBCEncrypter(c, iv).CryptBlocks(buf, buf)
	return append(append(append([]byte{}, salt...), iv...), buf...)
}

// EncryptRaw encrypts whole blocks without adding padding.
func EncryptRaw(key, salt, iv, blocks []byte) []byte {
	buf := append([]byte{}, blocks...)
	c, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	cipher.NewCBCEncrypter(c, iv).CryptBlocks(buf, buf)
	return append(append(append([]byte{}, salt...), iv...), buf...)
}

// Decrypt is the property's definition; seed is the recipient's, pub the sender's.
func Decrypt(seed, pub, in []byte) ([]byte, bool) {
	if len(in) < 64 || (len(in)-48)%16 != 0 {
		return nil, false
	}
	key, ok := SharedKey(seed, pub, in[:32])
	if !ok {
		return nil, false
	}
	return DecryptWith(key, in)
}

func DecryptWith(key, in []byte) ([]byte, bool) {
	if len(in) < 64 || (len(in)-48)%16 != 0 {
		return nil, false
	}
	c, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	buf := append([]byte{}, in[48:]...)
	cipher.NewCBCDecrypter(c, in[32:48]).CryptBlocks(buf, buf)
	n := int(buf[len(buf)-1])
	if n < 1 || n > 16 {
		return nil, false
	}
	for _, v := range buf[len(buf)-n:] {
		if int(v) != n {
			return nil, false
		}
	}
	return buf[:len(buf)-n], true
}
