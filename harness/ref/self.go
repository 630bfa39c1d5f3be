package ref

import (
	"bytes"
	"crypto/ed25519"
	"crypto/sha3"
	"encoding/hex"
	"fmt"
	"math/big"
)

// SelfCheck validates the reference against independent implementations:
// stdlib Ed25519 (with SHA-512), stdlib SHA-3, big.Int and published vectors.
func SelfCheck() error {
	seed := make([]byte, 32)
	for n := 0; n < 40; n++ {
		copy(seed, SHA512(seed, []byte{byte(n)}))
		priv := ed25519.NewKeyFromSeed(seed)
		pub := []byte(priv.Public().(ed25519.PublicKey))
		if !bytes.Equal(pub, Public(SHA512, seed)) {
			return fmt.Errorf("public key differs from crypto/ed25519")
		}
		msg := SHA512(pub)[:n]
		sig := ed25519.Sign(priv, msg)
		if !bytes.Equal(sig, Sign(SHA512, seed, pub, msg)) {
			return fmt.Errorf("signature differs from crypto/ed25519")
		}
		if !Verify(SHA512, pub, msg, sig[:32], sig[32:]) {
			return fmt.Errorf("reference rejects a crypto/ed25519 signature")
		}
		sig[n] ^= 1
		if Verify(SHA512, pub, msg, sig[:32], sig[32:]) || ed25519.Verify(pub, msg, sig) {
			return fmt.Errorf("reference accepts a forged signature")
		}
		m := bytes.Repeat(seed, n)
		a, b := sha3.Sum256(m), sha3.Sum512(m)
		if !bytes.Equal(a[:], ownSHA3_256(m)) || !bytes.Equal(b[:], ownSHA3_512(m)) {
			return fmt.Errorf("own Keccak differs from crypto/sha3")
		}
	}
	// field against big.Int
	vals := []*big.Int{}
	for _, d := range []int64{0, 1, 2, 3, 18, 19, 20, 38, 1 << 40} {
		for _, base := range []*big.Int{big.NewInt(0), P, new(big.Int).Rsh(P, 1), new(big.Int).Lsh(big.NewInt(1), 128)} {
			vals = append(vals, new(big.Int).Add(base, big.NewInt(d)), new(big.Int).Sub(base, big.NewInt(d)))
		}
	}
	for _, x := range vals {
		fx := FeFromBig(x)
		mx := new(big.Int).Mod(x, P)
		if fx.Big().Cmp(mx) != 0 {
			return fmt.Errorf("field conversion")
		}
		if mx.Sign() != 0 && fx.Inv().Big().Cmp(new(big.Int).ModInverse(mx, P)) != 0 {
			return fmt.Errorf("field inverse")
		}
		for _, y := range vals {
			fy := FeFromBig(y)
			t := new(big.Int)
			if fx.Mul(fy).Big().Cmp(t.Mod(t.Mul(x, y), P)) != 0 {
				return fmt.Errorf("field product")
			}
			if fx.Add(fy).Big().Cmp(t.Mod(t.Add(x, y), P)) != 0 {
				return fmt.Errorf("field sum")
			}
			if fx.Sub(fy).Big().Cmp(t.Mod(t.Sub(x, y), P)) != 0 {
				return fmt.Errorf("field difference")
			}
		}
	}
	l := [10]int64{-5, 1 << 40, -(1 << 40), 7, -1, 1 << 26, -(1 << 25), 3, 1 << 30, -(1 << 33)}
	t := new(big.Int)
	for i, v := range l {
		t.Add(t, new(big.Int).Lsh(big.NewInt(v), limbExp[i]))
	}
	if FeFromLimbs(l) != FeFromBig(t) {
		return fmt.Errorf("limb conversion")
	}
	for i, p := range Torsion {
		if !p.Valid() || p.MulInt(8).Equal(Neutral) != true || (i%2 == 1) == p.MulInt(4).Equal(Neutral) {
			return fmt.Errorf("torsion point %d", i)
		}
	}
	if !BaseMul(L).Equal(Neutral) || !B.Valid() || !B.Mul(L).Equal(Neutral) {
		return fmt.Errorf("order of the base point")
	}
	for _, v := range []struct {
		f    func([]byte) []byte
		in   string
		want string
	}{
		{Ripemd160, "", "9c1185a5c5e9fc54612808977ee8f548b2258d31"},
		{Ripemd160, "abc", "8eb208f7e05d987a9b044a8e98c6b087f15a0bfc"},
		{Ripemd160, "abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq", "12a053384a9c0c88e405a06c27dcf49ada62eb2b"},
		{Ripemd160, "12345678901234567890123456789012345678901234567890123456789012345678901234567890", "9b752e45573d4b39f4dbd3323cab82bf63326bfb"},
		{Keccak256, "", "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470"},
		{Keccak256, "abc", "4e03657aea45a94fc7d47ba826c8d667c0d1e6e33a64a036ec44f58fa12d6c45"},
	} {
		if hex.EncodeToString(v.f([]byte(v.in))) != v.want {
			return fmt.Errorf("digest of %q", v.in)
		}
	}
	return nil
}
