From 3008c26e3403fb9b01b77cfac16cd2e94176b5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 01/20] fix: IsCanonicalSignature compares the whole S, not its
 low 64 bits

S was truncated to uint64 before it was compared, so S+L (and every S >= L
other than those sharing the low word of L) was canonical and verified, which
makes signatures malleable; a canonical S whose low word is 0 was refused.
---
 ed25519_model.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ed25519_model.go b/ed25519_model.go
index 77e25af..b8daeec 100644
--- a/ed25519_model.go
+++ b/ed25519_model.go
@@ -324,8 +324,8 @@ func (ref *Ed25519DsaSigner) Verify(mess []byte, signature *Signature) (res bool
 // IsCanonicalSignature check signature on canonical
 func (ref *Ed25519DsaSigner) IsCanonicalSignature(signature *Signature) bool {
 
-	sgnS := signature.GetS().Uint64()
-	return sgnS != Ed25519Group.GROUP_ORDER.Uint64() && sgnS > 0
+	sgnS := signature.GetS()
+	return sgnS.Cmp(Ed25519Group.GROUP_ORDER) < 0 && sgnS.Sign() > 0
 }
 
 // MakeSignatureCanonical return canonical signature
-- 
2.43.0


From ad249308f9309474029c7b441b2b6ffbb8217b97 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 02/20] fix: Verify refuses a signature whose parts are not 32
 bytes

A Signature with a short S made Verify panic with an index out of range, and
one with S padded beyond 32 bytes was accepted.
---
 ed25519_model.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ed25519_model.go b/ed25519_model.go
index b8daeec..7b7be73 100644
--- a/ed25519_model.go
+++ b/ed25519_model.go
@@ -269,6 +269,10 @@ func (ref *Ed25519DsaSigner) Sign(mess []byte) (*Signature, error) {
 // prevent  panic inside ed25519.Verify
 func (ref *Ed25519DsaSigner) Verify(mess []byte, signature *Signature) (res bool) {
 
+	if signature == nil || len(signature.R) != 32 || len(signature.S) != 32 {
+		return false
+	}
+
 	if !ref.IsCanonicalSignature(signature) {
 		return false
 	}
-- 
2.43.0


From a439e852e835d4ccd91cae65456cb112bad6e349 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 03/20] fix: Decrypt returns an error for input that ends in a
 partial block

cipher.BlockMode.CryptBlocks panics when its input is not full blocks, so any
ciphertext whose length was not 48+16n crashed the process.
---
 ed25519_model.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ed25519_model.go b/ed25519_model.go
index 7b7be73..c2c16fc 100644
--- a/ed25519_model.go
+++ b/ed25519_model.go
@@ -94,6 +94,10 @@ func (ref *Ed25519BlockCipher) decode(ciphertext []byte, sharedKey []byte, ivDat
 		return nil, err
 	}
 
+	if len(ciphertext) == 0 || len(ciphertext)%c.BlockSize() != 0 {
+		return nil, errors.New("blocks are corrupted, input is not a whole number of blocks")
+	}
+
 	dec := cipher.NewCBCDecrypter(c, ivData)
 	buf := make([]byte, len(ciphertext))
 	dec.CryptBlocks(buf, ciphertext)
-- 
2.43.0


From 3b522e7a2cdbf129b58d54f30882d6e6a7e2aad7 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 04/20] fix: Encrypt and Decrypt return an error without the
 private key

A cipher whose sender (Encrypt) or recipient (Decrypt) is a public-only key
pair dereferenced a nil private key; Sign reports an error in the same case.
---
 ed25519_model.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ed25519_model.go b/ed25519_model.go
index c2c16fc..68b9e3c 100644
--- a/ed25519_model.go
+++ b/ed25519_model.go
@@ -123,6 +123,10 @@ func (ref *Ed25519BlockCipher) decode(ciphertext []byte, sharedKey []byte, ivDat
 // GetSharedKey create shared bytes
 func (ref *Ed25519BlockCipher) GetSharedKey(privateKey *PrivateKey, publicKey *PublicKey, salt []byte) ([]byte, error) {
 
+	if privateKey == nil {
+		return nil, errors.New("cannot derive shared key without private key")
+	}
+
 	grA, err := NewEd25519EncodedGroupElement(publicKey.Raw)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 8fd9f5e12e5e5a8747b0c240d4224ba6d791ce6a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 05/20] fix: Signature.Bytes builds a new slice

append(ref.R, ref.S...) wrote S into the spare capacity of R, overwriting the
caller's memory behind R, and returned a slice sharing memory with R.
---
 signature.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/signature.go b/signature.go
index 8d1bae4..648201a 100644
--- a/signature.go
+++ b/signature.go
@@ -71,7 +71,7 @@ func (ref *Signature) GetS() *big.Int {
 // Bytes Gets a little-endian 64-byte representation of the signature.
 func (ref *Signature) Bytes() []byte {
 
-	return append(ref.R, ref.S...)
+	return append(append(make([]byte, 0, len(ref.R)+len(ref.S)), ref.R...), ref.S...)
 }
 
 func (ref *Signature) String() string {
-- 
2.43.0


From 5f0eb34be2667ea849d17c2241d6d5fdf254b919 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 06/20] fix: NewSignatureFromBigInt refuses integers that do
 not fit 32 bytes

Only the low word of R and S was checked, so -2^64 was accepted as 2^64 and
2^256 was silently truncated to 0.
---
 signature.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/signature.go b/signature.go
index 648201a..cae0363 100644
--- a/signature.go
+++ b/signature.go
@@ -37,6 +37,8 @@ func NewSignature(r []byte, s []byte) (*Signature, error) {
 // NewSignatureFromBigInt create new Signature from big.Int parts
 func NewSignatureFromBigInt(rInt, sInt *big.Int) (*Signature, error) {
 	if (rInt == nil) || (sInt == nil) ||
+		(rInt.Sign() < 0) || (rInt.BitLen() > 256) ||
+		(sInt.Sign() < 0) || (sInt.BitLen() > 256) ||
 		(rInt.Uint64() > math.MaxInt32) ||
 		(sInt.Uint64() > math.MaxInt32) {
 		return nil, errBadParamNewSignatureBigInt
-- 
2.43.0


From f0736cac7511b9b22b7c13f1e4bd3495f914de8d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 07/20] fix: NewPrivateKeyFromBigInt keeps the leading zero
 bytes of the key

big.Int.Bytes drops them, so 1 in 256 keys gave another public key through
NewPrivateKeyFromBigInt than through NewPrivateKey or hex, and its String was
refused by NewPrivateKeyfromHexString.
---
 key_model.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/key_model.go b/key_model.go
index ef1ba0a..765b1db 100644
--- a/key_model.go
+++ b/key_model.go
@@ -44,7 +44,13 @@ func NewPrivateKey(raw []byte) *PrivateKey {
 
 // NewPrivateKeyFromBigInt creates a new private key from []byte
 func NewPrivateKeyFromBigInt(val *big.Int) *PrivateKey {
-	return &PrivateKey{val, val.Bytes()}
+	raw := val.Bytes()
+	if len(raw) < 32 {
+		// val.Bytes() drops leading zero bytes, which are a part of the key
+		raw = append(make([]byte, 32-len(raw)), raw...)
+	}
+
+	return &PrivateKey{val, raw}
 }
 
 // NewPrivateKeyfromHexString creates a private key from a hex strings.
-- 
2.43.0


From 58ea743661d033c311b00c5af990a08d7f59e7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 08/20] fix: Ed25519GroupElement.Equals is symmetric for P2, P3
 and P1xP1

P2.Equals(P3) compared the points, but P3.Equals(P2), P1xP1.Equals(P2) and
P1xP1.Equals(P3) tried an unsupported conversion and were always false.
---
 ed25519_encode.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ed25519_encode.go b/ed25519_encode.go
index 05b61a7..ac6ba3b 100644
--- a/ed25519_encode.go
+++ b/ed25519_encode.go
@@ -2104,6 +2104,11 @@ func NewEd25519GroupElementCached(
 // Equals compares two Ed25519GroupElement with reduction of coordinates
 func (ref *Ed25519GroupElement) Equals(ge *Ed25519GroupElement) (res bool) {
 
+	// P2 and P1xP1 cannot be converted to the system of ref, but P1xP1 and P3 can be to P2
+	if ref.coordinateSystem == P1xP1 || (ref.coordinateSystem == P3 && ge.coordinateSystem == P2) {
+		ref = ref.toP2()
+	}
+
 	if ref.coordinateSystem != ge.coordinateSystem {
 		defer func() {
 			err := recover()
-- 
2.43.0


From be58772d52efe32cf2cf47b8977959c28875f471 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 09/20] fix: MathUtils.ToGroupElement decodes the point and
 leaves its input alone

GetAffineXFromAffineY replaced x by x mod 2 when it looked at the sign, so the
result was never on the curve, and ToGroupElement cleared the sign bit in the
caller's slice.
---
 math.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/math.go b/math.go
index 480e390..da41462 100644
--- a/math.go
+++ b/math.go
@@ -172,6 +172,7 @@ func (ref *mathUtils) ToFieldElement(b *big.Int) *Ed25519FieldElement {
 func (ref *mathUtils) ToGroupElement(bytes []byte) (*Ed25519GroupElement, error) {
 
 	shouldBeNegative := (bytes[31] >> 7) != 0
+	bytes = append([]byte{}, bytes...)
 	bytes[31] &= 0x7f
 	y := ref.BytesToBigInteger(bytes)
 	x, err := ref.GetAffineXFromAffineY(y, shouldBeNegative)
@@ -216,7 +217,7 @@ func (ref *mathUtils) GetAffineXFromAffineY(y *big.Int, shouldBeNegative bool) (
 		x = x.Mul(x, ref.IntsToBigInteger(Ed25519Field.I.Raw)).Mod(x, Ed25519Field.P)
 	}
 
-	isNegative := x.Mod(x, big.NewInt(2)).Cmp(bigIntegerONE()) == 0 // final
+	isNegative := x.Bit(0) == 1 // final
 	if (shouldBeNegative && !isNegative) || (!shouldBeNegative && isNegative) {
 		x = x.Neg(x).Mod(x, Ed25519Field.P)
 	}
-- 
2.43.0


From df064fd03a9230d19a37c0d1d84d810b1f0371cc Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 10/20] fix: MathUtils.ToRepresentation converts from
 PRECOMPUTED

x and y are half the difference and half the sum of y+x and y-x; the code took
the inverse of the numerator as well, so it returned another point.
---
 math.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/math.go b/math.go
index da41462..3d82775 100644
--- a/math.go
+++ b/math.go
@@ -290,10 +290,10 @@ func (ref *mathUtils) ToRepresentation(g *Ed25519GroupElement, newCoorSys Coordi
 	case PRECOMPUTED:
 		// safaty gX for next calculation
 		x := (&big.Int{}).Sub(gX, gY)
-		x = x.Mul(x, gZ.Mul(gZ, big.NewInt(2))).ModInverse(x, Ed25519Field.P).Mod(x, Ed25519Field.P)
+		x = xMulYModInverseAndModP(x, big.NewInt(2))
 
 		y := gX.Add(gX, gY)
-		y = y.Mul(y, big.NewInt(2)).ModInverse(y, Ed25519Field.P).Mod(y, Ed25519Field.P)
+		y = xMulYModInverseAndModP(y, big.NewInt(2))
 		return ref.getNeeCoor(x, y, newCoorSys)
 	}
 	return nil, errors.New("NewUnsupportedOperationException")
-- 
2.43.0


From 12db4b01bfba75287665cd3ba5159cab484f489e Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 11/20] fix: Ed25519GroupElement.String works without a T
 coordinate

P2, AFFINE and PRECOMPUTED elements have no T, and printing one panicked.
---
 ed25519_encode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ed25519_encode.go b/ed25519_encode.go
index ac6ba3b..0876eb1 100644
--- a/ed25519_encode.go
+++ b/ed25519_encode.go
@@ -915,6 +915,10 @@ func (ref *Ed25519FieldElement) Equals(ge *Ed25519FieldElement) bool {
 
 func (ref *Ed25519FieldElement) String() string {
 
+	if ref == nil {
+		return "<nil>"
+	}
+
 	return ref.Encode().String()
 }
 
-- 
2.43.0


From 628f97dee78b43b20a47c2436e7cfd6686030e6d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 12/20] fix: NewKeyPair returns an error when it is given no
 key at all

Deriving the public key of a nil private key panicked.
---
 key_pair.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/key_pair.go b/key_pair.go
index 51abde1..26decaf 100644
--- a/key_pair.go
+++ b/key_pair.go
@@ -26,6 +26,10 @@ func NewKeyPair(privateKey *PrivateKey, publicKey *PublicKey, engine CryptoEngin
 		engine = CryptoEngines.DefaultEngine
 	}
 
+	if publicKey == nil && privateKey == nil {
+		return nil, errors.New("privateKey and publicKey must not both be nil")
+	}
+
 	if publicKey == nil {
 		publicKey = engine.CreateKeyGenerator().DerivePublicKey(privateKey)
 	} else if !engine.CreateKeyAnalyzer().IsKeyCompressed(publicKey) {
-- 
2.43.0


From fa214fcb65c85e2119b2785375147b366f2993bb Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 13/20] fix: GetSharedKey returns an error for a salt that is
 too short

It panicked with an index out of range.
---
 ed25519_model.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ed25519_model.go b/ed25519_model.go
index 68b9e3c..7b522f4 100644
--- a/ed25519_model.go
+++ b/ed25519_model.go
@@ -127,6 +127,10 @@ func (ref *Ed25519BlockCipher) GetSharedKey(privateKey *PrivateKey, publicKey *P
 		return nil, errors.New("cannot derive shared key without private key")
 	}
 
+	if len(salt) < ref.keyLength {
+		return nil, errors.New("the salt is shorter than the key")
+	}
+
 	grA, err := NewEd25519EncodedGroupElement(publicKey.Raw)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From a7039585711564bb346d0e0591a96b879b5fa201 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 22:05:03 +0000
Subject: [PATCH 14/20] fix: encoded group elements that are not 32 bytes long
 do not decode

---
 ed25519_encode.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ed25519_encode.go b/ed25519_encode.go
index 0876eb1..5d10459 100644
--- a/ed25519_encode.go
+++ b/ed25519_encode.go
@@ -1880,6 +1880,11 @@ func (ref *Ed25519EncodedGroupElement) GetAffineX() (*Ed25519FieldElement, error
  * @return the affine y-coordinate.
  */func (ref *Ed25519EncodedGroupElement) GetAffineY() (*Ed25519FieldElement, error) {
 
+	// a field element may also have 64 bytes, a group element may not
+	if 32 != len(ref.Raw) {
+		return nil, errors.New("Invalid encoded group element.")
+	}
+
 	// The affine y-coordinate is in bits 0 to 254.
 	// Since the decode() method of Ed25519EncodedFieldElement ignores bit 255,
 	// we can use that method without problems.
-- 
2.43.0


From 79b5c39b576b47b51e44b9cea3d7ef04d355d519 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 22:08:54 +0000
Subject: [PATCH 15/20] fix: a block cipher whose recipient key is not 32 bytes
 long returns errors

---
 ed25519_model.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ed25519_model.go b/ed25519_model.go
index 7b522f4..4ef2ba1 100644
--- a/ed25519_model.go
+++ b/ed25519_model.go
@@ -120,6 +120,8 @@ func (ref *Ed25519BlockCipher) decode(ciphertext []byte, sharedKey []byte, ivDat
 	return buf[:messageSize], nil
 }
 
+var errBadRecipientKey = errors.New("the recipient public key must be 32 bytes long")
+
 // GetSharedKey create shared bytes
 func (ref *Ed25519BlockCipher) GetSharedKey(privateKey *PrivateKey, publicKey *PublicKey, salt []byte) ([]byte, error) {
 
@@ -127,6 +129,10 @@ func (ref *Ed25519BlockCipher) GetSharedKey(privateKey *PrivateKey, publicKey *P
 		return nil, errors.New("cannot derive shared key without private key")
 	}
 
+	if ref.keyLength != 32 {
+		return nil, errBadRecipientKey
+	}
+
 	if len(salt) < ref.keyLength {
 		return nil, errors.New("the salt is shorter than the key")
 	}
@@ -192,6 +198,10 @@ func (ref *Ed25519BlockCipher) Decrypt(input []byte) ([]byte, error) {
 		return nil, errors.New("input is to short for decryption")
 	}
 
+	if ref.keyLength != 32 {
+		return nil, errBadRecipientKey
+	}
+
 	salt := input[:ref.keyLength]
 	ivData := input[ref.keyLength:48]
 	encData := input[48:]
-- 
2.43.0


From ff0e9cf8db4d70c6daa4d610cc2a6ddd266689fb Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 22:17:58 +0000
Subject: [PATCH 16/20] fix: GetAffineXFromAffineY checks v*x^2 and so finds
 every point

---
 math.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math.go b/math.go
index 3d82775..4070e74 100644
--- a/math.go
+++ b/math.go
@@ -207,7 +207,7 @@ func (ref *mathUtils) GetAffineXFromAffineY(y *big.Int, shouldBeNegative bool) (
 	x := ref.getSqrtOfFraction(u, v)
 
 	vx2 := (&big.Int{}).Mul(v, x)
-	vx2.Mul(v, x)
+	vx2.Mul(vx2, x)
 
 	if v.Sub(vx2, u).Mod(v, Ed25519Field.P).Cmp(bigIntegerZERO()) != 0 {
 		if vx2.Add(vx2, u).Mod(vx2, Ed25519Field.P).Cmp(bigIntegerZERO()) != 0 {
-- 
2.43.0


From beb890caa467fd59992eb1cb16ddb9f49d9a8a2a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 22:18:02 +0000
Subject: [PATCH 17/20] fix: XMulY_Plus_ZMulT_DelD leaves its arguments alone

AddGroupElements passed it the same integer twice and got a wrong sum when one
of the coordinates was zero.
---
 math.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/math.go b/math.go
index 4070e74..0753037 100644
--- a/math.go
+++ b/math.go
@@ -542,8 +542,9 @@ func (ref *mathUtils) AddGroupElements(g1 *Ed25519GroupElement, g2 *Ed25519Group
 }
 
 func (ref *mathUtils) XMulY_Plus_ZMulT_DelD(x big.Int, y, z, t, d *big.Int) *big.Int {
-	b := &x
-	return b.Mul(b, y).Add(b, (&big.Int{}).Mul(z, t)).Mul(b, d.ModInverse(d, Ed25519Field.P)).Mod(b, Ed25519Field.P)
+	// a copy of a big.Int shares its digits with the original
+	b := (&big.Int{}).Mul(&x, y)
+	return b.Add(b, (&big.Int{}).Mul(z, t)).Mul(b, (&big.Int{}).ModInverse(d, Ed25519Field.P)).Mod(b, Ed25519Field.P)
 }
 
 /** DoubleGroupElement
-- 
2.43.0


From 1e04a695fd759eae2ba7b7fa4fa39c5ee7b3d1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:39:30 +0000
Subject: [PATCH 18/20] fix: MathUtils.ToByteArray refuses negative numbers

---
 math.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/math.go b/math.go
index 0753037..5e878e4 100644
--- a/math.go
+++ b/math.go
@@ -476,8 +476,8 @@ func (ref *mathUtils) ToEncodedFieldElement(b *big.Int) *Ed25519EncodedFieldElem
  */
 func (ref *mathUtils) ToByteArray(b *big.Int) []byte {
 
-	if b.Cmp(bigIntegerONE().Lsh(bigIntegerONE(), 256)) >= 0 {
-		panic(errors.New("only numbers < 2^256 are allowed"))
+	if b.Sign() < 0 || b.Cmp(bigIntegerONE().Lsh(bigIntegerONE(), 256)) >= 0 {
+		panic(errors.New("only numbers >= 0 and < 2^256 are allowed"))
 	}
 
 	original := utils.BigIntToByteArray(b, 32)
-- 
2.43.0


From 592c534d311edd344d1653b0fab40f82f2a78856 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:44:53 +0000
Subject: [PATCH 19/20] fix: the table lookup of scalarMultiply does not branch
 on digits of the secret scalar

---
 ed25519_encode.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/ed25519_encode.go b/ed25519_encode.go
index 5d10459..8d738b2 100644
--- a/ed25519_encode.go
+++ b/ed25519_encode.go
@@ -2790,18 +2790,27 @@ func (ref *Ed25519GroupElement) negate() (*Ed25519GroupElement, error) {
 	return Ed25519Group.ZERO_P3().subtract(ref.toCached()).toP3(), nil
 }
 
-// Constant-time conditional move.
+// Constant-time conditional move of an element in PRECOMPUTED coordinates.
 // * @param u The group element to return if b == 1.
 // * @param b in {0, 1}
-// * @return u if b == 1; ref if b == 0; nil otherwise.
+// * @return A copy of u if b == 1; a copy of ref if b == 0; nil otherwise.
 func (ref *Ed25519GroupElement) cmov(u *Ed25519GroupElement, b int) (*Ed25519GroupElement, error) {
 
-	if b == 1 {
-		return u, nil
-	} else if b == 0 {
-		return ref, nil
+	if b&^1 != 0 {
+		return nil, errors.New("parameter 'b' must by in range {0,1}")
 	}
-	return nil, errors.New("parameter 'b' must by in range {0,1}")
+	return NewEd25519GroupElementPrecomputed(ref.X.cmov(u.X, b), ref.Y.cmov(u.Y, b), ref.Z.cmov(u.Z, b)), nil
+}
+
+// Constant-time conditional move, returns a copy of u if b == 1 and a copy of ref if b == 0.
+func (ref *Ed25519FieldElement) cmov(u *Ed25519FieldElement, b int) *Ed25519FieldElement {
+
+	mask := -int64(b)
+	raw := ref.Raw
+	for i := range raw {
+		raw[i] ^= mask & (raw[i] ^ u.Raw[i])
+	}
+	return &Ed25519FieldElement{raw}
 }
 
 /**
-- 
2.43.0


From defa9e8e285ee4b81d3c858fab8d1fa5d41e8e58 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 00:49:24 +0000
Subject: [PATCH 20/20] fix: Ed25519GroupElement.Equals said an extended and a
 cached element of one point differ

---
 ed25519_encode.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ed25519_encode.go b/ed25519_encode.go
index 8d738b2..c5b84ce 100644
--- a/ed25519_encode.go
+++ b/ed25519_encode.go
@@ -2118,6 +2118,11 @@ func (ref *Ed25519GroupElement) Equals(ge *Ed25519GroupElement) (res bool) {
 		ref = ref.toP2()
 	}
 
+	// neither can CACHED be converted to P3, but P3 can be to CACHED
+	if ref.coordinateSystem == P3 && ge.coordinateSystem == CACHED {
+		ref = ref.toCached()
+	}
+
 	if ref.coordinateSystem != ge.coordinateSystem {
 		defer func() {
 			err := recover()
-- 
2.43.0

