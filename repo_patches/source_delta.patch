From 17e8cf618a7f85179f4abceac7ecca633244bb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:31 +0000
Subject: [PATCH 01/51] fix: ring scalar additions and subtractions write the
 receiver instead of their input

---
 ring/ring_operations.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ring/ring_operations.go b/ring/ring_operations.go
index 7882ff4..480a1b8 100644
--- a/ring/ring_operations.go
+++ b/ring/ring_operations.go
@@ -319,7 +319,7 @@ func (r *Ring) AddScalar(p1 *Poly, scalar uint64, p2 *Poly) {
 // AddScalarLvl adds a scalar to each coefficient of p1 and writes the result on p2.
 func (r *Ring) AddScalarLvl(level int, p1 *Poly, scalar uint64, p2 *Poly) {
 	for i := 0; i < level+1; i++ {
-		AddScalarVec(p1.Coeffs[i][:r.N], p1.Coeffs[i][:r.N], scalar, r.Modulus[i])
+		AddScalarVec(p1.Coeffs[i][:r.N], p2.Coeffs[i][:r.N], scalar, r.Modulus[i])
 	}
 }
 
@@ -332,7 +332,7 @@ func (r *Ring) AddScalarBigint(p1 *Poly, scalar *big.Int, p2 *Poly) {
 func (r *Ring) AddScalarBigintLvl(level int, p1 *Poly, scalar *big.Int, p2 *Poly) {
 	tmp := new(big.Int)
 	for i := 0; i < level+1; i++ {
-		AddScalarVec(p1.Coeffs[i][:r.N], p1.Coeffs[i][:r.N], tmp.Mod(scalar, NewUint(r.Modulus[i])).Uint64(), r.Modulus[i])
+		AddScalarVec(p1.Coeffs[i][:r.N], p2.Coeffs[i][:r.N], tmp.Mod(scalar, NewUint(r.Modulus[i])).Uint64(), r.Modulus[i])
 	}
 }
 
@@ -344,7 +344,7 @@ func (r *Ring) SubScalar(p1 *Poly, scalar uint64, p2 *Poly) {
 // SubScalarLvl subtracts a scalar from each coefficient of p1 and writes the result on p2.
 func (r *Ring) SubScalarLvl(level int, p1 *Poly, scalar uint64, p2 *Poly) {
 	for i := 0; i < level+1; i++ {
-		SubScalarVec(p1.Coeffs[i][:r.N], p1.Coeffs[i][:r.N], scalar, r.Modulus[i])
+		SubScalarVec(p1.Coeffs[i][:r.N], p2.Coeffs[i][:r.N], scalar, r.Modulus[i])
 	}
 }
 
@@ -357,7 +357,7 @@ func (r *Ring) SubScalarBigint(p1 *Poly, scalar *big.Int, p2 *Poly) {
 func (r *Ring) SubScalarBigintLvl(level int, p1 *Poly, scalar *big.Int, p2 *Poly) {
 	tmp := new(big.Int)
 	for i := 0; i < level+1; i++ {
-		SubScalarVec(p1.Coeffs[i][:r.N], p1.Coeffs[i][:r.N], tmp.Mod(scalar, NewUint(r.Modulus[i])).Uint64(), r.Modulus[i])
+		SubScalarVec(p1.Coeffs[i][:r.N], p2.Coeffs[i][:r.N], tmp.Mod(scalar, NewUint(r.Modulus[i])).Uint64(), r.Modulus[i])
 	}
 }
 
-- 
2.43.0


From d3d7185f90defd8d42060dba4d6621e811bc3c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:02 +0000
Subject: [PATCH 02/51] fix: Ring.Shift copies the shifted rows instead of
 appending onto its input

---
 ring/ring_operations.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ring/ring_operations.go b/ring/ring_operations.go
index 480a1b8..edb5e6f 100644
--- a/ring/ring_operations.go
+++ b/ring/ring_operations.go
@@ -390,9 +390,12 @@ func (r *Ring) MulScalarBigintLvl(level int, p1 *Poly, scalar *big.Int, p2 *Poly
 
 // Shift circulary shifts the coefficients of the polynomial p1 by n positions to the left and writes the result on p2.
 func (r *Ring) Shift(p1 *Poly, n int, p2 *Poly) {
-	mask := (1 << r.N) - 1
+	k := n & (r.N - 1)
 	for i := range r.Modulus {
-		p2.Coeffs[i] = append(p1.Coeffs[i][(n&mask):], p1.Coeffs[i][:(n&mask)]...)
+		row := make([]uint64, r.N)
+		copy(row, p1.Coeffs[i][k:r.N])
+		copy(row[r.N-k:], p1.Coeffs[i][:k])
+		copy(p2.Coeffs[i], row)
 	}
 }
 
-- 
2.43.0


From 422fc54aec1f01632734aad11b04cdaea2770cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:02 +0000
Subject: [PATCH 03/51] fix: Ring.Rotate writes the receiver instead of its
 input

---
 ring/ring_operations.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ring/ring_operations.go b/ring/ring_operations.go
index edb5e6f..61d3dab 100644
--- a/ring/ring_operations.go
+++ b/ring/ring_operations.go
@@ -597,7 +597,9 @@ func (r *Ring) Rotate(p1 *Poly, n int, p2 *Poly) {
 
 		gal = MForm(1, qi, r.BredParams[i])
 
-		p1tmp, p2tmp := p1.Coeffs[i][:r.N], p1.Coeffs[i][:r.N]
+		p1tmp, p2tmp := p1.Coeffs[i][:r.N], p2.Coeffs[i][:r.N]
+
+		p2tmp[0] = p1tmp[0]
 
 		for j := 1; j < r.N; j++ {
 
-- 
2.43.0


From 77a10cfdbd572dfcf0e028df0c2810977f99ff85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:02 +0000
Subject: [PATCH 04/51] fix: Ring.MulByPow2Lvl multiplies the Montgomery form
 it computed

---
 ring/ring_operations.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ring/ring_operations.go b/ring/ring_operations.go
index 61d3dab..46efc64 100644
--- a/ring/ring_operations.go
+++ b/ring/ring_operations.go
@@ -447,7 +447,7 @@ func (r *Ring) MulByPow2(p1 *Poly, pow2 int, p2 *Poly) {
 func (r *Ring) MulByPow2Lvl(level int, p1 *Poly, pow2 int, p2 *Poly) {
 	r.MFormLvl(level, p1, p2)
 	for i := 0; i < level+1; i++ {
-		MulByPow2Vec(p1.Coeffs[i][:r.N], p2.Coeffs[i][:r.N], pow2, r.Modulus[i], r.MredParams[i])
+		MulByPow2Vec(p2.Coeffs[i][:r.N], p2.Coeffs[i][:r.N], pow2, r.Modulus[i], r.MredParams[i])
 	}
 }
 
-- 
2.43.0


From d4206861cb3b0813e497314277acadbc0fc7c896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:02 +0000
Subject: [PATCH 05/51] fix: DivRoundByLastModulusLvl no longer overwrites its
 input

---
 ring/ring_scaling.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ring/ring_scaling.go b/ring/ring_scaling.go
index e05b74e..d77fb44 100644
--- a/ring/ring_scaling.go
+++ b/ring/ring_scaling.go
@@ -402,12 +402,13 @@ func (r *Ring) DivRoundByLastModulusLvl(level int, p0, p1 *Poly) {
 	pj := r.Modulus[level]
 	pHalf := (pj - 1) >> 1
 
-	AddScalarVec(p0.Coeffs[level], p0.Coeffs[level], pHalf, pj)
+	tmp := make([]uint64, len(p0.Coeffs[level]))
+	AddScalarVec(p0.Coeffs[level], tmp, pHalf, pj)
 
 	for i := 0; i < level; i++ {
 		qi := r.Modulus[i]
-		AddScalarNoModAndNegTwoQiNoModVec(p0.Coeffs[i], p0.Coeffs[i], qi-BRedAdd(pHalf, qi, r.BredParams[i]), qi)
-		AddVecNoModAndMulScalarMontgomeryVec(p0.Coeffs[level], p0.Coeffs[i], p1.Coeffs[i], r.RescaleParams[level-1][i], qi, r.MredParams[i])
+		AddScalarNoModAndNegTwoQiNoModVec(p0.Coeffs[i], p1.Coeffs[i], qi-BRedAdd(pHalf, qi, r.BredParams[i]), qi)
+		AddVecNoModAndMulScalarMontgomeryVec(tmp, p1.Coeffs[i], p1.Coeffs[i], r.RescaleParams[level-1][i], qi, r.MredParams[i])
 	}
 }
 
-- 
2.43.0


From 537e3285ab664e91146e222f2c3fa97b8e805518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:28 +0000
Subject: [PATCH 06/51] fix: Ring.Equal and EqualLvl compare without reducing
 their operands in place

---
 ring/ring.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/ring/ring.go b/ring/ring.go
index b92420e..5d88e78 100644
--- a/ring/ring.go
+++ b/ring/ring.go
@@ -588,12 +588,10 @@ func (r *Ring) Equal(p1, p2 *Poly) bool {
 		}
 	}
 
-	r.Reduce(p1, p1)
-	r.Reduce(p2, p2)
-
 	for i := 0; i < len(r.Modulus); i++ {
+		qi, bredParams := r.Modulus[i], r.BredParams[i]
 		for j := 0; j < r.N; j++ {
-			if p1.Coeffs[i][j] != p2.Coeffs[i][j] {
+			if BRedAdd(p1.Coeffs[i][j], qi, bredParams) != BRedAdd(p2.Coeffs[i][j], qi, bredParams) {
 				return false
 			}
 		}
@@ -611,12 +609,10 @@ func (r *Ring) EqualLvl(level int, p1, p2 *Poly) bool {
 		}
 	}
 
-	r.ReduceLvl(level, p1, p1)
-	r.ReduceLvl(level, p2, p2)
-
 	for i := 0; i < level+1; i++ {
+		qi, bredParams := r.Modulus[i], r.BredParams[i]
 		for j := 0; j < r.N; j++ {
-			if p1.Coeffs[i][j] != p2.Coeffs[i][j] {
+			if BRedAdd(p1.Coeffs[i][j], qi, bredParams) != BRedAdd(p2.Coeffs[i][j], qi, bredParams) {
 				return false
 			}
 		}
-- 
2.43.0


From fbf89827a54a711adace88fecb0f0993ebc75f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:28 +0000
Subject: [PATCH 07/51] fix: SwitchCiphertextRingDegreeNTT writes ctOut instead
 of ctIn

---
 rlwe/elements.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlwe/elements.go b/rlwe/elements.go
index ba1f11e..b3ef2c0 100644
--- a/rlwe/elements.go
+++ b/rlwe/elements.go
@@ -168,7 +168,7 @@ func SwitchCiphertextRingDegreeNTT(ctIn *Ciphertext, ringQSmallDim, ringQLargeDi
 		pool := make([]uint64, NIn)
 		for i := range ctOut.Value {
 			for j := range ctOut.Value[i].Coeffs {
-				tmpIn, tmpOut := ctIn.Value[i].Coeffs[j], ctIn.Value[i].Coeffs[j]
+				tmpIn, tmpOut := ctIn.Value[i].Coeffs[j], ctOut.Value[i].Coeffs[j]
 				ringQLargeDim.InvNTTSingle(j, tmpIn, pool)
 				for w0, w1 := 0, 0; w0 < NOut; w0, w1 = w0+1, w1+gap {
 					tmpOut[w0] = pool[w1]
-- 
2.43.0


From d5cb5565d329e75e72407119ff255621375b8f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:25 +0000
Subject: [PATCH 08/51] fix: ModDownQPtoP divides by the modulus of the level
 it was given for Q

---
 ring/ring_basis_extension.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ring/ring_basis_extension.go b/ring/ring_basis_extension.go
index 499ead1..fd5cb1f 100644
--- a/ring/ring_basis_extension.go
+++ b/ring/ring_basis_extension.go
@@ -271,7 +271,7 @@ func (be *BasisExtender) ModDownQPtoP(levelQ, levelP int, p1Q, p1P, p2P *Poly) {
 	// Finally, for each level of p1 (and polypool since they now share the same basis) we compute p2 = (P^-1) * (p1 - polypool) mod Q
 	for i := 0; i < levelP+1; i++ {
 		// Then for each coefficient we compute (P^-1) * (p1[i][j] - polypool[i][j]) mod qi
-		SubVecAndMulScalarMontgomeryTwoQiVec(polypool.Coeffs[i], p1P.Coeffs[i], p2P.Coeffs[i], ringP.Modulus[i]-modDownParams[levelP][i], ringP.Modulus[i], ringP.MredParams[i])
+		SubVecAndMulScalarMontgomeryTwoQiVec(polypool.Coeffs[i], p1P.Coeffs[i], p2P.Coeffs[i], ringP.Modulus[i]-modDownParams[levelQ][i], ringP.Modulus[i], ringP.MredParams[i])
 	}
 
 	// In total we do len(P) + len(Q) NTT, which is optimal (linear in the number of moduli of P and Q)
-- 
2.43.0


From cfdb8ea0609bcd44b5c1abce880744b3d7b238cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:25 +0000
Subject: [PATCH 09/51] fix: frlwe key generator delegates GenSecretKey and
 GenPublicKey instead of recursing forever

---
 frlwe/keygen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frlwe/keygen.go b/frlwe/keygen.go
index 0f4a0b1..715470a 100644
--- a/frlwe/keygen.go
+++ b/frlwe/keygen.go
@@ -49,11 +49,11 @@ func NewKeyGenerator(params Parameters) (keygen *KeyGenerator) {
 }
 
 func (keygen *KeyGenerator) GenSecretKey() *rlwe.SecretKey {
-	return keygen.GenSecretKey()
+	return keygen.KeyGenerator.GenSecretKey()
 }
 
 func (keygen *KeyGenerator) GenPublicKey(sk *rlwe.SecretKey) *rlwe.PublicKey {
-	return keygen.GenPublicKey(sk)
+	return keygen.KeyGenerator.GenPublicKey(sk)
 }
 
 func (keygen *KeyGenerator) polyQPToPolyTs(polyQP rlwe.PolyQP, polyTs []*ring.Poly) {
-- 
2.43.0


From 5d7da4ac205b6fb34e63ac803cdc67f0649b95f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:25 +0000
Subject: [PATCH 10/51] fix: frlwe key generator and key switcher report ring
 construction failures

---
 frlwe/keygen.go    |  5 ++++-
 frlwe/keyswitch.go | 10 ++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/frlwe/keygen.go b/frlwe/keygen.go
index 715470a..c0dcbfa 100644
--- a/frlwe/keygen.go
+++ b/frlwe/keygen.go
@@ -40,7 +40,10 @@ func NewKeyGenerator(params Parameters) (keygen *KeyGenerator) {
 			}
 		}
 
-		keygen.ringRi[i], _ = ring.NewRing(params.N(), modulusRi)
+		var err error
+		if keygen.ringRi[i], err = ring.NewRing(params.N(), modulusRi); err != nil {
+			panic(err)
+		}
 		keygen.convRiT[i] = ring.NewBasisExtender(keygen.ringRi[i], params.RingT())
 	}
 	keygen.polyRiPool = params.RingR().NewPolyLvl(gamma - 1)
diff --git a/frlwe/keyswitch.go b/frlwe/keyswitch.go
index cbdd359..d63a65c 100644
--- a/frlwe/keyswitch.go
+++ b/frlwe/keyswitch.go
@@ -65,7 +65,10 @@ func NewKeySwitcher(params Parameters) *KeySwitcher {
 			}
 		}
 
-		ksw.ringRi[i], _ = ring.NewRing(params.N(), modulusRi)
+		var err error
+		if ksw.ringRi[i], err = ring.NewRing(params.N(), modulusRi); err != nil {
+			panic(err)
+		}
 		ksw.convTRi[i] = ring.NewBasisExtender(params.RingT(), ksw.ringRi[i])
 	}
 
@@ -81,7 +84,10 @@ func NewKeySwitcher(params Parameters) *KeySwitcher {
 			}
 		}
 
-		ksw.ringQj[j], _ = ring.NewRing(params.N(), modulusQj)
+		var err error
+		if ksw.ringQj[j], err = ring.NewRing(params.N(), modulusQj); err != nil {
+			panic(err)
+		}
 		ksw.convQjT[j] = ring.NewBasisExtender(ksw.ringQj[j], params.RingT())
 	}
 
-- 
2.43.0


From 6d8151d97820b77d81dd3d25b038b38b64b04b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:25 +0000
Subject: [PATCH 11/51] fix: frlwe parameters build ringR from the generated
 moduli, also for LogQ/LogP literals

---
 frlwe/params.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frlwe/params.go b/frlwe/params.go
index 91c749f..ec42a78 100644
--- a/frlwe/params.go
+++ b/frlwe/params.go
@@ -42,8 +42,8 @@ func NewParametersFromLiteral(pl ParametersLiteral) (params Parameters) {
 	}
 
 	moduliR := make([]uint64, 0)
-	moduliR = append(moduliR, pl.P...)
-	moduliR = append(moduliR, pl.Q...)
+	moduliR = append(moduliR, rlweParams.P()...)
+	moduliR = append(moduliR, rlweParams.Q()...)
 
 	ringR, err := ring.NewRing(N, moduliR)
 	if err != nil {
-- 
2.43.0


From b7732b1ebdf10e0813bfb8e39d4e78958b71bc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:25 +0000
Subject: [PATCH 12/51] fix: frlwe rotation keys for negative indices carry the
 reduced rotation index

---
 frlwe/keygen.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/frlwe/keygen.go b/frlwe/keygen.go
index c0dcbfa..11984fa 100644
--- a/frlwe/keygen.go
+++ b/frlwe/keygen.go
@@ -122,6 +122,9 @@ func (keygen *KeyGenerator) GenRelinKey(sk *rlwe.SecretKey) (rlk *RelinKey) {
 func (keygen *KeyGenerator) GenRotKey(rotidx int, sk *rlwe.SecretKey) (rtk *RotationKey) {
 
 	rotidx %= (keygen.params.N() / 2)
+	if rotidx < 0 {
+		rotidx += keygen.params.N() / 2
+	}
 
 	params := keygen.params
 	ringQP := params.RingQP()
-- 
2.43.0


From 4b0b717f32cf1bd2d685a82cbf37e0d450d72c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:30 +0000
Subject: [PATCH 13/51] fix: slice equality helpers compare lengths

A shorter first operand compared equal to any extension of itself and a longer one panicked, so Parameters.Equals could accept different moduli chains.
---
 utils/utils.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/utils/utils.go b/utils/utils.go
index daa82d8..a35326c 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -48,6 +48,9 @@ func RandComplex128(min, max float64) complex128 {
 
 // EqualSliceUint64 checks the equality between two uint64 slices.
 func EqualSliceUint64(a, b []uint64) (v bool) {
+	if len(a) != len(b) {
+		return false
+	}
 	v = true
 	for i := range a {
 		v = v && (a[i] == b[i])
@@ -57,6 +60,9 @@ func EqualSliceUint64(a, b []uint64) (v bool) {
 
 // EqualSliceInt64 checks the equality between two int64 slices.
 func EqualSliceInt64(a, b []int64) (v bool) {
+	if len(a) != len(b) {
+		return false
+	}
 	v = true
 	for i := range a {
 		v = v && (a[i] == b[i])
@@ -66,6 +72,9 @@ func EqualSliceInt64(a, b []int64) (v bool) {
 
 // EqualSliceUint8 checks the equality between two uint8 slices.
 func EqualSliceUint8(a, b []uint8) (v bool) {
+	if len(a) != len(b) {
+		return false
+	}
 	v = true
 	for i := range a {
 		v = v && (a[i] == b[i])
-- 
2.43.0


From 9e1120c8712df310f4416852f2d29b0ae6bdde4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:30 +0000
Subject: [PATCH 14/51] fix: slice rotations by zero return a new slice as
 documented

---
 utils/utils.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/utils/utils.go b/utils/utils.go
index a35326c..059d0e7 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -173,8 +173,8 @@ func AllDistinct(s []uint64) bool {
 
 // RotateUint64Slice returns a new slice corresponding to s rotated by k positions to the left.
 func RotateUint64Slice(s []uint64, k int) []uint64 {
-	if k == 0 || len(s) == 0 {
-		return s
+	if len(s) == 0 {
+		return nil
 	}
 	r := k % len(s)
 	if r < 0 {
@@ -188,8 +188,8 @@ func RotateUint64Slice(s []uint64, k int) []uint64 {
 
 // RotateInt64Slice returns a new slice corresponding to s rotated by k positions to the left.
 func RotateInt64Slice(s []int64, k int) []int64 {
-	if k == 0 || len(s) == 0 {
-		return s
+	if len(s) == 0 {
+		return nil
 	}
 	r := k % len(s)
 	if r < 0 {
@@ -213,8 +213,8 @@ func RotateUint64Slots(s []uint64, k int) []uint64 {
 
 // RotateComplex128Slice returns a new slice corresponding to s rotated by k positions to the left.
 func RotateComplex128Slice(s []complex128, k int) []complex128 {
-	if k == 0 || len(s) == 0 {
-		return s
+	if len(s) == 0 {
+		return nil
 	}
 	r := k % len(s)
 	if r < 0 {
@@ -228,8 +228,8 @@ func RotateComplex128Slice(s []complex128, k int) []complex128 {
 
 // RotateFloat64Slice returns a new slice corresponding to s rotated by k positions to the left.
 func RotateFloat64Slice(s []float64, k int) []float64 {
-	if k == 0 || len(s) == 0 {
-		return s
+	if len(s) == 0 {
+		return nil
 	}
 	r := k % len(s)
 	if r < 0 {
-- 
2.43.0


From c85cf0ffafc496602cd2d7932f5be5b975572ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:30 +0000
Subject: [PATCH 15/51] fix: polynomial decoding checks the input length and
 overwrites the whole receiver

Truncated data panicked, flags of the previous content survived, and a receiver with another number of moduli panicked or kept stale rows.
---
 ring/ring_poly.go | 59 +++++++++++++++++++++++------------------------
 1 file changed, 29 insertions(+), 30 deletions(-)

diff --git a/ring/ring_poly.go b/ring/ring_poly.go
index 8d88a9d..69845db 100644
--- a/ring/ring_poly.go
+++ b/ring/ring_poly.go
@@ -326,20 +326,12 @@ func (pol *Poly) MarshalBinary() (data []byte, err error) {
 // UnmarshalBinary decodes a slice of byte on the target polynomial.
 func (pol *Poly) UnmarshalBinary(data []byte) (err error) {
 
-	N := int(1 << data[0])
-	numberModulies := int(data[1])
-
-	if data[2] == 1 {
-		pol.IsNTT = true
-	}
-
-	if data[3] == 1 {
-		pol.IsMForm = true
+	N, numberModulies, err := decodePolyHeader(data, 8)
+	if err != nil {
+		return err
 	}
 
-	pointer := 4
-
-	if ((len(data) - pointer) >> 3) != N*numberModulies {
+	if ((len(data) - 4) >> 3) != N*numberModulies {
 		return errors.New("invalid polynomial encoding")
 	}
 
@@ -350,24 +342,34 @@ func (pol *Poly) UnmarshalBinary(data []byte) (err error) {
 	return nil
 }
 
+// decodePolyHeader reads the metadata of an encoded polynomial and checks that data is long
+// enough to contain its coefficients, each encoded on wordSize bytes.
+func decodePolyHeader(data []byte, wordSize int) (N, numberModuli int, err error) {
+	if len(data) < 4 || data[0] > 31 {
+		return 0, 0, errors.New("invalid polynomial encoding")
+	}
+	N, numberModuli = 1<<data[0], int(data[1])
+	if (len(data)-4)/wordSize < N*numberModuli {
+		return 0, 0, errors.New("invalid polynomial encoding")
+	}
+	return
+}
+
 // DecodePolyNew decodes a slice of bytes in the target polynomial returns the number of bytes
 // decoded.
 func (pol *Poly) DecodePolyNew(data []byte) (pointer int, err error) {
 
-	N := int(1 << data[0])
-	numberModulies := int(data[1])
-
-	if data[2] == 1 {
-		pol.IsNTT = true
+	N, numberModulies, err := decodePolyHeader(data, 8)
+	if err != nil {
+		return 0, err
 	}
 
-	if data[3] == 1 {
-		pol.IsMForm = true
-	}
+	pol.IsNTT = data[2] == 1
+	pol.IsMForm = data[3] == 1
 
 	pointer = 4
 
-	if pol.Coeffs == nil {
+	if len(pol.Coeffs) != numberModulies {
 		pol.Coeffs = make([][]uint64, numberModulies)
 	}
 
@@ -382,20 +384,17 @@ func (pol *Poly) DecodePolyNew(data []byte) (pointer int, err error) {
 // decoded.
 func (pol *Poly) DecodePolyNew32(data []byte) (pointer int, err error) {
 
-	N := int(1 << data[0])
-	numberModulies := int(data[1])
-
-	if data[2] == 1 {
-		pol.IsNTT = true
+	N, numberModulies, err := decodePolyHeader(data, 4)
+	if err != nil {
+		return 0, err
 	}
 
-	if data[3] == 1 {
-		pol.IsMForm = true
-	}
+	pol.IsNTT = data[2] == 1
+	pol.IsMForm = data[3] == 1
 
 	pointer = 4
 
-	if pol.Coeffs == nil {
+	if len(pol.Coeffs) != numberModulies {
 		pol.Coeffs = make([][]uint64, numberModulies)
 	}
 
-- 
2.43.0


From fa5766bf3dfe9d6a5df40898ba697a5bb8bba630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:12 +0000
Subject: [PATCH 16/51] fix: polynomial encoders write every metadata byte

WriteTo only set the flag bytes that are one, so writing into a used buffer encoded stale flags; PolyQP.WriteTo even dereferenced a missing component.
---
 ring/ring_poly.go | 4 ++++
 rlwe/ring_qp.go   | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/ring/ring_poly.go b/ring/ring_poly.go
index 69845db..3ba05c2 100644
--- a/ring/ring_poly.go
+++ b/ring/ring_poly.go
@@ -208,6 +208,8 @@ func (pol *Poly) WriteTo(data []byte) (int, error) {
 	}
 	data[0] = uint8(bits.Len64(uint64(N)) - 1)
 	data[1] = uint8(numberModuli)
+	data[2], data[3] = 0, 0
+
 	if pol.IsNTT {
 		data[2] = 1
 	}
@@ -234,6 +236,8 @@ func (pol *Poly) WriteTo32(data []byte) (int, error) {
 	}
 	data[0] = uint8(bits.Len64(uint64(N)) - 1)
 	data[1] = uint8(numberModuli)
+	data[2], data[3] = 0, 0
+
 	if pol.IsNTT {
 		data[2] = 1
 	}
diff --git a/rlwe/ring_qp.go b/rlwe/ring_qp.go
index 8756801..4b68392 100644
--- a/rlwe/ring_qp.go
+++ b/rlwe/ring_qp.go
@@ -17,6 +17,8 @@
 package rlwe
 
 import (
+	"errors"
+
 	"fast-ksw/ring"
 	"fast-ksw/utils"
 )
@@ -366,6 +368,12 @@ func (p *PolyQP) GetDataLen(WithMetadata bool) (dataLen int) {
 func (p *PolyQP) WriteTo(data []byte) (pt int, err error) {
 	var inc int
 
+	if len(data) < 2 {
+		return 0, errors.New("data array is too small to write PolyQP")
+	}
+
+	data[0], data[1] = 0, 0
+
 	if p.Q != nil {
 		data[0] = 1
 	}
-- 
2.43.0


From 30dbff3928261b1deef8daaa64e4b9250f5d76bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:12 +0000
Subject: [PATCH 17/51] fix: key decoding rejects truncated input instead of
 panicking

---
 rlwe/marshaler.go | 14 ++++++++++++--
 rlwe/ring_qp.go   |  6 ++++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/rlwe/marshaler.go b/rlwe/marshaler.go
index 5a177aa..8add205 100644
--- a/rlwe/marshaler.go
+++ b/rlwe/marshaler.go
@@ -188,6 +188,10 @@ func (rlk *RelinearizationKey) MarshalBinary() (data []byte, err error) {
 // UnmarshalBinary decodes a previously marshaled EvaluationKey in the target EvaluationKey.
 func (rlk *RelinearizationKey) UnmarshalBinary(data []byte) (err error) {
 
+	if len(data) < 1 {
+		return errors.New("too small bytearray")
+	}
+
 	deg := int(data[0])
 
 	rlk.Keys = make([]*SwitchingKey, deg)
@@ -271,6 +275,10 @@ func (swk *SwitchingKey) encode(pointer int, data []byte) (int, error) {
 
 func (swk *SwitchingKey) decode(data []byte) (pointer int, err error) {
 
+	if len(data) < 1 {
+		return 0, errors.New("too small bytearray")
+	}
+
 	decomposition := int(data[0])
 
 	pointer = 1
@@ -281,13 +289,11 @@ func (swk *SwitchingKey) decode(data []byte) (pointer int, err error) {
 
 	for j := 0; j < decomposition; j++ {
 
-		swk.Value[j][0].Q = new(ring.Poly)
 		if inc, err = swk.Value[j][0].DecodePolyNew(data[pointer:]); err != nil {
 			return
 		}
 		pointer += inc
 
-		swk.Value[j][1].P = new(ring.Poly)
 		if inc, err = swk.Value[j][1].DecodePolyNew(data[pointer:]); err != nil {
 			return
 		}
@@ -335,6 +341,10 @@ func (rtks *RotationKeySet) UnmarshalBinary(data []byte) (err error) {
 
 	for len(data) > 0 {
 
+		if len(data) < 4 {
+			return errors.New("too small bytearray")
+		}
+
 		galEl := uint64(binary.BigEndian.Uint32(data))
 		data = data[4:]
 
diff --git a/rlwe/ring_qp.go b/rlwe/ring_qp.go
index 4b68392..568a071 100644
--- a/rlwe/ring_qp.go
+++ b/rlwe/ring_qp.go
@@ -404,6 +404,12 @@ func (p *PolyQP) WriteTo(data []byte) (pt int, err error) {
 // DecodePolyNew decodes the input bytes on the target polyQP.
 func (p *PolyQP) DecodePolyNew(data []byte) (pt int, err error) {
 
+	if len(data) < 2 {
+		return 0, errors.New("too small bytearray")
+	}
+
+	p.Q, p.P = nil, nil
+
 	var inc int
 	pt = 2
 
-- 
2.43.0


From 08c77dab09caf6e1963585d31628b1c591e66060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:12 +0000
Subject: [PATCH 18/51] fix: rotation key sets are encoded in a deterministic
 order

---
 rlwe/marshaler.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/rlwe/marshaler.go b/rlwe/marshaler.go
index 8add205..c7aab3d 100644
--- a/rlwe/marshaler.go
+++ b/rlwe/marshaler.go
@@ -19,6 +19,7 @@ package rlwe
 import (
 	"encoding/binary"
 	"errors"
+	"sort"
 
 	"fast-ksw/ring"
 )
@@ -321,12 +322,18 @@ func (rtks *RotationKeySet) MarshalBinary() (data []byte, err error) {
 
 	pointer := int(0)
 
-	for galEL, key := range rtks.Keys {
+	galEls := make([]uint64, 0, len(rtks.Keys))
+	for galEl := range rtks.Keys {
+		galEls = append(galEls, galEl)
+	}
+	sort.Slice(galEls, func(i, j int) bool { return galEls[i] < galEls[j] })
+
+	for _, galEl := range galEls {
 
-		binary.BigEndian.PutUint32(data[pointer:pointer+4], uint32(galEL))
+		binary.BigEndian.PutUint32(data[pointer:pointer+4], uint32(galEl))
 		pointer += 4
 
-		if pointer, err = key.encode(pointer, data); err != nil {
+		if pointer, err = rtks.Keys[galEl].encode(pointer, data); err != nil {
 			return nil, err
 		}
 	}
-- 
2.43.0


From 6d6dc2359dfdb50ba39fcd7ece9ca8335b44358b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:12 +0000
Subject: [PATCH 19/51] fix: RotationsForInnerSumLog returns the rotations in a
 deterministic order

---
 ckks/params.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ckks/params.go b/ckks/params.go
index 95e2a9b..afe0dbb 100644
--- a/ckks/params.go
+++ b/ckks/params.go
@@ -23,6 +23,7 @@ import (
 	"math"
 	"math/big"
 	"math/bits"
+	"sort"
 
 	"fast-ksw/ring"
 	"fast-ksw/rlwe"
@@ -510,6 +511,7 @@ func (p Parameters) RotationsForInnerSumLog(batch, n int) (rotations []int) {
 		rotations[i] = j
 		i++
 	}
+	sort.Ints(rotations)
 
 	return
 }
-- 
2.43.0


From e073bcc3bbafdb91816837c0577719d3b68c7fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:12 +0000
Subject: [PATCH 20/51] fix: parameter decoding rejects truncated input and
 malformed JSON

---
 ckks/params.go | 7 ++++++-
 rlwe/params.go | 6 +++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/ckks/params.go b/ckks/params.go
index afe0dbb..89f25d8 100644
--- a/ckks/params.go
+++ b/ckks/params.go
@@ -585,6 +585,9 @@ func (p *Parameters) UnmarshalBinary(data []byte) (err error) {
 	if err := rlweParams.UnmarshalBinary(data); err != nil {
 		return err
 	}
+	if len(data) < rlweParams.MarshalBinarySize()+9 {
+		return fmt.Errorf("invalid ckks.Parameter serialization")
+	}
 	logSlots := int(data[len(data)-9])
 	scale := math.Float64frombits(binary.BigEndian.Uint64(data[len(data)-8:]))
 	*p, err = NewParameters(rlweParams, logSlots, scale)
@@ -604,7 +607,9 @@ func (p Parameters) MarshalJSON() ([]byte, error) {
 // UnmarshalJSON reads a JSON representation of a parameter set into the receiver Parameter. See `Unmarshal` from the `encoding/json` package.
 func (p *Parameters) UnmarshalJSON(data []byte) (err error) {
 	var params ParametersLiteral
-	json.Unmarshal(data, &params)
+	if err = json.Unmarshal(data, &params); err != nil {
+		return err
+	}
 	*p, err = NewParametersFromLiteral(params)
 	return
 }
diff --git a/rlwe/params.go b/rlwe/params.go
index 5c10865..97027b1 100644
--- a/rlwe/params.go
+++ b/rlwe/params.go
@@ -447,7 +447,7 @@ func (p Parameters) MarshalBinary() ([]byte, error) {
 
 // UnmarshalBinary decodes a []byte into a parameter set struct.
 func (p *Parameters) UnmarshalBinary(data []byte) error {
-	if len(data) < 11 {
+	if len(data) < 20 {
 		return fmt.Errorf("invalid rlwe.Parameter serialization")
 	}
 	b := utils.NewBuffer(data)
@@ -462,6 +462,10 @@ func (p *Parameters) UnmarshalBinary(data []byte) error {
 		return err
 	}
 
+	if len(b.Bytes()) < (lenQ+lenP)<<3 {
+		return fmt.Errorf("invalid rlwe.Parameter serialization")
+	}
+
 	qi := make([]uint64, lenQ)
 	pi := make([]uint64, lenP)
 	b.ReadUint64Slice(qi)
-- 
2.43.0


From 485eb94b1365026db3aca3d023e4cbe6e7ecaf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:12 +0000
Subject: [PATCH 21/51] fix: rlwe.Parameters JSON encoding includes the ring
 type

Conjugate-invariant parameters were silently decoded as standard ones.
---
 rlwe/params.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlwe/params.go b/rlwe/params.go
index 97027b1..003b6e3 100644
--- a/rlwe/params.go
+++ b/rlwe/params.go
@@ -483,7 +483,7 @@ func (p Parameters) MarshalBinarySize() int {
 
 // MarshalJSON returns a JSON representation of this parameter set. See `Marshal` from the `encoding/json` package.
 func (p Parameters) MarshalJSON() ([]byte, error) {
-	return json.Marshal(&ParametersLiteral{LogN: p.logN, Q: p.qi, P: p.pi, H: p.h, Sigma: p.sigma})
+	return json.Marshal(&ParametersLiteral{LogN: p.logN, Q: p.qi, P: p.pi, H: p.h, Sigma: p.sigma, RingType: p.ringType})
 }
 
 // UnmarshalJSON reads a JSON representation of a parameter set into the receiver Parameter. See `Unmarshal` from the `encoding/json` package.
-- 
2.43.0


From 48e03400b436bce54d497ce85495021a81b1ee7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:12 +0000
Subject: [PATCH 22/51] fix: NewParameters returns empty parameters with an
 error as documented

---
 rlwe/params.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rlwe/params.go b/rlwe/params.go
index 003b6e3..d9e650b 100644
--- a/rlwe/params.go
+++ b/rlwe/params.go
@@ -109,7 +109,11 @@ func NewParameters(logn int, q, p []uint64, h int, sigma float64, ringType ring.
 	copy(params.qi, q)
 	copy(params.pi, p)
 
-	return params, params.initRings()
+	if err = params.initRings(); err != nil {
+		return Parameters{}, err
+	}
+
+	return params, nil
 }
 
 // NewParametersFromLiteral instantiate a set of generic RLWE parameters from a ParametersLiteral specification.
-- 
2.43.0


From 0470166a5e80a205a5ecc94af11d7048cb050283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:12 +0000
Subject: [PATCH 23/51] fix: NewParametersFromLiteral reports an invalid LogN
 or ring type as an error

A literal with LogN unset panicked with a negative shift, also when decoded from JSON.
---
 rlwe/params.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rlwe/params.go b/rlwe/params.go
index d9e650b..06ca201 100644
--- a/rlwe/params.go
+++ b/rlwe/params.go
@@ -130,6 +130,10 @@ func NewParameters(logn int, q, p []uint64, h int, sigma float64, ringType ring.
 // If the RingType is left unset, the default value is ring.Standard.
 func NewParametersFromLiteral(paramDef ParametersLiteral) (Parameters, error) {
 
+	if err := checkSizeParams(paramDef.LogN, len(paramDef.Q), len(paramDef.P)); err != nil {
+		return Parameters{}, err
+	}
+
 	if paramDef.H == 0 {
 		paramDef.H = 1 << (paramDef.LogN - 1)
 	}
@@ -152,7 +156,7 @@ func NewParametersFromLiteral(paramDef ParametersLiteral) (Parameters, error) {
 		case ring.ConjugateInvariant:
 			q, p, err = GenModuli(paramDef.LogN+1, paramDef.LogQ, paramDef.LogP)
 		default:
-			panic("invalid ring type")
+			return Parameters{}, fmt.Errorf("invalid ring type")
 		}
 		if err != nil {
 			return Parameters{}, err
-- 
2.43.0


From 2d7ae20390e6f814abff13da7d91403b57923904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:12 +0000
Subject: [PATCH 24/51] fix: CheckModuli enforces the same size limits as
 checkModuliLogSize

Explicit moduli could be one bit larger than the limit the error message and the LogQ/LogP literals state.
---
 rlwe/params.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rlwe/params.go b/rlwe/params.go
index 06ca201..1786b16 100644
--- a/rlwe/params.go
+++ b/rlwe/params.go
@@ -516,14 +516,14 @@ func CheckModuli(q, p []uint64) error {
 	}
 
 	for i, qi := range q {
-		if uint64(bits.Len64(qi)-1) > MaxModuliSize+1 {
+		if bits.Len64(qi)-1 > MaxModuliSize {
 			return fmt.Errorf("a Qi bit-size (i=%d) is larger than %d", i, MaxModuliSize)
 		}
 	}
 
 	for i, pi := range p {
-		if uint64(bits.Len64(pi)-1) > MaxModuliSize+2 {
-			return fmt.Errorf("a Pi bit-size (i=%d) is larger than %d", i, MaxModuliSize)
+		if bits.Len64(pi)-1 > MaxModuliSize+1 {
+			return fmt.Errorf("a Pi bit-size (i=%d) is larger than %d", i, MaxModuliSize+1)
 		}
 	}
 
-- 
2.43.0


From e5a3ed24a3f591b88febe49f53d1ad3e9d4cfda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:12 +0000
Subject: [PATCH 25/51] fix: CheckModuli rejects a modulus used in both Q and P

---
 rlwe/params.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rlwe/params.go b/rlwe/params.go
index 1786b16..f491bd1 100644
--- a/rlwe/params.go
+++ b/rlwe/params.go
@@ -527,6 +527,10 @@ func CheckModuli(q, p []uint64) error {
 		}
 	}
 
+	if !utils.AllDistinct(append(append([]uint64{}, q...), p...)) {
+		return fmt.Errorf("moduli of Q and P are not distinct")
+	}
+
 	for i, qi := range q {
 		if !ring.IsPrime(qi) {
 			return fmt.Errorf("a Qi (i=%d) is not a prime", i)
-- 
2.43.0


From 642e0e2f2dfe0837a0ace2f3ecd1497a41e5b954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:12 +0000
Subject: [PATCH 26/51] fix: Parameters.CopyNew does not ignore ring
 construction errors

---
 rlwe/params.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rlwe/params.go b/rlwe/params.go
index f491bd1..3509247 100644
--- a/rlwe/params.go
+++ b/rlwe/params.go
@@ -419,10 +419,9 @@ func (p Parameters) CopyNew() Parameters {
 	qi, pi := p.qi, p.pi
 	p.qi, p.pi = make([]uint64, len(p.qi)), make([]uint64, len(p.pi))
 	copy(p.qi, qi)
-	p.ringQ, _ = ring.NewRingFromType(1<<p.logN, p.qi, p.ringType)
-	if len(p.pi) > 0 {
-		copy(p.pi, pi)
-		p.ringP, _ = ring.NewRingFromType(1<<p.logN, p.pi, p.ringType)
+	copy(p.pi, pi)
+	if err := p.initRings(); err != nil {
+		panic(err)
 	}
 	return p
 }
-- 
2.43.0


From e25d2639318b672927f654169b4102439faef412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:12 +0000
Subject: [PATCH 27/51] fix: Ring.UnmarshalBinary restores the transform of the
 ring

A decoded ring had a nil NumberTheoreticTransformer and panicked on its first NTT.
---
 ring/ring.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ring/ring.go b/ring/ring.go
index 5d88e78..661d3e0 100644
--- a/ring/ring.go
+++ b/ring/ring.go
@@ -376,6 +376,16 @@ func (r *Ring) UnmarshalBinary(data []byte) error {
 	if err := r.setParameters(parameters.N, parameters.Modulus); err != nil {
 		return err
 	}
+
+	switch parameters.NthRoot {
+	case uint64(r.N) << 1:
+		r.NumberTheoreticTransformer = NumberTheoreticTransformerStandard{}
+	case uint64(r.N) << 2:
+		r.NumberTheoreticTransformer = NumberTheoreticTransformerConjugateInvariant{}
+	default:
+		return errors.New("invalid ring encoding")
+	}
+
 	if err := r.genNTTParams(parameters.NthRoot); err != nil {
 		return err
 	}
-- 
2.43.0


From 461b6052ca5db4b25cbb48a138553d03071fb3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:05 +0000
Subject: [PATCH 28/51] fix: MulAndAdd and MulRelinAndAdd add both cross terms
 of the product

---
 ckks/evaluator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 546ef6e..b35c368 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1296,7 +1296,7 @@ func (eval *evaluator) mulRelinAndAdd(op0, op1 Operand, relin bool, ctOut *Ciphe
 
 		ringQ.MulCoeffsMontgomeryAndAddLvl(level, c00, tmp1.Value[0], c0) // c0 = c[0]*c[0]
 		ringQ.MulCoeffsMontgomeryAndAddLvl(level, c00, tmp1.Value[1], c1) // c1 = c[0]*c[1]
-		ringQ.MulCoeffsMontgomeryAndAddLvl(level, c00, tmp1.Value[1], c1) // c1 = c[0]*c[1]
+		ringQ.MulCoeffsMontgomeryAndAddLvl(level, c01, tmp1.Value[0], c1) // c1 = c[1]*c[0]
 
 		if relin {
 			c2.IsNTT = true
-- 
2.43.0


From a7e65cc2daa6c24ee1fc2265578af05f73dea374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:05 +0000
Subject: [PATCH 29/51] fix: in-place rotation and conjugation read the input
 before overwriting it

---
 ckks/evaluator.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index b35c368..ca2b9fa 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1460,10 +1460,11 @@ func (eval *evaluator) permuteNTT(ct0 *Ciphertext, galEl uint64, ctOut *Cipherte
 
 	ringQ.InvNTTLvl(level, ct0.Value[1], pool2Q)
 	pool2Q.IsNTT = false
-	eval.SwitchKeysInPlace(level, pool2Q, rtk, ctOut.Value[0], ctOut.Value[1])
+	// ctOut can be ct0, whose value is still needed
+	eval.SwitchKeysInPlace(level, pool2Q, rtk, pool3Q, eval.Pool[3].Q)
 
-	ringQ.NTTLvl(level, ctOut.Value[0], pool2Q)
-	ringQ.NTTLvl(level, ctOut.Value[1], pool3Q)
+	ringQ.NTTLvl(level, pool3Q, pool2Q)
+	ringQ.NTTLvl(level, eval.Pool[3].Q, pool3Q)
 
 	ringQ.AddLvl(level, pool2Q, ct0.Value[0], pool2Q)
 
-- 
2.43.0


From 02ed6cfff79361f1648626e0f3dff28da7225934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:05 +0000
Subject: [PATCH 30/51] fix: MulRelin returns fully reduced residues

---
 ckks/evaluator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index ca2b9fa..5dbf10e 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1195,8 +1195,8 @@ func (eval *evaluator) mulRelin(op0, op1 Operand, relin bool, ctOut *Ciphertext)
 			eval.RingQ().InvNTTLvl(level, c2, c2)
 			eval.SwitchKeysInPlace(level, c2, eval.rlk.Keys[0], eval.Pool[1].Q, eval.Pool[2].Q)
 
-			ringQ.NTTLazyLvl(level, eval.Pool[1].Q, eval.Pool[1].Q)
-			ringQ.NTTLazyLvl(level, eval.Pool[2].Q, eval.Pool[2].Q)
+			ringQ.NTTLvl(level, eval.Pool[1].Q, eval.Pool[1].Q)
+			ringQ.NTTLvl(level, eval.Pool[2].Q, eval.Pool[2].Q)
 
 			ringQ.AddLvl(level, c0, eval.Pool[1].Q, ctOut.Value[0])
 			ringQ.AddLvl(level, c1, eval.Pool[2].Q, ctOut.Value[1])
-- 
2.43.0


From d0f37a98360714d693f0c008c4ffeb1876acd04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:05 +0000
Subject: [PATCH 31/51] fix: Rescale stops when the output level is zero

---
 ckks/evaluator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 5dbf10e..da4d692 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1076,7 +1076,7 @@ func (eval *evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 	var nbRescales int
 	// Divides the scale by each moduli of the modulus chain as long as the scale isn't smaller than minScale/2
 	// or until the output Level() would be zero
-	for ctOut.Scale/float64(ringQ.Modulus[ctIn.Level()-nbRescales]) >= minScale/2 && ctIn.Level()-nbRescales >= 0 {
+	for ctIn.Level()-nbRescales > 0 && ctOut.Scale/float64(ringQ.Modulus[ctIn.Level()-nbRescales]) >= minScale/2 {
 		ctOut.Scale /= (float64(ringQ.Modulus[ctIn.Level()-nbRescales]))
 		nbRescales++
 	}
-- 
2.43.0


From adc0cc39e89fb8814893a1f0a69e126a499475d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:05 +0000
Subject: [PATCH 32/51] fix: AddConst writes every component of a receiver
 distinct from its input

---
 ckks/evaluator.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index da4d692..33523bc 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -528,6 +528,10 @@ func (eval *evaluator) getConstAndScale(level int, constant interface{}) (cReal,
 // AddConst adds the input constant (which can be a uint64, int64, float64 or complex128) to ct0 and returns the result in ctOut.
 func (eval *evaluator) AddConst(ct0 *Ciphertext, constant interface{}, ctOut *Ciphertext) {
 
+	if ct0.Degree() != ctOut.Degree() {
+		panic("cannot AddConst: invalid receiver Ciphertext does not match input Ciphertext degree")
+	}
+
 	var level = utils.MinInt(ct0.Level(), ctOut.Level())
 	var scaledConst, scaledConstReal, scaledConstImag, qi uint64
 
@@ -566,6 +570,11 @@ func (eval *evaluator) AddConst(ct0 *Ciphertext, constant interface{}, ctOut *Ci
 
 		ring.AddScalarVec(p0tmp[ringQ.N>>1:], p1tmp[ringQ.N>>1:], scaledConst, qi)
 	}
+
+	// The other components are left unchanged by the addition
+	for i := 1; i < len(ct0.Value); i++ {
+		ring.CopyValuesLvl(level, ct0.Value[i], ctOut.Value[i])
+	}
 }
 
 // MultByConstAndAdd multiplies ct0 by the input constant, and adds it to the receiver element (it does not modify the input
-- 
2.43.0


From 01c7189a118e6eeafda30d989d157ff1a8375874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:05 +0000
Subject: [PATCH 33/51] fix: constants of unsupported types are reported
 instead of treated as zero

---
 ckks/evaluator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 33523bc..d2f00a7 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -516,6 +516,9 @@ func (eval *evaluator) getConstAndScale(level int, constant interface{}) (cReal,
 	case int:
 		cReal = float64(constant)
 		cImag = float64(0)
+
+	default:
+		panic("constant.(type) must be complex128, float64, uint64, int64 or int")
 	}
 
 	if eval.params.RingType() == ring.ConjugateInvariant {
-- 
2.43.0


From b614174973aba1e485fa61b6edd5e8ae0d4b18fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:05 +0000
Subject: [PATCH 34/51] fix: MultByiNew and DivByiNew keep the degree of their
 input

---
 ckks/evaluator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index d2f00a7..fa0566d 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -862,7 +862,7 @@ func (eval *evaluator) MultByiNew(ct0 *Ciphertext) (ctOut *Ciphertext) {
 		panic("method MultByi is not supported when params.RingType() == ring.ConjugateInvariant")
 	}
 
-	ctOut = NewCiphertext(eval.params, 1, ct0.Level(), ct0.Scale)
+	ctOut = NewCiphertext(eval.params, ct0.Degree(), ct0.Level(), ct0.Scale)
 	eval.MultByi(ct0, ctOut)
 	return ctOut
 }
@@ -914,7 +914,7 @@ func (eval *evaluator) DivByiNew(ct0 *Ciphertext) (ctOut *Ciphertext) {
 		panic("method DivByi is not supported when params.RingType() == ring.ConjugateInvariant")
 	}
 
-	ctOut = NewCiphertext(eval.params, 1, ct0.Level(), ct0.Scale)
+	ctOut = NewCiphertext(eval.params, ct0.Degree(), ct0.Level(), ct0.Scale)
 	eval.DivByi(ct0, ctOut)
 	return
 }
-- 
2.43.0


From c07cf134dd324d5b9f0ac7ebd665142207cbd062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:40 +0000
Subject: [PATCH 35/51] fix: unary evaluator operations drop a receiver of
 higher level to the level of the result

---
 ckks/evaluator.go | 43 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index fa0566d..6a6051e 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -351,11 +351,11 @@ func (eval *evaluator) evaluateInPlace(c0, c1, ctOut Operand, evaluate func(int,
 
 			tmp1 = eval.ctxpool.El()
 
-			eval.MultByConst(&Ciphertext{c1.El(), c1Scale}, math.Floor(c0Scale/c1Scale), &Ciphertext{tmp1, ctOutScale})
+			eval.multByConst(&Ciphertext{c1.El(), c1Scale}, math.Floor(c0Scale/c1Scale), &Ciphertext{tmp1, ctOutScale})
 
 		} else if c1Scale > c0Scale && math.Floor(c1Scale/c0Scale) > 1 {
 
-			eval.MultByConst(&Ciphertext{c0.El(), c0Scale}, math.Floor(c1Scale/c0Scale), &Ciphertext{c0.El(), c0Scale})
+			eval.multByConst(&Ciphertext{c0.El(), c0Scale}, math.Floor(c1Scale/c0Scale), &Ciphertext{c0.El(), c0Scale})
 
 			ctOut.SetScalingFactor(c1Scale)
 
@@ -374,11 +374,11 @@ func (eval *evaluator) evaluateInPlace(c0, c1, ctOut Operand, evaluate func(int,
 
 			tmp0 = eval.ctxpool.El()
 
-			eval.MultByConst(&Ciphertext{c0.El(), c0Scale}, math.Floor(c1Scale/c0Scale), &Ciphertext{tmp0, ctOutScale})
+			eval.multByConst(&Ciphertext{c0.El(), c0Scale}, math.Floor(c1Scale/c0Scale), &Ciphertext{tmp0, ctOutScale})
 
 		} else if c0Scale > c1Scale && math.Floor(c0Scale/c1Scale) > 1 {
 
-			eval.MultByConst(&Ciphertext{c1.El(), c1Scale}, math.Floor(c0Scale/c1Scale), &Ciphertext{ctOut.El(), ctOutScale})
+			eval.multByConst(&Ciphertext{c1.El(), c1Scale}, math.Floor(c0Scale/c1Scale), &Ciphertext{ctOut.El(), ctOutScale})
 
 			ctOut.SetScalingFactor(c0Scale)
 
@@ -397,7 +397,7 @@ func (eval *evaluator) evaluateInPlace(c0, c1, ctOut Operand, evaluate func(int,
 
 			tmp0 = eval.ctxpool.El()
 
-			eval.MultByConst(&Ciphertext{c0.El(), c0Scale}, math.Floor(c1Scale/c0Scale), &Ciphertext{tmp0, ctOutScale})
+			eval.multByConst(&Ciphertext{c0.El(), c0Scale}, math.Floor(c1Scale/c0Scale), &Ciphertext{tmp0, ctOutScale})
 
 			tmp1 = c1.El()
 
@@ -405,7 +405,7 @@ func (eval *evaluator) evaluateInPlace(c0, c1, ctOut Operand, evaluate func(int,
 
 			tmp1 = eval.ctxpool.El()
 
-			eval.MultByConst(&Ciphertext{c1.El(), c1Scale}, math.Floor(c0Scale/c1Scale), &Ciphertext{tmp1, ctOutScale})
+			eval.multByConst(&Ciphertext{c1.El(), c1Scale}, math.Floor(c0Scale/c1Scale), &Ciphertext{tmp1, ctOutScale})
 
 			tmp0 = c0.El()
 
@@ -444,6 +444,8 @@ func (eval *evaluator) Neg(ct0 *Ciphertext, ctOut *Ciphertext) {
 		panic("cannot Negate: invalid receiver Ciphertext does not match input Ciphertext degree")
 	}
 
+	eval.dropToLevel(ctOut, level)
+
 	for i := range ct0.Value {
 		eval.params.RingQ().NegLvl(level, ct0.Value[i], ctOut.Value[i])
 	}
@@ -536,6 +538,7 @@ func (eval *evaluator) AddConst(ct0 *Ciphertext, constant interface{}, ctOut *Ci
 	}
 
 	var level = utils.MinInt(ct0.Level(), ctOut.Level())
+	eval.dropToLevel(ctOut, level)
 	var scaledConst, scaledConstReal, scaledConstImag, qi uint64
 
 	cReal, cImag, _ := eval.getConstAndScale(level, constant)
@@ -700,6 +703,13 @@ func (eval *evaluator) MultByConstNew(ct0 *Ciphertext, constant interface{}) (ct
 // needs to be scaled (its rational part is not zero)). The constant can be a uint64, int64, float64 or complex128.
 func (eval *evaluator) MultByConst(ct0 *Ciphertext, constant interface{}, ctOut *Ciphertext) {
 
+	eval.dropToLevel(ctOut, utils.MinInt(ct0.Level(), ctOut.Level()))
+	eval.multByConst(ct0, constant, ctOut)
+}
+
+// multByConst is MultByConst without dropping the level of ctOut, which can be larger than the level of ct0.
+func (eval *evaluator) multByConst(ct0 *Ciphertext, constant interface{}, ctOut *Ciphertext) {
+
 	var level = utils.MinInt(ct0.Level(), ctOut.Level())
 
 	cReal, cImag, scale := eval.getConstAndScale(level, constant)
@@ -761,6 +771,7 @@ func (eval *evaluator) MultByGaussianInteger(ct0 *Ciphertext, cReal, cImag inter
 	ringQ := eval.params.RingQ()
 
 	level := utils.MinInt(ct0.Level(), ctOut.Level())
+	eval.dropToLevel(ctOut, level)
 	var scaledConst, scaledConstReal, scaledConstImag uint64
 
 	ctOut.Scale = ct0.Scale
@@ -812,6 +823,7 @@ func (eval *evaluator) MultByGaussianIntegerAndAdd(ct0 *Ciphertext, cReal, cImag
 	ringQ := eval.params.RingQ()
 
 	level := utils.MinInt(ct0.Level(), ctOut.Level())
+	eval.dropToLevel(ctOut, level)
 	var scaledConst, scaledConstReal, scaledConstImag uint64
 
 	for i := 0; i < level+1; i++ {
@@ -876,6 +888,7 @@ func (eval *evaluator) MultByi(ct0 *Ciphertext, ctOut *Ciphertext) {
 	}
 
 	var level = utils.MinInt(ct0.Level(), ctOut.Level())
+	eval.dropToLevel(ctOut, level)
 	ctOut.Scale = ct0.Scale
 
 	ringQ := eval.params.RingQ()
@@ -928,6 +941,7 @@ func (eval *evaluator) DivByi(ct0 *Ciphertext, ctOut *Ciphertext) {
 	}
 
 	var level = utils.MinInt(ct0.Level(), ctOut.Level())
+	eval.dropToLevel(ctOut, level)
 
 	ringQ := eval.params.RingQ()
 
@@ -993,6 +1007,7 @@ func (eval *evaluator) MulByPow2New(ct0 *Ciphertext, pow2 int) (ctOut *Ciphertex
 // MulByPow2 multiplies ct0 by 2^pow2 and returns the result in ctOut.
 func (eval *evaluator) MulByPow2(ct0 *Ciphertext, pow2 int, ctOut *Ciphertext) {
 	var level = utils.MinInt(ct0.Level(), ctOut.Level())
+	eval.dropToLevel(ctOut, level)
 	ctOut.Scale = ct0.Scale
 	for i := range ctOut.Value {
 		eval.params.RingQ().MulByPow2Lvl(level, ct0.Value[i], pow2, ctOut.Value[i])
@@ -1018,8 +1033,11 @@ func (eval *evaluator) Reduce(ct0 *Ciphertext, ctOut *Ciphertext) error {
 		return errors.New("cannot Reduce: degrees of receiver Ciphertext and input Ciphertext do not match")
 	}
 
+	level := utils.MinInt(ct0.Level(), ctOut.Level())
+	eval.dropToLevel(ctOut, level)
+
 	for i := range ct0.Value {
-		eval.params.RingQ().ReduceLvl(utils.MinInt(ct0.Level(), ctOut.Level()), ct0.Value[i], ctOut.Value[i])
+		eval.params.RingQ().ReduceLvl(level, ct0.Value[i], ctOut.Value[i])
 	}
 
 	ctOut.Scale = ct0.Scale
@@ -1044,6 +1062,13 @@ func (eval *evaluator) DropLevel(ct0 *Ciphertext, levels int) {
 	}
 }
 
+// dropToLevel drops the level of ct0 to level if it is larger.
+func (eval *evaluator) dropToLevel(ct0 *Ciphertext, level int) {
+	if ct0.Level() > level {
+		eval.DropLevel(ct0, ct0.Level()-level)
+	}
+}
+
 // RescaleNew divides ct0 by the last modulus in the moduli chain, and repeats this
 // procedure (consuming one level each time) until the scale reaches the original scale or before it goes below it, and returns the result
 // in a newly created element. Since all the moduli in the moduli chain are generated to be close to the
@@ -1101,6 +1126,7 @@ func (eval *evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 		}
 	} else {
 		if ctIn != ctOut {
+			eval.dropToLevel(ctOut, utils.MinInt(ctIn.Level(), ctOut.Level()))
 			ctOut.Copy(ctIn)
 		}
 	}
@@ -1389,6 +1415,7 @@ func (eval *evaluator) SwitchKeys(ct0 *Ciphertext, switchingKey *rlwe.SwitchingK
 	}
 
 	level := utils.MinInt(ct0.Level(), ctOut.Level())
+	eval.dropToLevel(ctOut, level)
 	ringQ := eval.params.RingQ()
 
 	ctOut.Scale = ct0.Scale
@@ -1416,6 +1443,7 @@ func (eval *evaluator) Rotate(ct0 *Ciphertext, k int, ctOut *Ciphertext) {
 	}
 
 	if k == 0 {
+		eval.dropToLevel(ctOut, utils.MinInt(ct0.Level(), ctOut.Level()))
 		ctOut.Copy(ct0)
 	} else {
 
@@ -1466,6 +1494,7 @@ func (eval *evaluator) permuteNTT(ct0 *Ciphertext, galEl uint64, ctOut *Cipherte
 	}
 
 	level := utils.MinInt(ct0.Level(), ctOut.Level())
+	eval.dropToLevel(ctOut, level)
 	pool2Q := eval.Pool[1].Q
 	pool3Q := eval.Pool[2].Q
 	ringQ := eval.params.RingQ()
-- 
2.43.0


From 3334e4ce98562279602092deb58f1202dc35c910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:05 +0000
Subject: [PATCH 36/51] fix: Embed records that its result is in the NTT domain

---
 ckks/encoder.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ckks/encoder.go b/ckks/encoder.go
index 949391c..b795695 100644
--- a/ckks/encoder.go
+++ b/ckks/encoder.go
@@ -424,9 +424,11 @@ func (ecd *encoderComplex128) Embed(values interface{}, logSlots int, scale floa
 		complexToFixedPointCRT(p.P.Level(), ecd.values[:slots], scale, ecd.params.RingP(), p.P.Coeffs, isRingStandard)
 		NttAndMontgomeryLvl(p.Q.Level(), logSlots, ecd.params.RingQ(), montgomery, p.Q)
 		NttAndMontgomeryLvl(p.P.Level(), logSlots, ecd.params.RingP(), montgomery, p.P)
+		p.Q.IsNTT, p.P.IsNTT = true, true
 	case *ring.Poly:
 		complexToFixedPointCRT(p.Level(), ecd.values[:slots], scale, ecd.params.RingQ(), p.Coeffs, isRingStandard)
 		NttAndMontgomeryLvl(p.Level(), logSlots, ecd.params.RingQ(), montgomery, p)
+		p.IsNTT = true
 	default:
 		panic("invalid polyOut.(Type) must be rlwe.PolyQP or *ring.Poly")
 	}
-- 
2.43.0


From 2e667119ae2f19171e1d6eff5ac3db31a4d44e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:05 +0000
Subject: [PATCH 37/51] fix: EncodeCoeffs zeroes the coefficients beyond the
 encoded values

---
 ckks/encoder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ckks/encoder.go b/ckks/encoder.go
index b795695..5824b4b 100644
--- a/ckks/encoder.go
+++ b/ckks/encoder.go
@@ -261,6 +261,12 @@ func (ecd *encoderComplex128) EncodeCoeffs(values []float64, plaintext *Plaintex
 		panic("cannot EncodeCoeffs : too many values (maximum is N)")
 	}
 	floatToFixedPointCRT(plaintext.Level(), values, plaintext.Scale, ecd.params.RingQ(), plaintext.Value.Coeffs)
+	for i := range plaintext.Value.Coeffs {
+		tail := plaintext.Value.Coeffs[i][len(values):]
+		for j := range tail {
+			tail[j] = 0
+		}
+	}
 	ecd.params.RingQ().NTTLvl(plaintext.Level(), plaintext.Value, plaintext.Value)
 	plaintext.Value.IsNTT = true
 }
-- 
2.43.0


From 5cf8c08e211ededbcca8f5064d60799791de4fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:05 +0000
Subject: [PATCH 38/51] fix: the high-precision decoder honours the
 representation of its plaintext

---
 ckks/encoder.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ckks/encoder.go b/ckks/encoder.go
index 5824b4b..8546b3f 100644
--- a/ckks/encoder.go
+++ b/ckks/encoder.go
@@ -841,7 +841,11 @@ func (ecd *encoderBigComplex) decodePublic(plaintext *Plaintext, logSlots int, s
 		panic("cannot Decode: too many slots for the given ring degree")
 	}
 
-	ecd.params.RingQ().InvNTTLvl(plaintext.Level(), plaintext.Value, ecd.polypool)
+	if plaintext.Value.IsNTT {
+		ecd.params.RingQ().InvNTTLvl(plaintext.Level(), plaintext.Value, ecd.polypool)
+	} else {
+		ring.CopyValuesLvl(plaintext.Level(), plaintext.Value, ecd.polypool)
+	}
 
 	if sigma != 0 {
 		// B = floor(sigma * sqrt(2*pi))
-- 
2.43.0


From cfba4d77444bba4a2660bff94e159535698f9a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:05 +0000
Subject: [PATCH 39/51] fix: Decrypt reduces its result after the last addition

---
 rlwe/decryptor.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/rlwe/decryptor.go b/rlwe/decryptor.go
index aa4d4c8..05a7374 100644
--- a/rlwe/decryptor.go
+++ b/rlwe/decryptor.go
@@ -82,9 +82,7 @@ func (d *decryptor) Decrypt(ciphertext *Ciphertext, plaintext *Plaintext) {
 		}
 	}
 
-	if (ciphertext.Degree())&7 != 7 {
-		ringQ.ReduceLvl(level, plaintext.Value, plaintext.Value)
-	}
+	ringQ.ReduceLvl(level, plaintext.Value, plaintext.Value)
 
 	if !plaintext.Value.IsNTT {
 		ringQ.InvNTTLvl(level, plaintext.Value, plaintext.Value)
-- 
2.43.0


From 713a165e69598d50ec0f6054bd777f528abc079d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:05 +0000
Subject: [PATCH 40/51] fix: encryption samples errors at the level of the
 result

---
 rlwe/encryptor.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rlwe/encryptor.go b/rlwe/encryptor.go
index 92939cc..a1f19a5 100644
--- a/rlwe/encryptor.go
+++ b/rlwe/encryptor.go
@@ -320,10 +320,10 @@ func (enc *pkEncryptor) encryptNoP(plaintext *Plaintext, ciphertext *Ciphertext)
 		ringQ.InvNTTLvl(levelQ, ciphertext.Value[1], ciphertext.Value[1])
 
 		// ct[0] = pk[0]*u + e0
-		enc.gaussianSampler.ReadAndAddLvl(ciphertext.Level(), ciphertext.Value[0])
+		enc.gaussianSampler.ReadAndAddLvl(levelQ, ciphertext.Value[0])
 
 		// ct[1] = pk[1]*u + e1
-		enc.gaussianSampler.ReadAndAddLvl(ciphertext.Level(), ciphertext.Value[1])
+		enc.gaussianSampler.ReadAndAddLvl(levelQ, ciphertext.Value[1])
 
 		if !plaintext.Value.IsNTT {
 			ringQ.AddLvl(levelQ, ciphertext.Value[0], plaintext.Value, ciphertext.Value[0])
@@ -380,7 +380,7 @@ func (enc *skEncryptor) encrypt(plaintext *Plaintext, ciphertext *Ciphertext) {
 			ringQ.AddLvl(levelQ, ciphertext.Value[0], plaintext.Value, ciphertext.Value[0])
 		}
 
-		enc.gaussianSampler.ReadAndAddLvl(ciphertext.Level(), ciphertext.Value[0])
+		enc.gaussianSampler.ReadAndAddLvl(levelQ, ciphertext.Value[0])
 
 		ringQ.InvNTTLvl(levelQ, ciphertext.Value[1], ciphertext.Value[1])
 
-- 
2.43.0


From 856ea731f08184d8d745b91afa38b9610f8497d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:05 +0000
Subject: [PATCH 41/51] fix: key switching of the fast evaluator works on
 ciphertexts in the NTT domain

---
 fckks/evaluator.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/fckks/evaluator.go b/fckks/evaluator.go
index eb99bcf..f9e1163 100644
--- a/fckks/evaluator.go
+++ b/fckks/evaluator.go
@@ -102,7 +102,16 @@ func (eval *Evaluator) SwitchKeys(ct0 *ckks.Ciphertext, swk [2]*frlwe.SwitchingK
 
 	ctOut.Scale = ct0.Scale
 
-	eval.ksw.SwitchKey(level, ct0.Value[1], swk[0], swk[1], eval.polyQPool[1], eval.polyQPool[2])
+	if ctOut.Level() > level {
+		eval.DropLevel(ctOut, ctOut.Level()-level)
+	}
+
+	ringQ.InvNTTLvl(level, ct0.Value[1], eval.polyQPool[0])
+
+	eval.ksw.SwitchKey(level, eval.polyQPool[0], swk[0], swk[1], eval.polyQPool[1], eval.polyQPool[2])
+
+	ringQ.NTTLvl(level, eval.polyQPool[1], eval.polyQPool[1])
+	ringQ.NTTLvl(level, eval.polyQPool[2], eval.polyQPool[2])
 
 	ringQ.AddLvl(level, ct0.Value[0], eval.polyQPool[1], ctOut.Value[0])
 	ring.CopyValuesLvl(level, eval.polyQPool[2], ctOut.Value[1])
-- 
2.43.0


From 822a2d9612161b0405ed340b910deac51b8a8967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:06 +0000
Subject: [PATCH 42/51] fix: Rotate of the fast evaluator sets the scale and
 the level of its receiver

---
 fckks/evaluator.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/fckks/evaluator.go b/fckks/evaluator.go
index f9e1163..3cdf203 100644
--- a/fckks/evaluator.go
+++ b/fckks/evaluator.go
@@ -77,22 +77,29 @@ func (eval *Evaluator) RotateNew(ctIn *ckks.Ciphertext, rtk *frlwe.RotationKey)
 
 func (eval *Evaluator) Rotate(ctIn *ckks.Ciphertext, rtk *frlwe.RotationKey, ctOut *ckks.Ciphertext) {
 
+	level := utils.MinInt(ctIn.Level(), ctOut.Level())
 	ringQ := eval.params.RingQ()
 
-	ringQ.InvNTTLvl(ctOut.Level(), ctIn.Value[1], eval.polyQPool[0])
+	ctOut.Scale = ctIn.Scale
 
-	eval.ksw.SwitchKey(ctOut.Level(), eval.polyQPool[0], rtk.Value[0], rtk.Value[1], eval.polyQPool[1], eval.polyQPool[2])
+	if ctOut.Level() > level {
+		eval.DropLevel(ctOut, ctOut.Level()-level)
+	}
 
-	ringQ.NTTLvl(ctOut.Level(), eval.polyQPool[1], eval.polyQPool[1])
-	ringQ.NTTLvl(ctOut.Level(), eval.polyQPool[2], eval.polyQPool[2])
+	ringQ.InvNTTLvl(level, ctIn.Value[1], eval.polyQPool[0])
+
+	eval.ksw.SwitchKey(level, eval.polyQPool[0], rtk.Value[0], rtk.Value[1], eval.polyQPool[1], eval.polyQPool[2])
+
+	ringQ.NTTLvl(level, eval.polyQPool[1], eval.polyQPool[1])
+	ringQ.NTTLvl(level, eval.polyQPool[2], eval.polyQPool[2])
 
-	ringQ.AddLvl(ctOut.Level(), ctIn.Value[0], eval.polyQPool[1], eval.polyQPool[1])
+	ringQ.AddLvl(level, ctIn.Value[0], eval.polyQPool[1], eval.polyQPool[1])
 
 	// permute ctOut
 
 	galEl := eval.params.GaloisElementForColumnRotationBy(int(rtk.Rotidx))
-	ringQ.PermuteNTTLvl(ctOut.Level(), eval.polyQPool[1], galEl, ctOut.Value[0])
-	ringQ.PermuteNTTLvl(ctOut.Level(), eval.polyQPool[2], galEl, ctOut.Value[1])
+	ringQ.PermuteNTTLvl(level, eval.polyQPool[1], galEl, ctOut.Value[0])
+	ringQ.PermuteNTTLvl(level, eval.polyQPool[2], galEl, ctOut.Value[1])
 }
 
 func (eval *Evaluator) SwitchKeys(ct0 *ckks.Ciphertext, swk [2]*frlwe.SwitchingKey, ctOut *ckks.Ciphertext) {
-- 
2.43.0


From 58bb6ccd0fc435d68d14261f75466614e500fca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:06 +0000
Subject: [PATCH 43/51] fix: PreviousNTTPrime stops before wrapping around zero

---
 ring/primes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ring/primes.go b/ring/primes.go
index 532aa46..c8049ad 100644
--- a/ring/primes.go
+++ b/ring/primes.go
@@ -72,7 +72,7 @@ func PreviousNTTPrime(q uint64, NthRoot int) (qPrev uint64, err error) {
 
 	for !IsPrime(qPrev) {
 
-		if q < uint64(NthRoot) {
+		if qPrev < uint64(NthRoot) {
 			return 0, fmt.Errorf("previous NTT prime is smaller than NthRoot")
 		}
 
-- 
2.43.0


From e127b3fa83f384ecc898a98dac1e14f0097d9024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:06 +0000
Subject: [PATCH 44/51] fix: SwitchCiphertextRingDegree zeroes the coefficients
 between the embedded ones

---
 rlwe/elements.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rlwe/elements.go b/rlwe/elements.go
index b3ef2c0..ae4b45f 100644
--- a/rlwe/elements.go
+++ b/rlwe/elements.go
@@ -199,6 +199,11 @@ func SwitchCiphertextRingDegree(ctIn *Ciphertext, ctOut *Ciphertext) {
 	for i := range ctOut.Value {
 		for j := range ctOut.Value[i].Coeffs {
 			tmp0, tmp1 := ctOut.Value[i].Coeffs[j], ctIn.Value[i].Coeffs[j]
+			if gapIn != 1 {
+				for w := range tmp0 {
+					tmp0[w] = 0
+				}
+			}
 			for w0, w1 := 0, 0; w0 < NOut; w0, w1 = w0+gapIn, w1+gapOut {
 				tmp0[w0] = tmp1[w1]
 			}
-- 
2.43.0


From de50a5796ae8a97d0df61eb12f2e1f0d13b894a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:06 +0000
Subject: [PATCH 45/51] fix: ring degree switching records the representation
 of its result

---
 rlwe/elements.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rlwe/elements.go b/rlwe/elements.go
index ae4b45f..a460e37 100644
--- a/rlwe/elements.go
+++ b/rlwe/elements.go
@@ -175,10 +175,12 @@ func SwitchCiphertextRingDegreeNTT(ctIn *Ciphertext, ringQSmallDim, ringQLargeDi
 				}
 				ringQSmallDim.NTTSingle(j, tmpOut, tmpOut)
 			}
+			ctOut.Value[i].IsNTT = true
 		}
 	} else {
 		for i := range ctOut.Value {
 			ring.MapSmallDimensionToLargerDimensionNTT(ctIn.Value[i], ctOut.Value[i])
+			ctOut.Value[i].IsNTT = true
 		}
 	}
 }
@@ -208,6 +210,7 @@ func SwitchCiphertextRingDegree(ctIn *Ciphertext, ctOut *Ciphertext) {
 				tmp0[w0] = tmp1[w1]
 			}
 		}
+		ctOut.Value[i].IsNTT = ctIn.Value[i].IsNTT
 	}
 }
 
-- 
2.43.0


From 412b76a688e464a68ec2675664078b96af035188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:06 +0000
Subject: [PATCH 46/51] fix: the Gaussian sampler represents a negative zero by
 zero

---
 ring/ring_sampler_gaussian.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ring/ring_sampler_gaussian.go b/ring/ring_sampler_gaussian.go
index e789cf6..0d947ed 100644
--- a/ring/ring_sampler_gaussian.go
+++ b/ring/ring_sampler_gaussian.go
@@ -125,7 +125,7 @@ func (gaussianSampler *GaussianSampler) readLvl(level int, pol *Poly, ring *Ring
 		}
 
 		for j, qi := range modulus {
-			pol.Coeffs[j][i] = (coeffInt * sign) | (qi-coeffInt)*(sign^1)
+			pol.Coeffs[j][i] = CRed((coeffInt*sign)|(qi-coeffInt)*(sign^1), qi)
 		}
 	}
 }
-- 
2.43.0


From c1074e2bdbd38ddd55923565cc9abccc14cccb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:06 +0000
Subject: [PATCH 47/51] fix: negation represents zero by zero

---
 ring/conjugate_invariant.go |  2 +-
 ring/ring_automorphism.go   |  2 +-
 ring/ring_operations.go     |  4 ++--
 ring/ring_vector_ops.go     | 16 ++++++++--------
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/ring/conjugate_invariant.go b/ring/conjugate_invariant.go
index 0c6e267..15fd929 100644
--- a/ring/conjugate_invariant.go
+++ b/ring/conjugate_invariant.go
@@ -84,7 +84,7 @@ func PadDefaultRingToConjuateInvariant(p1 *Poly, ringQ *Ring, p2 *Poly) {
 		} else {
 			tmp[0] = 0
 			for j := 1; j < n; j++ {
-				tmp[n-j] = qi - tmp[j]
+				tmp[n-j] = CRed(qi-tmp[j], qi)
 			}
 		}
 	}
diff --git a/ring/ring_automorphism.go b/ring/ring_automorphism.go
index 2a68baa..bcdad33 100644
--- a/ring/ring_automorphism.go
+++ b/ring/ring_automorphism.go
@@ -148,7 +148,7 @@ func (r *Ring) Permute(polIn *Poly, gen uint64, polOut *Poly) {
 
 		for j, qi := range r.Modulus {
 
-			polOut.Coeffs[j][index] = polIn.Coeffs[j][i]*(tmp^1) | (qi-polIn.Coeffs[j][i])*tmp
+			polOut.Coeffs[j][index] = CRed(polIn.Coeffs[j][i]*(tmp^1)|(qi-polIn.Coeffs[j][i])*tmp, qi)
 		}
 	}
 }
diff --git a/ring/ring_operations.go b/ring/ring_operations.go
index 46efc64..6c2af19 100644
--- a/ring/ring_operations.go
+++ b/ring/ring_operations.go
@@ -490,7 +490,7 @@ func (r *Ring) MultByMonomial(p1 *Poly, monomialDeg int, p2 *Poly) {
 			for i, qi := range r.Modulus {
 				p1tmp, tmpxT := p1.Coeffs[i][:r.N], tmpx.Coeffs[i]
 				for j := 0; j < r.N; j++ {
-					tmpxT[j] = qi - p1tmp[j]
+					tmpxT[j] = CRed(qi-p1tmp[j], qi)
 				}
 			}
 		}
@@ -500,7 +500,7 @@ func (r *Ring) MultByMonomial(p1 *Poly, monomialDeg int, p2 *Poly) {
 		for i, qi := range r.Modulus {
 			p2tmp, tmpxT := p2.Coeffs[i][:r.N], tmpx.Coeffs[i]
 			for j := 0; j < shift; j++ {
-				p2tmp[j] = qi - tmpxT[r.N-shift+j]
+				p2tmp[j] = CRed(qi-tmpxT[r.N-shift+j], qi)
 			}
 		}
 
diff --git a/ring/ring_vector_ops.go b/ring/ring_vector_ops.go
index 8dda431..9f5f78b 100644
--- a/ring/ring_vector_ops.go
+++ b/ring/ring_vector_ops.go
@@ -98,14 +98,14 @@ func NegVec(p1, p2 []uint64, qi uint64) {
 		x := (*[8]uint64)(unsafe.Pointer(&p1[j]))
 		z := (*[8]uint64)(unsafe.Pointer(&p2[j]))
 
-		z[0] = qi - x[0]
-		z[1] = qi - x[1]
-		z[2] = qi - x[2]
-		z[3] = qi - x[3]
-		z[4] = qi - x[4]
-		z[5] = qi - x[5]
-		z[6] = qi - x[6]
-		z[7] = qi - x[7]
+		z[0] = CRed(qi-x[0], qi)
+		z[1] = CRed(qi-x[1], qi)
+		z[2] = CRed(qi-x[2], qi)
+		z[3] = CRed(qi-x[3], qi)
+		z[4] = CRed(qi-x[4], qi)
+		z[5] = CRed(qi-x[5], qi)
+		z[6] = CRed(qi-x[6], qi)
+		z[7] = CRed(qi-x[7], qi)
 	}
 }
 
-- 
2.43.0


From 68539ad0f4322ac71375266fd824ab9b74d92c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:17 +0000
Subject: [PATCH 48/51] fix: give a product receiver the degree of the product

A receiver of larger degree kept its previous higher components, which then
were decrypted as part of the product.
---
 ckks/evaluator.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 6a6051e..b99ab43 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1196,9 +1196,7 @@ func (eval *evaluator) mulRelin(op0, op1 Operand, relin bool, ctOut *Ciphertext)
 		c1 = ctOut.Value[1]
 
 		if !relin {
-			if ctOut.Degree() < 2 {
-				ctOut.El().Resize(eval.params.Parameters, 2)
-			}
+			ctOut.El().Resize(eval.params.Parameters, 2)
 			c2 = ctOut.Value[2]
 		} else {
 			c2 = eval.poolQMul[2]
@@ -1238,6 +1236,8 @@ func (eval *evaluator) mulRelin(op0, op1 Operand, relin bool, ctOut *Ciphertext)
 
 			ringQ.AddLvl(level, c0, eval.Pool[1].Q, ctOut.Value[0])
 			ringQ.AddLvl(level, c1, eval.Pool[2].Q, ctOut.Value[1])
+
+			ctOut.El().Resize(eval.params.Parameters, 1)
 		}
 
 		// Case Plaintext (x) Ciphertext or Ciphertext (x) Plaintext
@@ -1256,6 +1256,8 @@ func (eval *evaluator) mulRelin(op0, op1 Operand, relin bool, ctOut *Ciphertext)
 		ringQ.MFormLvl(level, tmp0.Value[0], c00)
 		ringQ.MulCoeffsMontgomeryLvl(level, c00, tmp1.Value[0], ctOut.Value[0])
 		ringQ.MulCoeffsMontgomeryLvl(level, c00, tmp1.Value[1], ctOut.Value[1])
+
+		ctOut.El().Resize(eval.params.Parameters, 1)
 	}
 }
 
-- 
2.43.0


From 313ede5a3e5012c1d59fd2f778e84be8281920e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:17 +0000
Subject: [PATCH 49/51] fix: give the receiver of a product by a constant the
 degree of the operand

MultByConst, MultByGaussianInteger and ScaleUp kept the higher components of a
larger receiver; MultByi, DivByi and MulByPow2 dropped components the receiver
did not have.
---
 ckks/evaluator.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index b99ab43..35b3b4c 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -704,6 +704,7 @@ func (eval *evaluator) MultByConstNew(ct0 *Ciphertext, constant interface{}) (ct
 func (eval *evaluator) MultByConst(ct0 *Ciphertext, constant interface{}, ctOut *Ciphertext) {
 
 	eval.dropToLevel(ctOut, utils.MinInt(ct0.Level(), ctOut.Level()))
+	ctOut.El().Resize(eval.params.Parameters, ct0.Degree())
 	eval.multByConst(ct0, constant, ctOut)
 }
 
@@ -772,6 +773,7 @@ func (eval *evaluator) MultByGaussianInteger(ct0 *Ciphertext, cReal, cImag inter
 
 	level := utils.MinInt(ct0.Level(), ctOut.Level())
 	eval.dropToLevel(ctOut, level)
+	ctOut.El().Resize(eval.params.Parameters, ct0.Degree())
 	var scaledConst, scaledConstReal, scaledConstImag uint64
 
 	ctOut.Scale = ct0.Scale
@@ -889,6 +891,7 @@ func (eval *evaluator) MultByi(ct0 *Ciphertext, ctOut *Ciphertext) {
 
 	var level = utils.MinInt(ct0.Level(), ctOut.Level())
 	eval.dropToLevel(ctOut, level)
+	ctOut.El().Resize(eval.params.Parameters, ct0.Degree())
 	ctOut.Scale = ct0.Scale
 
 	ringQ := eval.params.RingQ()
@@ -942,6 +945,7 @@ func (eval *evaluator) DivByi(ct0 *Ciphertext, ctOut *Ciphertext) {
 
 	var level = utils.MinInt(ct0.Level(), ctOut.Level())
 	eval.dropToLevel(ctOut, level)
+	ctOut.El().Resize(eval.params.Parameters, ct0.Degree())
 
 	ringQ := eval.params.RingQ()
 
@@ -1008,6 +1012,7 @@ func (eval *evaluator) MulByPow2New(ct0 *Ciphertext, pow2 int) (ctOut *Ciphertex
 func (eval *evaluator) MulByPow2(ct0 *Ciphertext, pow2 int, ctOut *Ciphertext) {
 	var level = utils.MinInt(ct0.Level(), ctOut.Level())
 	eval.dropToLevel(ctOut, level)
+	ctOut.El().Resize(eval.params.Parameters, ct0.Degree())
 	ctOut.Scale = ct0.Scale
 	for i := range ctOut.Value {
 		eval.params.RingQ().MulByPow2Lvl(level, ct0.Value[i], pow2, ctOut.Value[i])
-- 
2.43.0


From 5956b8952c368a04f722552566db62f21abf0b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:17 +0000
Subject: [PATCH 50/51] fix: encrypt into a ciphertext of degree one

A receiver of larger degree kept its previous higher components.
---
 rlwe/encryptor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rlwe/encryptor.go b/rlwe/encryptor.go
index a1f19a5..6378722 100644
--- a/rlwe/encryptor.go
+++ b/rlwe/encryptor.go
@@ -124,6 +124,7 @@ func newEncryptorBuffers(params Parameters) *encryptorBuffers {
 // then the encryption of zero is sampled in QP before being rescaled by P; otherwise, it is directly
 // sampled in Q.
 func (enc *pkEncryptor) Encrypt(pt *Plaintext, ct *Ciphertext) {
+	ct.Resize(enc.params, 1)
 	enc.uniformSampler.ReadLvl(utils.MinInt(pt.Level(), ct.Level()), ct.Value[1])
 
 	if enc.basisextender != nil {
@@ -141,6 +142,7 @@ func (enc *pkEncryptor) EncryptFromCRP(pt *Plaintext, crp *ring.Poly, ct *Cipher
 // Encrypt encrypts the input plaintext and write the result on ct.
 func (enc *skEncryptor) Encrypt(pt *Plaintext, ct *Ciphertext) {
 
+	ct.Resize(enc.params, 1)
 	enc.uniformSampler.ReadLvl(utils.MinInt(pt.Level(), ct.Level()), ct.Value[1])
 
 	enc.encrypt(pt, ct)
@@ -149,6 +151,7 @@ func (enc *skEncryptor) Encrypt(pt *Plaintext, ct *Ciphertext) {
 // EncryptFromCRP encrypts the input plaintext and writes the result on ct.
 // The encryption algorithm depends on the implementor.
 func (enc *skEncryptor) EncryptFromCRP(pt *Plaintext, crp *ring.Poly, ct *Ciphertext) {
+	ct.Resize(enc.params, 1)
 	ring.CopyValues(crp, ct.Value[1])
 
 	enc.encrypt(pt, ct)
-- 
2.43.0


From 19a5268dc2d69f03a64248323c0e02ef2bfd4cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:17 +0000
Subject: [PATCH 51/51] fix: refuse to rotate or switch ciphertexts that are
 not of degree one

The higher components of the input were ignored and those of the receiver kept.
---
 fckks/evaluator.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/fckks/evaluator.go b/fckks/evaluator.go
index 3cdf203..18aea93 100644
--- a/fckks/evaluator.go
+++ b/fckks/evaluator.go
@@ -77,6 +77,10 @@ func (eval *Evaluator) RotateNew(ctIn *ckks.Ciphertext, rtk *frlwe.RotationKey)
 
 func (eval *Evaluator) Rotate(ctIn *ckks.Ciphertext, rtk *frlwe.RotationKey, ctOut *ckks.Ciphertext) {
 
+	if ctIn.Degree() != 1 || ctOut.Degree() != 1 {
+		panic("cannot Rotate: input and output Ciphertext must be of degree 1")
+	}
+
 	level := utils.MinInt(ctIn.Level(), ctOut.Level())
 	ringQ := eval.params.RingQ()
 
@@ -104,6 +108,10 @@ func (eval *Evaluator) Rotate(ctIn *ckks.Ciphertext, rtk *frlwe.RotationKey, ctO
 
 func (eval *Evaluator) SwitchKeys(ct0 *ckks.Ciphertext, swk [2]*frlwe.SwitchingKey, ctOut *ckks.Ciphertext) {
 
+	if ct0.Degree() != 1 || ctOut.Degree() != 1 {
+		panic("cannot SwitchKeys: input and output Ciphertext must be of degree 1")
+	}
+
 	level := utils.MinInt(ct0.Level(), ctOut.Level())
 	ringQ := eval.params.RingQ()
 
-- 
2.43.0

