From cccd242983c5df50fe3a385239b39a75e8fccc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:47 +0000
Subject: [PATCH 01/18] fix: derive the second Bulletproofs challenge from its
 own buffer

HashBP hashed the first buffer twice, so the challenges y and z were always
the same value although the protocol requires independent ones.
---
 bulletproofs/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bulletproofs/util.go b/bulletproofs/util.go
index c595a02..4986f68 100644
--- a/bulletproofs/util.go
+++ b/bulletproofs/util.go
@@ -67,7 +67,7 @@ func HashBP(A, S group.Element) (*big.Int, *big.Int, error) {
 	buffer2.WriteString(A.String())
 	buffer2.WriteString(S.String())
 	buffer2.WriteString(result1.String())
-	digest2.Write(buffer.Bytes())
+	digest2.Write(buffer2.Bytes())
 	output2 := digest2.Sum(nil)
 	tmp2 := output2[0:]
 	result2 := new(big.Int).SetBytes(tmp2)
-- 
2.43.0


From 459d1a45fdcdb3f898784adaf63581907a290b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:40 +0000
Subject: [PATCH 02/18] fix: bind the Bulletproofs challenges to the statement
 and the transcript

y and z did not depend on the commitments, x did not depend on A, S and V, and
the inner-product rounds did not depend on the statement or on earlier rounds.
A prover could therefore choose the commitment after seeing the challenges and
have proofs of values outside the range accepted.
---
 bulletproofs/bip.go     | 27 +++++++++++++++++----------
 bulletproofs/bp.go      |  8 ++++----
 bulletproofs/multibp.go | 17 +++++++++++++----
 bulletproofs/util.go    | 15 ++++++++++-----
 4 files changed, 44 insertions(+), 23 deletions(-)

diff --git a/bulletproofs/bip.go b/bulletproofs/bip.go
index 9b2b63c..67e8aa5 100644
--- a/bulletproofs/bip.go
+++ b/bulletproofs/bip.go
@@ -121,7 +121,7 @@ func proveInnerProduct(a, b []*big.Int, P group.Element, c *big.Int, params Inne
 	PP, ux := computePP(P, c, x, params) // (8)
 
 	// Execute Protocol 2 recursively
-	proof = computeBipRecursive(a, b, params.Gg, params.Hh, ux, PP, n, Ls, Rs, params.GP) // 9
+	proof = computeBipRecursive(a, b, params.Gg, params.Hh, ux, PP, x, n, Ls, Rs, params.GP) // 9
 
 	proof.Params = params
 	proof.P = P
@@ -132,8 +132,10 @@ func proveInnerProduct(a, b []*big.Int, P group.Element, c *big.Int, params Inne
 
 /*
 computeBipRecursive is the main recursive function that will be used to compute the inner product argument.
+The challenge of each round is bound to the challenge of the previous round (xPrev), and
+through it to the statement and to all the earlier rounds.
 */
-func computeBipRecursive(a, b []*big.Int, g, h []group.Element, u, P group.Element, n int64, Ls, Rs []group.Element, SP group.Group) InnerProductProof {
+func computeBipRecursive(a, b []*big.Int, g, h []group.Element, u, P group.Element, xPrev *big.Int, n int64, Ls, Rs []group.Element, SP group.Group) InnerProductProof {
 	var (
 		proof                            InnerProductProof
 		cL, cR, x, xinv, x2, x2inv       *big.Int
@@ -173,7 +175,7 @@ func computeBipRecursive(a, b []*big.Int, g, h []group.Element, u, P group.Eleme
 	R.Add(R, SP.Element().Scale(u, cR))
 
 	// Fiat-Shamir:                                                       // (26)
-	x, _, _ = HashBP(L, R)
+	x, _, _ = HashBP(L, R, xPrev)
 	xinv = bn.ModInverse(x, SP.N())
 
 	// Compute g' = g[:n']^(x^-1) * g[n':]^(x)                            // (29)
@@ -204,7 +206,7 @@ func computeBipRecursive(a, b []*big.Int, g, h []group.Element, u, P group.Eleme
 	Ls = append(Ls, L)
 	Rs = append(Rs, R)
 	// recursion computeBipRecursive(g',h',u,P'; a', b')                  // (35)
-	proof = computeBipRecursive(aprime, bprime, gprime, hprime, u, Pprime, nprime, Ls, Rs, SP)
+	proof = computeBipRecursive(aprime, bprime, gprime, hprime, u, Pprime, x, nprime, Ls, Rs, SP)
 
 	return proof
 }
@@ -230,8 +232,8 @@ func (proof InnerProductProof) Verify() (bool, error) {
 
 	nprime := len(gprime)
 	for i := int64(0); i < int64(logn); i++ {
-		nprime = nprime / 2                      // (20)
-		x, _, _ = HashBP(proof.L[i], proof.R[i]) // (26)
+		nprime = nprime / 2                         // (20)
+		x, _, _ = HashBP(proof.L[i], proof.R[i], x) // (26)
 		xinv = bn.ModInverse(x, proof.Params.GP.N())
 		// Compute g' = g[:n']^(x^-1) * g[n':]^(x)                            // (29)
 		ngprime = vectorScalarExp(gprime[:nprime], xinv, proof.Params.GP)
@@ -270,14 +272,19 @@ hashIP is responsible for the computing a Zp element given elements from GT and
 */
 func hashIP(g, h []group.Element, P group.Element, c *big.Int) (*big.Int, error) {
 	digest := sha256.New()
-	digest.Write([]byte(P.String()))
+	write := func(str string) {
+		digest.Write([]byte(fmt.Sprintf("%d:", len(str))))
+		digest.Write([]byte(str))
+	}
+
+	write(P.String())
 
 	for i := 0; i < len(g); i++ {
-		digest.Write([]byte(g[i].String()))
-		digest.Write([]byte(h[i].String()))
+		write(g[i].String())
+		write(h[i].String())
 	}
 
-	digest.Write([]byte(c.String()))
+	write(c.String())
 	output := digest.Sum(nil)
 	tmp := output[0:]
 	result, err := byteconversion.FromByteArray(tmp)
diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index 19322b3..d5737f0 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -130,7 +130,7 @@ func Prove(secret *big.Int, params BulletProofSetupParams) (BulletProof, *big.In
 	proof.S = S // (48)
 
 	// Fiat-Shamir heuristic to compute challenges y and z.
-	y, z, _ := HashBP(A, S) // (49) & (50)
+	y, z, _ := HashBP(A, S, V) // (49) & (50)
 
 	// ////////////////////////////////////////////////////////////////////////////
 	// Second phase: page 20                                                     //
@@ -187,7 +187,7 @@ func Prove(secret *big.Int, params BulletProofSetupParams) (BulletProof, *big.In
 	proof.T2 = T2 // (54)
 
 	// Fiat-Shamir heuristic to compute 'random' challenge x
-	x, _, _ := HashBP(T1, T2) // (55) & (56)
+	x, _, _ := HashBP(T1, T2, y, z) // (55) & (56)
 
 	// ////////////////////////////////////////////////////////////////////////////
 	// Third phase: page 20                                                      //
@@ -250,8 +250,8 @@ func (proof *BulletProof) Verify() (bool, error) {
 	mod := params.GP.N()
 
 	// Recover x, y, z using Fiat-Shamir heuristic
-	x, _, _ := HashBP(proof.T1, proof.T2)
-	y, z, _ := HashBP(proof.A, proof.S)
+	y, z, _ := HashBP(proof.A, proof.S, proof.V)
+	x, _, _ := HashBP(proof.T1, proof.T2, y, z)
 
 	zSquared := new(big.Int).Mod(new(big.Int).Mul(z, z), mod)
 	xSquared := new(big.Int).Mod(new(big.Int).Mul(x, x), mod)
diff --git a/bulletproofs/multibp.go b/bulletproofs/multibp.go
index 1755a02..e98b86b 100644
--- a/bulletproofs/multibp.go
+++ b/bulletproofs/multibp.go
@@ -95,7 +95,7 @@ func MultiProve(secrets []*big.Int, params BulletProofSetupParams) (MultiBulletP
 	proof.S = S // (48)
 
 	// Fiat-Shamir heuristic to compute challenges y and z.
-	y, z, _ := HashBP(A, S) // (49) & (50)
+	y, z, _ := HashBP(A, S, statement(commitments)...) // (49) & (50)
 
 	// ////////////////////////////////////////////////////////////////////////////
 	// Second phase: page 20                                                     //
@@ -158,7 +158,7 @@ func MultiProve(secrets []*big.Int, params BulletProofSetupParams) (MultiBulletP
 	proof.T2 = T2 // (54)
 
 	// Fiat-Shamir heuristic to compute 'random' challenge x
-	x, _, _ := HashBP(T1, T2) // (55) & (56)
+	x, _, _ := HashBP(T1, T2, y, z) // (55) & (56)
 
 	// ////////////////////////////////////////////////////////////////////////////
 	// Third phase: page 20                                                      //
@@ -232,8 +232,8 @@ func (proof *MultiBulletProof) Verify() (bool, error) {
 	bitsPerValue := int(params.N) / m
 
 	// Recover x, y, z using Fiat-Shamir heuristic
-	x, _, _ := HashBP(proof.T1, proof.T2)
-	y, z, _ := HashBP(proof.A, proof.S)
+	y, z, _ := HashBP(proof.A, proof.S, statement(proof.Vs)...)
+	x, _, _ := HashBP(proof.T1, proof.T2, y, z)
 
 	zSquared := new(big.Int).Mod(new(big.Int).Mul(z, z), mod)
 	xSquared := new(big.Int).Mod(new(big.Int).Mul(x, x), mod)
@@ -326,6 +326,15 @@ func (proof *MultiBulletProof) Verify() (bool, error) {
 	return result, nil
 }
 
+// statement lists the commitments that the challenges must be bound to.
+func statement(commitments []group.Element) []fmt.Stringer {
+	items := make([]fmt.Stringer, len(commitments))
+	for j := range commitments {
+		items[j] = commitments[j]
+	}
+	return items
+}
+
 // delta(y,z) = (z - z^2) . < 1Pow(nm), yPow(nm) > - sum_{j=0}^{m-1} (z^{j+3} . < 1Pow, 2Pow >)
 func (params *BulletProofSetupParams) deltaMul(y, z *big.Int, m int64) *big.Int {
 	mod := params.GP.N()
diff --git a/bulletproofs/util.go b/bulletproofs/util.go
index 4986f68..125f995 100644
--- a/bulletproofs/util.go
+++ b/bulletproofs/util.go
@@ -21,6 +21,7 @@ import (
 	"bytes"
 	"crypto/sha256"
 	"errors"
+	"fmt"
 	"github.com/takakv/msc-poc/group"
 	"math/big"
 
@@ -50,13 +51,18 @@ func powerOf(x *big.Int, n int64, SP group.Group) []*big.Int {
 
 /*
 HashBP is responsible for the computing a Zp element given elements from GT and G1.
+The challenges are bound to A, S and to the rest of the transcript. Every item is
+preceded by its length so that different transcripts never share an encoding.
 */
-func HashBP(A, S group.Element) (*big.Int, *big.Int, error) {
+func HashBP(A, S group.Element, transcript ...fmt.Stringer) (*big.Int, *big.Int, error) {
 
 	digest1 := sha256.New()
 	var buffer bytes.Buffer
-	buffer.WriteString(A.String())
-	buffer.WriteString(S.String())
+	for _, item := range append([]fmt.Stringer{A, S}, transcript...) {
+		str := item.String()
+		buffer.WriteString(fmt.Sprintf("%d:", len(str)))
+		buffer.WriteString(str)
+	}
 	digest1.Write(buffer.Bytes())
 	output1 := digest1.Sum(nil)
 	tmp1 := output1[0:]
@@ -64,8 +70,7 @@ func HashBP(A, S group.Element) (*big.Int, *big.Int, error) {
 
 	digest2 := sha256.New()
 	var buffer2 bytes.Buffer
-	buffer2.WriteString(A.String())
-	buffer2.WriteString(S.String())
+	buffer2.Write(buffer.Bytes())
 	buffer2.WriteString(result1.String())
 	digest2.Write(buffer2.Bytes())
 	output2 := digest2.Sum(nil)
-- 
2.43.0


From e385b21b77d9ce04ec181def02f4b75d7aa16862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:00 +0000
Subject: [PATCH 03/18] fix: verify the inner-product argument against the
 verifier's statement

The verifier used the generators shipped inside the proof, did not compare the
inner product with tprime and did not check the number of rounds, so that a
prover could pick generators for which a false statement verifies.
---
 bulletproofs/bip.go     |  6 ++++++
 bulletproofs/bp.go      | 13 +++++++++++--
 bulletproofs/multibp.go | 13 +++++++++++--
 3 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/bulletproofs/bip.go b/bulletproofs/bip.go
index 67e8aa5..810e8fd 100644
--- a/bulletproofs/bip.go
+++ b/bulletproofs/bip.go
@@ -217,6 +217,12 @@ Verify is responsible for the verification of the Inner Product Proof.
 func (proof InnerProductProof) Verify() (bool, error) {
 
 	logn := len(proof.L)
+	n := len(proof.Params.Gg)
+	// The number of rounds is dictated by the length of the vectors.
+	if len(proof.R) != logn || len(proof.Params.Hh) != n || n != 1<<logn {
+		return false, errors.New("number of rounds does not match the length of the vectors")
+	}
+
 	var (
 		x, xinv, x2, x2inv                   *big.Int
 		ngprime, nhprime, ngprime2, nhprime2 []group.Element
diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index d5737f0..fb0f8ed 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -324,9 +324,18 @@ func (proof *BulletProof) Verify() (bool, error) {
 	c67 := rP.IsIdentity()
 
 	// Verify Inner Product Proof ################################################
-	ok, _ := proof.InnerProductProof.Verify()
+	// The argument must be about tprime and the generators of the verifier,
+	// irrespective of the parameters that the proof carries.
+	ipp, setupErr := setupInnerProduct(params.Gg, hp, params.N, params.GP)
+	if setupErr != nil {
+		return false, setupErr
+	}
+	ipProof := proof.InnerProductProof
+	ipProof.Params = ipp
+	c68 := proof.Tprime.Cmp(ipProof.Cc) == 0
+	ok, _ := ipProof.Verify()
 
-	result := c65 && c67 && ok
+	result := c65 && c67 && c68 && ok
 
 	return result, nil
 }
diff --git a/bulletproofs/multibp.go b/bulletproofs/multibp.go
index e98b86b..9aa379b 100644
--- a/bulletproofs/multibp.go
+++ b/bulletproofs/multibp.go
@@ -318,10 +318,19 @@ func (proof *MultiBulletProof) Verify() (bool, error) {
 	fmt.Println("Check 67:", c67)
 
 	// Verify Inner Product Proof ################################################
-	ok, _ := proof.InnerProductProof.Verify()
+	// The argument must be about tprime and the generators of the verifier,
+	// irrespective of the parameters that the proof carries.
+	ipp, setupErr := setupInnerProduct(params.Gg, hp, params.N, params.GP)
+	if setupErr != nil {
+		return false, setupErr
+	}
+	ipProof := proof.InnerProductProof
+	ipProof.Params = ipp
+	c68 := proof.Tprime.Cmp(ipProof.Cc) == 0
+	ok, _ := ipProof.Verify()
 	fmt.Println("Check 68:", ok)
 
-	result := c65 && c67 && ok
+	result := c65 && c67 && c68 && ok
 
 	return result, nil
 }
-- 
2.43.0


From 116ab6ebad7b1aadc56a75b6d1d6cc2e4bdf3134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:03 +0000
Subject: [PATCH 04/18] fix: make aggregated range proofs complete

MultiProve committed to aR in place of aL and the verifier added z^(2+j) to the
powers of two where the protocol multiplies, so honest aggregated proofs were
rejected. A number of values that does not divide the bit-length caused a panic.
---
 bulletproofs/multibp.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bulletproofs/multibp.go b/bulletproofs/multibp.go
index 9aa379b..e7d3146 100644
--- a/bulletproofs/multibp.go
+++ b/bulletproofs/multibp.go
@@ -19,6 +19,7 @@ package bulletproofs
 
 import (
 	"crypto/rand"
+	"errors"
 	"fmt"
 	"github.com/takakv/msc-poc/group"
 	"math/big"
@@ -54,6 +55,9 @@ func MultiProve(secrets []*big.Int, params BulletProofSetupParams) (MultiBulletP
 	mod := params.GP.N()
 
 	m := len(secrets)
+	if m == 0 || int(params.N)%m != 0 {
+		return proof, nil, errors.New("the number of values must divide the bit-length of the range")
+	}
 	bitsPerValue := int(params.N) / m
 
 	commitments := make([]group.Element, m)
@@ -83,7 +87,7 @@ func MultiProve(secrets []*big.Int, params BulletProofSetupParams) (MultiBulletP
 
 	// Commitment: (A, alpha)
 	alpha, _ := rand.Int(rand.Reader, mod)                                                            // (43)
-	A := commitVector(aRConcat, aRConcat, alpha, params.H, params.Gg, params.Hh, params.N, params.GP) // (44)
+	A := commitVector(aLConcat, aRConcat, alpha, params.H, params.Gg, params.Hh, params.N, params.GP) // (44)
 
 	// sL, sR and commitment: (S, rho)
 	sL := sampleRandomVector(params.N, params.GP)                                          // (45)
@@ -229,6 +233,9 @@ func (proof *MultiBulletProof) Verify() (bool, error) {
 	mod := params.GP.N()
 
 	m := len(proof.Vs)
+	if m == 0 || int(params.N)%m != 0 {
+		return false, errors.New("the number of values must divide the bit-length of the range")
+	}
 	bitsPerValue := int(params.N) / m
 
 	// Recover x, y, z using Fiat-Shamir heuristic
@@ -297,7 +304,7 @@ func (proof *MultiBulletProof) Verify() (bool, error) {
 	for j := 0; j < m; j++ {
 		hpSlide := hp[j*bitsPerValue : (j+1)*bitsPerValue]
 		zp := new(big.Int).Exp(z, big.NewInt(2+int64(j)), mod)
-		exp := VectorAddConst(powersOfTwo, zp, mod)
+		exp, _ := VectorScalarMul(powersOfTwo, zp, mod)
 		val, _ := VectorExp(hpSlide, exp, params.GP)
 		prod.Add(prod, val)
 	}
-- 
2.43.0


From 2dcefe2bdc659f014ecd37e0ed2ada42df1d0ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:03 +0000
Subject: [PATCH 05/18] fix: negative numbers are not powers of two

Setup(math.MinInt64) passed the power-of-two check and panicked.
---
 bulletproofs/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bulletproofs/util.go b/bulletproofs/util.go
index 125f995..26ac84e 100644
--- a/bulletproofs/util.go
+++ b/bulletproofs/util.go
@@ -133,5 +133,5 @@ IsPowerOfTwo returns true for arguments that are a power of 2, false otherwise.
 https://stackoverflow.com/a/600306/844313
 */
 func IsPowerOfTwo(x int64) bool {
-	return (x != 0) && ((x & (x - 1)) == 0)
+	return (x > 0) && ((x & (x - 1)) == 0)
 }
-- 
2.43.0


From 94f8cff004f46e337a879ae1d7b4dfefdcd75d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:36 +0000
Subject: [PATCH 06/18] fix: bind the equality proof challenge to the statement

The challenge only depended on the initial commitments, which let a prover
choose the ciphertext after seeing it, and the items were concatenated without
separation, so that different transcripts could share a challenge.
---
 voteproof/voteproof.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/voteproof/voteproof.go b/voteproof/voteproof.go
index ca42be8..55034ba 100644
--- a/voteproof/voteproof.go
+++ b/voteproof/voteproof.go
@@ -109,14 +109,17 @@ func sigmaPedersenCheck(z, s, c *big.Int, k, x group.Element, gp GroupParameters
 	return left.IsEqual(right)
 }
 
-func getFSChallenge(w group.Element, Kp group.Element, Kq1, Kq2 group.Element, pow2bound uint16) *big.Int {
+// getFSChallenge derives the challenge from the statement and the initial commitments.
+// Every item is preceded by its length so that different transcripts never share an encoding.
+func getFSChallenge(comm VerCommitments, w group.Element, Kp group.Element, Kq1, Kq2 group.Element, pow2bound uint16) *big.Int {
 	hasher := sha256.New()
 
 	var buffer bytes.Buffer
-	buffer.WriteString(w.String())
-	buffer.WriteString(Kp.String())
-	buffer.WriteString(Kq1.String())
-	buffer.WriteString(Kq2.String())
+	for _, item := range []group.Element{comm.Y, comm.Xp, comm.Xq1, comm.Xq2, w, Kp, Kq1, Kq2} {
+		str := item.String()
+		buffer.WriteString(fmt.Sprintf("%d:", len(str)))
+		buffer.WriteString(str)
+	}
 	hasher.Write(buffer.Bytes())
 
 	challenge := hasher.Sum(nil)[:pow2bound/8]
@@ -130,6 +133,14 @@ func Prove(secret *big.Int, rp *big.Int, rq1, rq2 *big.Int, params ProofParams)
 	// Exclusive upper bound
 	zUpperBound := new(big.Int).Exp(BigTwo, new(big.Int).Add(bxbc, big.NewInt(int64(params.Bb))), nil)
 
+	// The statement, i.e. the ciphertext and the commitments to the secret.
+	comm := VerCommitments{
+		Y:   params.GFF.I.Element().BaseScale(rp),
+		Xp:  pedersenCommit(secret, rp, params.GFF),
+		Xq1: pedersenCommit(secret, rq1, params.GEC),
+		Xq2: pedersenCommit(secret, rq2, params.GEC),
+	}
+
 	// Abort loop
 	for {
 		// Setup
@@ -148,7 +159,7 @@ func Prove(secret *big.Int, rp *big.Int, rq1, rq2 *big.Int, params ProofParams)
 		Kq2 := pedersenCommit(kq, tq2, params.GEC)
 
 		// Challenge
-		challenge := getFSChallenge(w, Kp, Kq1, Kq2, params.Bc)
+		challenge := getFSChallenge(comm, w, Kp, Kq1, Kq2, params.Bc)
 		z := new(big.Int).Add(k, new(big.Int).Mul(challenge, secret))
 		if z.Cmp(zLowerBound) == -1 || z.Cmp(zUpperBound) != -1 {
 			fmt.Println("Aborted")
@@ -192,7 +203,7 @@ func (proof *SigmaProof) Verify(comm VerCommitments) bool {
 	}
 
 	// Verify challenge correctness.
-	challenge := getFSChallenge(proof.W, proof.Kp, proof.Kq1, proof.Kq2, proof.Params.Bc)
+	challenge := getFSChallenge(comm, proof.W, proof.Kp, proof.Kq1, proof.Kq2, proof.Params.Bc)
 	if challenge.Cmp(proof.Challenge) != 0 {
 		return false
 	}
-- 
2.43.0


From 2ca0a4e793c283cd1bf9926eb4fa22bb3203ad67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:37 +0000
Subject: [PATCH 07/18] fix: reject equality proof parameters that cannot work

Setup accepted challenge lengths that getFSChallenge cannot produce (an empty
challenge, which proves nothing, or more than a digest, which panics), empty
ranges and ranges that do not fit the length of the secret.
---
 voteproof/voteproof.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/voteproof/voteproof.go b/voteproof/voteproof.go
index 55034ba..8072fb4 100644
--- a/voteproof/voteproof.go
+++ b/voteproof/voteproof.go
@@ -93,6 +93,15 @@ func Setup(lenSecret uint8, lenChallenge uint16, groupOrderLog uint16,
 		return params, errors.New("inconsistent parameter choice")
 	}
 
+	// The challenge is a whole number of bytes of a SHA-256 digest.
+	if lenChallenge == 0 || lenChallenge > 8*sha256.Size || lenChallenge%8 != 0 {
+		return params, errors.New("unsupported challenge length")
+	}
+
+	if rangeLo > rangeHi || big.NewInt(int64(rangeHi)).BitLen() > int(lenSecret) {
+		return params, errors.New("range does not fit the length of the secret")
+	}
+
 	return params, nil
 }
 
-- 
2.43.0


From 731d994ba6c57615beecc26149d37b4f570f1a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:38 +0000
Subject: [PATCH 08/18] fix: verify ballots against the parameters of the
 election

verifyVote used the equality proof parameters from the submitted ballot, so the
submitter could choose the public key, the response window or the challenge
length.
---
 server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server.go b/server.go
index 697feeb..d097b74 100644
--- a/server.go
+++ b/server.go
@@ -40,6 +40,9 @@ func verifyVote(proofs BallotData, rpParams voteproof.ProofParams) (bool, []time
 		Xq2: Xq2,             // Upper bound shifted back to the secret
 	}
 
+	// The parameters of the election apply, not the ones in the ballot.
+	proofs.VoteProof.Params = rpParams
+
 	// Verify the consistency of the shifted commitments with the ElGamal ciphertext.
 	result := proofs.VoteProof.Verify(commitments)
 	durationRP := time.Since(startRP)
-- 
2.43.0


From 25348c38317a46a59154af4b01f2ebdb2774e50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:39 +0000
Subject: [PATCH 09/18] fix: let the voter choose the last candidate

The candidate range is inclusive, but the highest candidate was never chosen
and a range with a single candidate caused a panic.
---
 voter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/voter.go b/voter.go
index 6dc080f..d776064 100644
--- a/voter.go
+++ b/voter.go
@@ -17,7 +17,7 @@ type BallotData struct {
 }
 
 func castVote(pp PublicParameters) (BallotData, time.Duration) {
-	rBig, _ := rand.Int(rand.Reader, big.NewInt(int64(pp.candidateMax-pp.candidateMin)))
+	rBig, _ := rand.Int(rand.Reader, big.NewInt(int64(pp.candidateMax-pp.candidateMin)+1))
 
 	var choice = uint16(rBig.Uint64()) + pp.candidateMin
 	ciphertext, rp := encryptVote(choice, pp.EGPK, pp.FFGroupParams.I)
-- 
2.43.0


From fbf6862a70b0ad69f5ade12bf211d828e9c85d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:01 +0000
Subject: [PATCH 10/18] fix: reduce the commitment nonce modulo the order of
 its own group

The nonce committed to in the Bulletproofs group was reduced modulo the order of
the ElGamal group; proofs fail if that order is below the response window.
---
 voteproof/voteproof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/voteproof/voteproof.go b/voteproof/voteproof.go
index 8072fb4..739ed38 100644
--- a/voteproof/voteproof.go
+++ b/voteproof/voteproof.go
@@ -155,7 +155,7 @@ func Prove(secret *big.Int, rp *big.Int, rq1, rq2 *big.Int, params ProofParams)
 		// Setup
 		k, _ := rand.Int(rand.Reader, zUpperBound)
 		kp := new(big.Int).Mod(k, params.GFF.N) // k mod p for efficiency
-		kq := new(big.Int).Mod(k, params.GFF.N) // k mod q for efficiency
+		kq := new(big.Int).Mod(k, params.GEC.N) // k mod q for efficiency
 
 		tp, _ := rand.Int(rand.Reader, params.GFF.N)
 		tq1, _ := rand.Int(rand.Reader, params.GEC.N)
-- 
2.43.0


From b66435c4a07ea6f7bf0ce7e4bf48abcf2b4856ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:10 +0000
Subject: [PATCH 11/18] fix: reject values outside the ElGamal group when
 decoding

Any integer was accepted as an element, including zero, values beyond the field
and non-residues, which allowed the components of a valid ciphertext to be
negated.
---
 group/modsafeprime.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/group/modsafeprime.go b/group/modsafeprime.go
index 746f4a4..7f99872 100644
--- a/group/modsafeprime.go
+++ b/group/modsafeprime.go
@@ -3,6 +3,7 @@ package group
 import (
 	"crypto/rand"
 	"encoding/json"
+	"errors"
 	"math/big"
 	"strings"
 )
@@ -158,8 +159,7 @@ func (e *ModPElement) MarshalBinary() ([]byte, error) {
 }
 
 func (e *ModPElement) UnmarshalBinary(data []byte) error {
-	e.val = new(big.Int).SetBytes(data)
-	return nil
+	return e.setMember(new(big.Int).SetBytes(data))
 }
 
 func (e *ModPElement) MarshalJSON() ([]byte, error) {
@@ -167,8 +167,21 @@ func (e *ModPElement) MarshalJSON() ([]byte, error) {
 }
 
 func (e *ModPElement) UnmarshalJSON(data []byte) error {
-	err := e.val.UnmarshalJSON(data)
-	return err
+	val := new(big.Int)
+	if err := val.UnmarshalJSON(data); err != nil {
+		return err
+	}
+	return e.setMember(val)
+}
+
+// setMember sets the receiver to val if val belongs to the group, that is
+// to the subgroup of quadratic residues modulo the safe prime.
+func (e *ModPElement) setMember(val *big.Int) error {
+	if val.Sign() <= 0 || val.Cmp(e.group.fieldOrder) >= 0 || big.Jacobi(val, e.group.fieldOrder) != 1 {
+		return errors.New("not an element of the group")
+	}
+	e.val = val
+	return nil
 }
 
 func NewModPGroup(name string, fieldOrder, generator string) Group {
-- 
2.43.0


From d5a13a147aed5c781323a958f17b5011be19cb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:19 +0000
Subject: [PATCH 12/18] fix: decode curve points safely

Missing or oversized coordinates caused a panic, the sign of coordinates was
ignored, and decoding in place into an element that shares its coordinates with
the base point of the curve corrupted the base point.
---
 group/p256.go         | 22 +++++++++++++++-------
 group/p384.go         | 22 +++++++++++++++-------
 group/ristretto255.go |  9 +++++++--
 group/types.go        | 10 ++++++++++
 4 files changed, 47 insertions(+), 16 deletions(-)

diff --git a/group/p256.go b/group/p256.go
index d329728..77d29c8 100644
--- a/group/p256.go
+++ b/group/p256.go
@@ -3,6 +3,7 @@ package group
 import (
 	"crypto/rand"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"github.com/cloudflare/circl/group"
 	"math/big"
@@ -151,8 +152,13 @@ func (e *p256Point) MarshalBinary() ([]byte, error) {
 }
 
 func (e *p256Point) UnmarshalBinary(data []byte) error {
-	err := e.val.UnmarshalBinary(data)
-	return err
+	// Decode into a new value: the current one may be shared.
+	val := group.P256.NewElement()
+	if err := val.UnmarshalBinary(data); err != nil {
+		return err
+	}
+	e.val = val
+	return nil
 }
 
 func (e *p256Point) MarshalJSON() ([]byte, error) {
@@ -186,10 +192,13 @@ func (e *p256Point) UnmarshalJSON(data []byte) error {
 		return err
 	}
 
+	if !point.inField(e.curve.fieldOrder) {
+		return errors.New("invalid point coordinates")
+	}
+
 	// The special case encoding of the point at infinity.
-	if point.X.Cmp(big.NewInt(0)) == 0 && point.Y.Cmp(big.NewInt(0)) == 0 {
-		err = e.val.UnmarshalBinary([]byte{0})
-		return err
+	if point.X.Sign() == 0 && point.Y.Sign() == 0 {
+		return e.UnmarshalBinary([]byte{0})
 	}
 
 	byteLen := 32
@@ -202,8 +211,7 @@ func (e *p256Point) UnmarshalJSON(data []byte) error {
 	// Copy while maintaining leading zeroes.
 	copy(tmp[1+byteLen-len(xBytes):byteLen+1], point.X.Bytes())
 	copy(tmp[1+2*byteLen-len(yBytes):], point.Y.Bytes())
-	err = e.val.UnmarshalBinary(tmp)
-	return err
+	return e.UnmarshalBinary(tmp)
 }
 
 func P256() Group {
diff --git a/group/p384.go b/group/p384.go
index cd298b1..7a7d4b4 100644
--- a/group/p384.go
+++ b/group/p384.go
@@ -3,6 +3,7 @@ package group
 import (
 	"crypto/rand"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"github.com/cloudflare/circl/group"
 	"math/big"
@@ -151,8 +152,13 @@ func (e *p384Point) MarshalBinary() ([]byte, error) {
 }
 
 func (e *p384Point) UnmarshalBinary(data []byte) error {
-	err := e.val.UnmarshalBinary(data)
-	return err
+	// Decode into a new value: the current one may be shared.
+	val := group.P384.NewElement()
+	if err := val.UnmarshalBinary(data); err != nil {
+		return err
+	}
+	e.val = val
+	return nil
 }
 
 func (e *p384Point) MarshalJSON() ([]byte, error) {
@@ -186,10 +192,13 @@ func (e *p384Point) UnmarshalJSON(data []byte) error {
 		return err
 	}
 
+	if !point.inField(e.curve.fieldOrder) {
+		return errors.New("invalid point coordinates")
+	}
+
 	// The special case encoding of the point at infinity.
-	if point.X.Cmp(big.NewInt(0)) == 0 && point.Y.Cmp(big.NewInt(0)) == 0 {
-		err = e.val.UnmarshalBinary([]byte{0})
-		return err
+	if point.X.Sign() == 0 && point.Y.Sign() == 0 {
+		return e.UnmarshalBinary([]byte{0})
 	}
 
 	byteLen := 48
@@ -202,8 +211,7 @@ func (e *p384Point) UnmarshalJSON(data []byte) error {
 	// Copy while maintaining leading zeroes.
 	copy(tmp[1+byteLen-len(xBytes):byteLen+1], point.X.Bytes())
 	copy(tmp[1+2*byteLen-len(yBytes):], point.Y.Bytes())
-	err = e.val.UnmarshalBinary(tmp)
-	return err
+	return e.UnmarshalBinary(tmp)
 }
 
 func P384() Group {
diff --git a/group/ristretto255.go b/group/ristretto255.go
index 10db44c..b245046 100644
--- a/group/ristretto255.go
+++ b/group/ristretto255.go
@@ -151,8 +151,13 @@ func (e *r255Point) MarshalBinary() ([]byte, error) {
 }
 
 func (e *r255Point) UnmarshalBinary(data []byte) error {
-	err := e.val.UnmarshalBinary(data)
-	return err
+	// Decode into a new value: the current one may be shared.
+	val := group.Ristretto255.NewElement()
+	if err := val.UnmarshalBinary(data); err != nil {
+		return err
+	}
+	e.val = val
+	return nil
 }
 
 func (e *r255Point) MarshalJSON() ([]byte, error) {
diff --git a/group/types.go b/group/types.go
index a7f38a9..1fc9a48 100644
--- a/group/types.go
+++ b/group/types.go
@@ -8,6 +8,16 @@ type ECPoint struct {
 	Y *big.Int `json:"y"`
 }
 
+// inField returns true if both coordinates are present and are field elements.
+func (p ECPoint) inField(fieldOrder *big.Int) bool {
+	for _, c := range []*big.Int{p.X, p.Y} {
+		if c == nil || c.Sign() < 0 || c.Cmp(fieldOrder) >= 0 {
+			return false
+		}
+	}
+	return true
+}
+
 // GroupId is needed for JSON marshalling groups.
 type GroupId struct {
 	Name string `json:"group"`
-- 
2.43.0


From a2a73ad22f0c1d36f78ba6c1f0a231063af95de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:56 +0000
Subject: [PATCH 13/18] fix: encode ristretto255 elements in JSON

The encoding assumed affine coordinates, which ristretto255 elements do not
have, and panicked for every element.
---
 group/ristretto255.go | 52 ++++++++-----------------------------------
 1 file changed, 9 insertions(+), 43 deletions(-)

diff --git a/group/ristretto255.go b/group/ristretto255.go
index b245046..2b5b1b9 100644
--- a/group/ristretto255.go
+++ b/group/ristretto255.go
@@ -3,7 +3,6 @@ package group
 import (
 	"crypto/rand"
 	"encoding/json"
-	"fmt"
 	"github.com/cloudflare/circl/group"
 	"math/big"
 )
@@ -160,55 +159,22 @@ func (e *r255Point) UnmarshalBinary(data []byte) error {
 	return nil
 }
 
+// MarshalJSON encodes the canonical 32 bytes of the element in Base64, since
+// elements of the group do not have coordinates.
 func (e *r255Point) MarshalJSON() ([]byte, error) {
-	tmp, _ := e.val.MarshalBinary()
-	xVal := big.NewInt(0)
-	yVal := big.NewInt(0)
-
-	// If the point is not 0.
-	if tmp[0] != 0 {
-		xBytes := tmp[1 : 32+1]
-		yBytes := tmp[1+32:]
-		if len(xBytes) != 32 || len(xBytes) != len(yBytes) {
-			return nil, fmt.Errorf("error in underlying binary marshalling")
-		}
-		xVal.SetBytes(xBytes)
-		yVal.SetBytes(yBytes)
-	}
-
-	point := ECPoint{
-		X: xVal,
-		Y: yVal,
+	tmp, err := e.val.MarshalBinary()
+	if err != nil {
+		return nil, err
 	}
-
-	return json.Marshal(&point)
+	return json.Marshal(tmp)
 }
 
 func (e *r255Point) UnmarshalJSON(data []byte) error {
-	point := ECPoint{}
-	err := json.Unmarshal(data, &point)
-	if err != nil {
+	var tmp []byte
+	if err := json.Unmarshal(data, &tmp); err != nil {
 		return err
 	}
-
-	// The special case encoding of the point at infinity.
-	if point.X.Cmp(big.NewInt(0)) == 0 && point.Y.Cmp(big.NewInt(0)) == 0 {
-		err = e.val.UnmarshalBinary([]byte{0})
-		return err
-	}
-
-	byteLen := 32
-
-	xBytes := point.X.Bytes()
-	yBytes := point.Y.Bytes()
-
-	tmp := make([]byte, 1+2*byteLen)
-	tmp[0] = 4
-	// Copy while maintaining leading zeroes.
-	copy(tmp[1+byteLen-len(xBytes):byteLen+1], point.X.Bytes())
-	copy(tmp[1+2*byteLen-len(yBytes):], point.Y.Bytes())
-	err = e.val.UnmarshalBinary(tmp)
-	return err
+	return e.UnmarshalBinary(tmp)
 }
 
 func Ristretto255() Group {
-- 
2.43.0


From 0fafa2175352eca6b3bc47968a8d4cb432b2b938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:06 +0000
Subject: [PATCH 14/18] fix: encode and decode secp256k1 points

Decoding JSON did nothing, decoding bytes accepted any point or panicked,
coordinates with leading zeros were encoded without them, which also put
hashed generators off the curve, and the identity had two string forms, so that
equal transcripts could give different challenges.
---
 group/p256k1.go | 73 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 52 insertions(+), 21 deletions(-)

diff --git a/group/p256k1.go b/group/p256k1.go
index 233e702..00aacbb 100644
--- a/group/p256k1.go
+++ b/group/p256k1.go
@@ -3,6 +3,7 @@ package group
 import (
 	"crypto/rand"
 	"encoding/json"
+	"errors"
 	"github.com/ing-bank/zkrp/crypto/p256"
 	"math/big"
 )
@@ -123,11 +124,8 @@ func (e *p256k1Point) Set(a Element) Element {
 }
 
 func (e *p256k1Point) SetBytes(b []byte) Element {
-	xBytes := b[:32]
-	yBytes := b[32:]
 	e.val = new(p256.P256).SetInfinity()
-	e.val.X = new(big.Int).SetBytes(xBytes)
-	e.val.Y = new(big.Int).SetBytes(yBytes)
+	_ = e.UnmarshalBinary(b)
 	return e
 }
 
@@ -151,14 +149,19 @@ func (e *p256k1Point) FieldOrder() *big.Int {
 }
 
 func (e *p256k1Point) MapToGroup(s string) (Element, error) {
-	tmp, _ := p256.MapToGroup(s)
-	tmpX := tmp.X.Bytes()
-	tmpY := tmp.Y.Bytes()
-	res := e.curve.Element().SetBytes(append(tmpX, tmpY...))
-	return res, nil
+	tmp, err := p256.MapToGroup(s)
+	if err != nil {
+		return nil, err
+	}
+	e.val = tmp
+	return e, nil
 }
 
 func (e *p256k1Point) String() string {
+	if e.IsIdentity() {
+		// The identity has several internal representations.
+		return new(p256.P256).SetInfinity().String()
+	}
 	return e.val.String()
 }
 
@@ -170,30 +173,58 @@ func (e *p256k1Point) IsIdentity() bool {
 }
 
 func (e *p256k1Point) MarshalBinary() ([]byte, error) {
-	xBytes := make([]byte, 32)
-	if e.val.X != nil {
-		xBytes = e.val.X.Bytes()
-	}
-
-	yBytes := make([]byte, 32)
-	if e.val.Y != nil {
-		yBytes = e.val.Y.Bytes()
+	// Both coordinates take 32 bytes. The identity is encoded as (0, 0).
+	tmp := make([]byte, 64)
+	if !e.IsIdentity() {
+		e.val.X.FillBytes(tmp[:32])
+		e.val.Y.FillBytes(tmp[32:])
 	}
 
-	return append(xBytes, yBytes...), nil
+	return tmp, nil
 }
 
 func (e *p256k1Point) UnmarshalBinary(data []byte) error {
-	e.SetBytes(data)
+	if len(data) != 64 {
+		return errors.New("invalid point encoding")
+	}
+	return e.setPoint(ECPoint{
+		X: new(big.Int).SetBytes(data[:32]),
+		Y: new(big.Int).SetBytes(data[32:]),
+	})
+}
+
+// setPoint sets the receiver to the point with the given coordinates
+// if they are valid. The coordinates (0, 0) stand for the identity.
+func (e *p256k1Point) setPoint(point ECPoint) error {
+	if !point.inField(e.curve.fieldOrder) {
+		return errors.New("invalid point coordinates")
+	}
+	val := &p256.P256{X: point.X, Y: point.Y}
+	if val.IsZero() {
+		val.SetInfinity()
+	} else if !val.IsOnCurve() {
+		return errors.New("point is not on the curve")
+	}
+	e.val = val
 	return nil
 }
 
 func (e *p256k1Point) MarshalJSON() ([]byte, error) {
-	return json.Marshal(e.val)
+	point := ECPoint{X: big.NewInt(0), Y: big.NewInt(0)}
+	if !e.IsIdentity() {
+		point.X = e.val.X
+		point.Y = e.val.Y
+	}
+	return json.Marshal(&point)
 }
 
 func (e *p256k1Point) UnmarshalJSON(data []byte) error {
-	return nil
+	point := ECPoint{}
+	err := json.Unmarshal(data, &point)
+	if err != nil {
+		return err
+	}
+	return e.setPoint(point)
 }
 
 func SecP256k1() Group {
-- 
2.43.0


From 5ed0225f719e3adce0d8b56526a299bed323754e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:04 +0000
Subject: [PATCH 15/18] fix: do not modify curve points when encoding them

Encoding a point writes to its coordinates, a data race when provers and
verifiers that share generators run concurrently.
---
 group/p256.go | 7 ++++---
 group/p384.go | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/group/p256.go b/group/p256.go
index 77d29c8..220c13e 100644
--- a/group/p256.go
+++ b/group/p256.go
@@ -139,7 +139,7 @@ func (e *p256Point) MapToGroup(s string) (Element, error) {
 }
 
 func (e *p256Point) String() string {
-	tmp, _ := e.val.MarshalBinary()
+	tmp, _ := e.MarshalBinary()
 	return string(tmp)
 }
 
@@ -148,7 +148,8 @@ func (e *p256Point) IsIdentity() bool {
 }
 
 func (e *p256Point) MarshalBinary() ([]byte, error) {
-	return e.val.MarshalBinary()
+	// Marshalling normalises the coordinates in place: work on a copy.
+	return group.P256.NewElement().Set(e.val).MarshalBinary()
 }
 
 func (e *p256Point) UnmarshalBinary(data []byte) error {
@@ -162,7 +163,7 @@ func (e *p256Point) UnmarshalBinary(data []byte) error {
 }
 
 func (e *p256Point) MarshalJSON() ([]byte, error) {
-	tmp, _ := e.val.MarshalBinary()
+	tmp, _ := e.MarshalBinary()
 	xVal := big.NewInt(0)
 	yVal := big.NewInt(0)
 
diff --git a/group/p384.go b/group/p384.go
index 7a7d4b4..e2c778d 100644
--- a/group/p384.go
+++ b/group/p384.go
@@ -139,7 +139,7 @@ func (e *p384Point) MapToGroup(s string) (Element, error) {
 }
 
 func (e *p384Point) String() string {
-	tmp, _ := e.val.MarshalBinary()
+	tmp, _ := e.MarshalBinary()
 	return string(tmp)
 }
 
@@ -148,7 +148,8 @@ func (e *p384Point) IsIdentity() bool {
 }
 
 func (e *p384Point) MarshalBinary() ([]byte, error) {
-	return e.val.MarshalBinary()
+	// Marshalling normalises the coordinates in place: work on a copy.
+	return group.P384.NewElement().Set(e.val).MarshalBinary()
 }
 
 func (e *p384Point) UnmarshalBinary(data []byte) error {
@@ -162,7 +163,7 @@ func (e *p384Point) UnmarshalBinary(data []byte) error {
 }
 
 func (e *p384Point) MarshalJSON() ([]byte, error) {
-	tmp, _ := e.val.MarshalBinary()
+	tmp, _ := e.MarshalBinary()
 	xVal := big.NewInt(0)
 	yVal := big.NewInt(0)
 
-- 
2.43.0


From e01685238b83d6c421d4f63913f4c257b6ad98fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:06 +0000
Subject: [PATCH 16/18] fix: report malformed proofs and ballots as errors

Decoding errors of the components were dropped and missing components left nil
values behind, so that malformed documents were decoded to something else or
caused a panic in the decoder or in the verifier.
---
 bulletproofs/marshal.go | 127 ++++++++++++++++++++++++++--------------
 marshal.go              |  15 ++++-
 voteproof/marshal.go    |  51 ++++++++++------
 3 files changed, 129 insertions(+), 64 deletions(-)

diff --git a/bulletproofs/marshal.go b/bulletproofs/marshal.go
index 71c14af..a364f0a 100644
--- a/bulletproofs/marshal.go
+++ b/bulletproofs/marshal.go
@@ -2,6 +2,7 @@ package bulletproofs
 
 import (
 	"encoding/json"
+	"errors"
 	"github.com/takakv/msc-poc/group"
 	"math/big"
 )
@@ -36,45 +37,73 @@ type bulletProofJSON struct {
 	Params            json.RawMessage
 }
 
-func ipParamsFromRawMessage(j innerProductParamsJSON, g group.Group) InnerProductParams {
-	params := InnerProductParams{
-		Uu: g.Element(),
-		Gg: make([]group.Element, len(j.Gg)),
-		Hh: make([]group.Element, len(j.Hh)),
-		GP: g,
+// elementFromRawMessage decodes a mandatory group element.
+func elementFromRawMessage(j json.RawMessage, g group.Group) (group.Element, error) {
+	if len(j) == 0 {
+		return nil, errors.New("missing group element")
 	}
+	element := g.Element()
+	if err := element.UnmarshalJSON(j); err != nil {
+		return nil, err
+	}
+	return element, nil
+}
 
-	_ = params.Uu.UnmarshalJSON(j.Uu)
-	for i := range j.Gg {
-		params.Gg[i] = g.Element()
-		params.Hh[i] = g.Element()
-		_ = params.Gg[i].UnmarshalJSON(j.Gg[i])
-		_ = params.Hh[i].UnmarshalJSON(j.Hh[i])
+func elementsFromRawMessages(j []json.RawMessage, g group.Group) ([]group.Element, error) {
+	var err error
+	elements := make([]group.Element, len(j))
+	for i := range j {
+		elements[i], err = elementFromRawMessage(j[i], g)
+		if err != nil {
+			return nil, err
+		}
 	}
+	return elements, nil
+}
+
+func ipParamsFromRawMessage(j innerProductParamsJSON, g group.Group) (InnerProductParams, error) {
+	var err error
+	params := InnerProductParams{GP: g}
 
-	return params
+	if params.Uu, err = elementFromRawMessage(j.Uu, g); err != nil {
+		return InnerProductParams{}, err
+	}
+	if params.Gg, err = elementsFromRawMessages(j.Gg, g); err != nil {
+		return InnerProductParams{}, err
+	}
+	if params.Hh, err = elementsFromRawMessages(j.Hh, g); err != nil {
+		return InnerProductParams{}, err
+	}
+
+	return params, nil
 }
 
-func ipProofFromRawMessage(j innerProductProofJSON, g group.Group) InnerProductProof {
+func ipProofFromRawMessage(j innerProductProofJSON, g group.Group) (InnerProductProof, error) {
+	if j.Cc == nil || j.A == nil || j.B == nil {
+		return InnerProductProof{}, errors.New("missing inner product value")
+	}
+
+	var err error
 	proof := InnerProductProof{
-		L:      make([]group.Element, len(j.L)),
-		R:      make([]group.Element, len(j.R)),
-		P:      g.Element(),
-		Cc:     j.Cc,
-		A:      j.A,
-		B:      j.B,
-		Params: ipParamsFromRawMessage(j.Params, g),
+		Cc: j.Cc,
+		A:  j.A,
+		B:  j.B,
 	}
 
-	for i := range proof.L {
-		proof.L[i] = g.Element()
-		proof.R[i] = g.Element()
-		_ = proof.L[i].UnmarshalJSON(j.L[i])
-		_ = proof.R[i].UnmarshalJSON(j.R[i])
+	if proof.Params, err = ipParamsFromRawMessage(j.Params, g); err != nil {
+		return InnerProductProof{}, err
+	}
+	if proof.L, err = elementsFromRawMessages(j.L, g); err != nil {
+		return InnerProductProof{}, err
+	}
+	if proof.R, err = elementsFromRawMessages(j.R, g); err != nil {
+		return InnerProductProof{}, err
+	}
+	if proof.P, err = elementFromRawMessage(j.P, g); err != nil {
+		return InnerProductProof{}, err
 	}
-	_ = proof.P.UnmarshalJSON(j.P)
 
-	return proof
+	return proof, nil
 }
 
 func BulletProofUnmarshalJSON(b []byte, params BulletProofSetupParams) (BulletProof, error) {
@@ -84,24 +113,32 @@ func BulletProofUnmarshalJSON(b []byte, params BulletProofSetupParams) (BulletPr
 		return BulletProof{}, err
 	}
 
+	if tmp.Taux == nil || tmp.Mu == nil || tmp.Tprime == nil {
+		return BulletProof{}, errors.New("missing proof value")
+	}
+
 	decodedProof := BulletProof{
-		V:                 params.GP.Element(),
-		A:                 params.GP.Element(),
-		S:                 params.GP.Element(),
-		T1:                params.GP.Element(),
-		T2:                params.GP.Element(),
-		Taux:              tmp.Taux,
-		Mu:                tmp.Mu,
-		Tprime:            tmp.Tprime,
-		InnerProductProof: ipProofFromRawMessage(tmp.InnerProductProof, params.GP),
-		Params:            params,
-	}
-
-	_ = decodedProof.V.UnmarshalJSON(tmp.V)
-	_ = decodedProof.A.UnmarshalJSON(tmp.A)
-	_ = decodedProof.S.UnmarshalJSON(tmp.S)
-	_ = decodedProof.T1.UnmarshalJSON(tmp.T1)
-	_ = decodedProof.T2.UnmarshalJSON(tmp.T2)
+		Taux:   tmp.Taux,
+		Mu:     tmp.Mu,
+		Tprime: tmp.Tprime,
+		Params: params,
+	}
+
+	decodedProof.InnerProductProof, err = ipProofFromRawMessage(tmp.InnerProductProof, params.GP)
+	if err != nil {
+		return BulletProof{}, err
+	}
+
+	elements, err := elementsFromRawMessages([]json.RawMessage{tmp.V, tmp.A, tmp.S, tmp.T1, tmp.T2}, params.GP)
+	if err != nil {
+		return BulletProof{}, err
+	}
+
+	decodedProof.V = elements[0]
+	decodedProof.A = elements[1]
+	decodedProof.S = elements[2]
+	decodedProof.T1 = elements[3]
+	decodedProof.T2 = elements[4]
 
 	return decodedProof, nil
 }
diff --git a/marshal.go b/marshal.go
index add6ced..071608a 100644
--- a/marshal.go
+++ b/marshal.go
@@ -2,6 +2,7 @@ package main
 
 import (
 	"encoding/json"
+	"errors"
 	"github.com/takakv/msc-poc/bulletproofs"
 	"github.com/takakv/msc-poc/group"
 	"github.com/takakv/msc-poc/voteproof"
@@ -31,14 +32,24 @@ func BallotUnmarshalJSON(b []byte, g group.Group) (ElGamalCiphertext, error) {
 		V: g.Element(),
 	}
 
-	_ = ballot.U.UnmarshalJSON(tmp.U)
-	_ = ballot.V.UnmarshalJSON(tmp.V)
+	if len(tmp.U) == 0 || len(tmp.V) == 0 {
+		return ElGamalCiphertext{}, errors.New("missing ciphertext component")
+	}
+	if err = ballot.U.UnmarshalJSON(tmp.U); err != nil {
+		return ElGamalCiphertext{}, err
+	}
+	if err = ballot.V.UnmarshalJSON(tmp.V); err != nil {
+		return ElGamalCiphertext{}, err
+	}
 	return ballot, nil
 }
 
 func BallotDataUnmarshalJSON(b []byte, pp PublicParameters) (BallotData, error) {
 	tmp := ballotDataJSON{}
 	err := json.Unmarshal(b, &tmp)
+	if err != nil {
+		return BallotData{}, err
+	}
 
 	ballot, err := BallotUnmarshalJSON(tmp.Ballot, pp.RPParams.GFF.I)
 	if err != nil {
diff --git a/voteproof/marshal.go b/voteproof/marshal.go
index efdab93..a37689c 100644
--- a/voteproof/marshal.go
+++ b/voteproof/marshal.go
@@ -2,6 +2,7 @@ package voteproof
 
 import (
 	"encoding/json"
+	"errors"
 	"github.com/takakv/msc-poc/group"
 	"math/big"
 )
@@ -50,22 +51,47 @@ func ProofUnmarshalJSON(b []byte, gFF, gEC group.Group) (SigmaProof, error) {
 		return SigmaProof{}, err
 	}
 
+	for _, value := range []*big.Int{
+		tmp.Params.GFF.N, tmp.Params.GFF.F, tmp.Params.GEC.N, tmp.Params.GEC.F,
+		tmp.Challenge, tmp.Z, tmp.Sp, tmp.Sq1, tmp.Sq2,
+	} {
+		if value == nil {
+			return SigmaProof{}, errors.New("missing proof value")
+		}
+	}
+
 	var ap AlgebraicParameters
-	ap.GFF.G = gFF.Element()
-	ap.GFF.H = gFF.Element()
 	ap.GFF.N = tmp.Params.GFF.N
 	ap.GFF.F = tmp.Params.GFF.F
 	ap.GFF.I = gFF
-	ap.GEC.G = gEC.Element()
-	ap.GEC.H = gEC.Element()
 	ap.GEC.N = tmp.Params.GEC.N
 	ap.GEC.F = tmp.Params.GEC.F
 	ap.GEC.I = gEC
 
-	_ = ap.GFF.G.UnmarshalJSON(tmp.Params.GFF.G)
-	_ = ap.GFF.H.UnmarshalJSON(tmp.Params.GFF.H)
-	_ = ap.GEC.G.UnmarshalJSON(tmp.Params.GEC.G)
-	_ = ap.GEC.H.UnmarshalJSON(tmp.Params.GEC.H)
+	var proof SigmaProof
+
+	for _, element := range []struct {
+		target *group.Element
+		data   json.RawMessage
+		group  group.Group
+	}{
+		{&ap.GFF.G, tmp.Params.GFF.G, gFF},
+		{&ap.GFF.H, tmp.Params.GFF.H, gFF},
+		{&ap.GEC.G, tmp.Params.GEC.G, gEC},
+		{&ap.GEC.H, tmp.Params.GEC.H, gEC},
+		{&proof.W, tmp.W, gFF},
+		{&proof.Kp, tmp.Kp, gFF},
+		{&proof.Kq1, tmp.Kq1, gEC},
+		{&proof.Kq2, tmp.Kq2, gEC},
+	} {
+		if len(element.data) == 0 {
+			return SigmaProof{}, errors.New("missing group element")
+		}
+		*element.target = element.group.Element()
+		if err = (*element.target).UnmarshalJSON(element.data); err != nil {
+			return SigmaProof{}, err
+		}
+	}
 
 	var pp ProofParams
 	pp.Bx = tmp.Params.Bx
@@ -77,11 +103,6 @@ func ProofUnmarshalJSON(b []byte, gFF, gEC group.Group) (SigmaProof, error) {
 	pp.GFF = ap.GFF
 	pp.GEC = ap.GEC
 
-	var proof SigmaProof
-	proof.W = gFF.Element()
-	proof.Kp = gFF.Element()
-	proof.Kq1 = gEC.Element()
-	proof.Kq2 = gEC.Element()
 	proof.Challenge = tmp.Challenge
 	proof.Z = tmp.Z
 	proof.Sp = tmp.Sp
@@ -89,9 +110,5 @@ func ProofUnmarshalJSON(b []byte, gFF, gEC group.Group) (SigmaProof, error) {
 	proof.Sq2 = tmp.Sq2
 	proof.Params = pp
 
-	_ = proof.W.UnmarshalJSON(tmp.W)
-	_ = proof.Kp.UnmarshalJSON(tmp.Kp)
-	_ = proof.Kq1.UnmarshalJSON(tmp.Kq1)
-	_ = proof.Kq2.UnmarshalJSON(tmp.Kq2)
 	return proof, nil
 }
-- 
2.43.0


From 085b79d36fa2b46e0643badb68e8ae0a56ea1b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:39 +0000
Subject: [PATCH 17/18] fix: validate the parameters of decoded equality proofs

A document with a challenge length beyond the digest, or with an enormous abort
parameter, made the verifier panic or exhaust the memory.
---
 voteproof/marshal.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/voteproof/marshal.go b/voteproof/marshal.go
index a37689c..71f47f6 100644
--- a/voteproof/marshal.go
+++ b/voteproof/marshal.go
@@ -93,15 +93,14 @@ func ProofUnmarshalJSON(b []byte, gFF, gEC group.Group) (SigmaProof, error) {
 		}
 	}
 
-	var pp ProofParams
-	pp.Bx = tmp.Params.Bx
-	pp.Bc = tmp.Params.Bc
-	pp.Bg = tmp.Params.Bg
-	pp.Bb = tmp.Params.Bb
-	pp.RangeLo = tmp.Params.RangeLo
-	pp.RangeHi = tmp.Params.RangeHi
-	pp.GFF = ap.GFF
-	pp.GEC = ap.GEC
+	pp, err := Setup(tmp.Params.Bx, tmp.Params.Bc, tmp.Params.Bg,
+		tmp.Params.RangeLo, tmp.Params.RangeHi, ap)
+	if err != nil {
+		return SigmaProof{}, err
+	}
+	if pp.Bb != tmp.Params.Bb {
+		return SigmaProof{}, errors.New("inconsistent parameter choice")
+	}
 
 	proof.Challenge = tmp.Challenge
 	proof.Z = tmp.Z
-- 
2.43.0


From 61bcca0a00ffa0a79590fa43fa5d6a622f0c73f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:09 +0000
Subject: [PATCH 18/18] fix: record the curve group's own field order in its
 parameters

setup() recorded the modulus of the ElGamal group as the field size of the
curve group, which also went into every serialised proof.
---
 main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 34519d5..a6684e0 100644
--- a/main.go
+++ b/main.go
@@ -84,7 +84,7 @@ func setup(curveGroup group.Group) (PublicParameters, error) {
 
 	var curveGroupParams voteproof.GroupParameters
 	curveGroupParams.I = curveGroup
-	curveGroupParams.F = fieldGroupParams.I.P()
+	curveGroupParams.F = curveGroupParams.I.P()
 	curveGroupParams.N = curveGroupParams.I.N()
 	curveGroupParams.G = curveGroupParams.I.Generator()
 	curveGroupParams.H = bpParams.H
-- 
2.43.0

