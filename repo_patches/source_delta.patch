From b34fed45632626af77b613385d8262c10e72b5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:54 +0000
Subject: [PATCH 01/19] fix: derive the second range-proof challenge from its
 own buffer

HashBP hashed the first buffer twice, so y and z were always equal.
---
 bulletproofs/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bulletproofs/util.go b/bulletproofs/util.go
index c595a02..4986f68 100644
--- a/bulletproofs/util.go
+++ b/bulletproofs/util.go
@@ -67,7 +67,7 @@ func HashBP(A, S group.Element) (*big.Int, *big.Int, error) {
 	buffer2.WriteString(A.String())
 	buffer2.WriteString(S.String())
 	buffer2.WriteString(result1.String())
-	digest2.Write(buffer.Bytes())
+	digest2.Write(buffer2.Bytes())
 	output2 := digest2.Sum(nil)
 	tmp2 := output2[0:]
 	result2 := new(big.Int).SetBytes(tmp2)
-- 
2.43.0


From aea8c4faa23ee2a32970af247247fe4cd657c586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:55 +0000
Subject: [PATCH 02/19] fix: commit to aL and scale the powers of two in
 aggregated range proofs

MultiProve committed to aR twice and MultiBulletProof.Verify added z^(j+2) to
the powers of two instead of multiplying by it, so no honest proof verified.
---
 bulletproofs/multibp.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bulletproofs/multibp.go b/bulletproofs/multibp.go
index 1755a02..2303bdf 100644
--- a/bulletproofs/multibp.go
+++ b/bulletproofs/multibp.go
@@ -83,7 +83,7 @@ func MultiProve(secrets []*big.Int, params BulletProofSetupParams) (MultiBulletP
 
 	// Commitment: (A, alpha)
 	alpha, _ := rand.Int(rand.Reader, mod)                                                            // (43)
-	A := commitVector(aRConcat, aRConcat, alpha, params.H, params.Gg, params.Hh, params.N, params.GP) // (44)
+	A := commitVector(aLConcat, aRConcat, alpha, params.H, params.Gg, params.Hh, params.N, params.GP) // (44)
 
 	// sL, sR and commitment: (S, rho)
 	sL := sampleRandomVector(params.N, params.GP)                                          // (45)
@@ -297,7 +297,7 @@ func (proof *MultiBulletProof) Verify() (bool, error) {
 	for j := 0; j < m; j++ {
 		hpSlide := hp[j*bitsPerValue : (j+1)*bitsPerValue]
 		zp := new(big.Int).Exp(z, big.NewInt(2+int64(j)), mod)
-		exp := VectorAddConst(powersOfTwo, zp, mod)
+		exp, _ := VectorScalarMul(powersOfTwo, zp, mod)
 		val, _ := VectorExp(hpSlide, exp, params.GP)
 		prod.Add(prod, val)
 	}
-- 
2.43.0


From 9b440e54db4b2a781c6c18086ced003f6f4c5333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:56 +0000
Subject: [PATCH 03/19] fix: no negative number is a power of two

IsPowerOfTwo(math.MinInt64) was true, and Setup panicked on it.
---
 bulletproofs/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bulletproofs/util.go b/bulletproofs/util.go
index 4986f68..487a1c6 100644
--- a/bulletproofs/util.go
+++ b/bulletproofs/util.go
@@ -128,5 +128,5 @@ IsPowerOfTwo returns true for arguments that are a power of 2, false otherwise.
 https://stackoverflow.com/a/600306/844313
 */
 func IsPowerOfTwo(x int64) bool {
-	return (x != 0) && ((x & (x - 1)) == 0)
+	return (x > 0) && ((x & (x - 1)) == 0)
 }
-- 
2.43.0


From 4ec87d3410f861647dcbbbccd8e3831bd881e079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:56 +0000
Subject: [PATCH 04/19] fix: publish the curve's own field order in the curve
 group parameters

---
 main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 34519d5..a6684e0 100644
--- a/main.go
+++ b/main.go
@@ -84,7 +84,7 @@ func setup(curveGroup group.Group) (PublicParameters, error) {
 
 	var curveGroupParams voteproof.GroupParameters
 	curveGroupParams.I = curveGroup
-	curveGroupParams.F = fieldGroupParams.I.P()
+	curveGroupParams.F = curveGroupParams.I.P()
 	curveGroupParams.N = curveGroupParams.I.N()
 	curveGroupParams.G = curveGroupParams.I.Generator()
 	curveGroupParams.H = bpParams.H
-- 
2.43.0


From afa5d8ea68ab7d63b8a16fb5666767561f416fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:57 +0000
Subject: [PATCH 05/19] fix: verify the vote proof with the server's parameters

verifyVote used the bit lengths, groups and generators embedded in the ballot.
---
 server.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server.go b/server.go
index 697feeb..90c1980 100644
--- a/server.go
+++ b/server.go
@@ -41,6 +41,8 @@ func verifyVote(proofs BallotData, rpParams voteproof.ProofParams) (bool, []time
 	}
 
 	// Verify the consistency of the shifted commitments with the ElGamal ciphertext.
+	// The parameters embedded in the ballot are the voter's: decide with our own.
+	proofs.VoteProof.Params = rpParams
 	result := proofs.VoteProof.Verify(commitments)
 	durationRP := time.Since(startRP)
 
-- 
2.43.0


From 8a5bc27e9adc119fd640fa082fd032fbd5574fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:58 +0000
Subject: [PATCH 06/19] fix: verify the inner-product part of range proofs over
 our own generators

The generators, u and the inner product itself were taken from the proof, so a
prover could pick generators, or an inner product other than t', for which any
value passes. A wrong number of folding rounds panicked or was accepted.
---
 bulletproofs/bip.go     | 18 ++++++++++++++++++
 bulletproofs/bp.go      |  4 +++-
 bulletproofs/multibp.go |  4 +++-
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/bulletproofs/bip.go b/bulletproofs/bip.go
index 9b2b63c..4dfbb83 100644
--- a/bulletproofs/bip.go
+++ b/bulletproofs/bip.go
@@ -215,6 +215,10 @@ Verify is responsible for the verification of the Inner Product Proof.
 func (proof InnerProductProof) Verify() (bool, error) {
 
 	logn := len(proof.L)
+	if len(proof.R) != logn || logn > 32 || len(proof.Params.Gg) != 1<<logn || len(proof.Params.Hh) != 1<<logn {
+		return false, errors.New("number of rounds does not match the number of generators")
+	}
+
 	var (
 		x, xinv, x2, x2inv                   *big.Int
 		ngprime, nhprime, ngprime2, nhprime2 []group.Element
@@ -265,6 +269,20 @@ func (proof InnerProductProof) Verify() (bool, error) {
 	return c, nil
 }
 
+/*
+verifyWith verifies the proof over the given generators, ignoring the ones
+embedded in the proof.
+*/
+func (proof InnerProductProof) verifyWith(g, h []group.Element, N int64, SP group.Group) bool {
+	params, err := setupInnerProduct(g, h, N, SP)
+	if err != nil {
+		return false
+	}
+	proof.Params = params
+	ok, _ := proof.Verify()
+	return ok
+}
+
 /*
 hashIP is responsible for the computing a Zp element given elements from GT and G1.
 */
diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index 19322b3..750ccb4 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -324,7 +324,9 @@ func (proof *BulletProof) Verify() (bool, error) {
 	c67 := rP.IsIdentity()
 
 	// Verify Inner Product Proof ################################################
-	ok, _ := proof.InnerProductProof.Verify()
+	// The inner product must be t', over the verifier's own generators.
+	ok := proof.InnerProductProof.Cc.Cmp(proof.Tprime) == 0 &&
+		proof.InnerProductProof.verifyWith(params.Gg, hp, params.N, params.GP)
 
 	result := c65 && c67 && ok
 
diff --git a/bulletproofs/multibp.go b/bulletproofs/multibp.go
index 2303bdf..dea276a 100644
--- a/bulletproofs/multibp.go
+++ b/bulletproofs/multibp.go
@@ -318,7 +318,9 @@ func (proof *MultiBulletProof) Verify() (bool, error) {
 	fmt.Println("Check 67:", c67)
 
 	// Verify Inner Product Proof ################################################
-	ok, _ := proof.InnerProductProof.Verify()
+	// The inner product must be t', over the verifier's own generators.
+	ok := proof.InnerProductProof.Cc.Cmp(proof.Tprime) == 0 &&
+		proof.InnerProductProof.verifyWith(params.Gg, hp, params.N, params.GP)
 	fmt.Println("Check 68:", ok)
 
 	result := c65 && c67 && ok
-- 
2.43.0


From 1b7c59be360b4316f086b92f00a6112e9e08fa69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:00 +0000
Subject: [PATCH 07/19] fix: aggregated range proofs need a value count that
 divides the bit-length

An empty list divided by zero; other counts left bits uncovered.
---
 bulletproofs/multibp.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bulletproofs/multibp.go b/bulletproofs/multibp.go
index dea276a..ff2180e 100644
--- a/bulletproofs/multibp.go
+++ b/bulletproofs/multibp.go
@@ -19,6 +19,7 @@ package bulletproofs
 
 import (
 	"crypto/rand"
+	"errors"
 	"fmt"
 	"github.com/takakv/msc-poc/group"
 	"math/big"
@@ -54,6 +55,9 @@ func MultiProve(secrets []*big.Int, params BulletProofSetupParams) (MultiBulletP
 	mod := params.GP.N()
 
 	m := len(secrets)
+	if m == 0 || params.N%int64(m) != 0 {
+		return proof, nil, errors.New("number of values does not divide the bit-length")
+	}
 	bitsPerValue := int(params.N) / m
 
 	commitments := make([]group.Element, m)
@@ -229,6 +233,9 @@ func (proof *MultiBulletProof) Verify() (bool, error) {
 	mod := params.GP.N()
 
 	m := len(proof.Vs)
+	if m == 0 || params.N%int64(m) != 0 {
+		return false, errors.New("number of values does not divide the bit-length")
+	}
 	bitsPerValue := int(params.N) / m
 
 	// Recover x, y, z using Fiat-Shamir heuristic
-- 
2.43.0


From 8986665e5fd6a22ccd584740dee4cafab38850d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:00 +0000
Subject: [PATCH 08/19] fix: hash the commitment and all earlier messages into
 the range-proof challenges

y and z did not depend on V, nor x on V, A and S, so a prover could pick V after
the challenges and obtain an accepted proof for an out-of-range value.
---
 bulletproofs/bp.go      |  8 ++++----
 bulletproofs/multibp.go | 10 ++++++----
 bulletproofs/util.go    | 15 +++++++++------
 3 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index 750ccb4..b23f600 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -130,7 +130,7 @@ func Prove(secret *big.Int, params BulletProofSetupParams) (BulletProof, *big.In
 	proof.S = S // (48)
 
 	// Fiat-Shamir heuristic to compute challenges y and z.
-	y, z, _ := HashBP(A, S) // (49) & (50)
+	y, z, _ := HashBP(V, A, S) // (49) & (50)
 
 	// ////////////////////////////////////////////////////////////////////////////
 	// Second phase: page 20                                                     //
@@ -187,7 +187,7 @@ func Prove(secret *big.Int, params BulletProofSetupParams) (BulletProof, *big.In
 	proof.T2 = T2 // (54)
 
 	// Fiat-Shamir heuristic to compute 'random' challenge x
-	x, _, _ := HashBP(T1, T2) // (55) & (56)
+	x, _, _ := HashBP(V, A, S, T1, T2) // (55) & (56)
 
 	// ////////////////////////////////////////////////////////////////////////////
 	// Third phase: page 20                                                      //
@@ -250,8 +250,8 @@ func (proof *BulletProof) Verify() (bool, error) {
 	mod := params.GP.N()
 
 	// Recover x, y, z using Fiat-Shamir heuristic
-	x, _, _ := HashBP(proof.T1, proof.T2)
-	y, z, _ := HashBP(proof.A, proof.S)
+	x, _, _ := HashBP(proof.V, proof.A, proof.S, proof.T1, proof.T2)
+	y, z, _ := HashBP(proof.V, proof.A, proof.S)
 
 	zSquared := new(big.Int).Mod(new(big.Int).Mul(z, z), mod)
 	xSquared := new(big.Int).Mod(new(big.Int).Mul(x, x), mod)
diff --git a/bulletproofs/multibp.go b/bulletproofs/multibp.go
index ff2180e..bd546fa 100644
--- a/bulletproofs/multibp.go
+++ b/bulletproofs/multibp.go
@@ -99,7 +99,8 @@ func MultiProve(secrets []*big.Int, params BulletProofSetupParams) (MultiBulletP
 	proof.S = S // (48)
 
 	// Fiat-Shamir heuristic to compute challenges y and z.
-	y, z, _ := HashBP(A, S) // (49) & (50)
+	transcript := append(append([]group.Element{}, commitments...), A, S)
+	y, z, _ := HashBP(transcript...) // (49) & (50)
 
 	// ////////////////////////////////////////////////////////////////////////////
 	// Second phase: page 20                                                     //
@@ -162,7 +163,7 @@ func MultiProve(secrets []*big.Int, params BulletProofSetupParams) (MultiBulletP
 	proof.T2 = T2 // (54)
 
 	// Fiat-Shamir heuristic to compute 'random' challenge x
-	x, _, _ := HashBP(T1, T2) // (55) & (56)
+	x, _, _ := HashBP(append(transcript, T1, T2)...) // (55) & (56)
 
 	// ////////////////////////////////////////////////////////////////////////////
 	// Third phase: page 20                                                      //
@@ -239,8 +240,9 @@ func (proof *MultiBulletProof) Verify() (bool, error) {
 	bitsPerValue := int(params.N) / m
 
 	// Recover x, y, z using Fiat-Shamir heuristic
-	x, _, _ := HashBP(proof.T1, proof.T2)
-	y, z, _ := HashBP(proof.A, proof.S)
+	transcript := append(append([]group.Element{}, proof.Vs...), proof.A, proof.S)
+	y, z, _ := HashBP(transcript...)
+	x, _, _ := HashBP(append(transcript, proof.T1, proof.T2)...)
 
 	zSquared := new(big.Int).Mod(new(big.Int).Mul(z, z), mod)
 	xSquared := new(big.Int).Mod(new(big.Int).Mul(x, x), mod)
diff --git a/bulletproofs/util.go b/bulletproofs/util.go
index 487a1c6..6fee069 100644
--- a/bulletproofs/util.go
+++ b/bulletproofs/util.go
@@ -49,14 +49,16 @@ func powerOf(x *big.Int, n int64, SP group.Group) []*big.Int {
 }
 
 /*
-HashBP is responsible for the computing a Zp element given elements from GT and G1.
+HashBP is responsible for the computing a Zp element given the elements of the
+transcript so far.
 */
-func HashBP(A, S group.Element) (*big.Int, *big.Int, error) {
+func HashBP(transcript ...group.Element) (*big.Int, *big.Int, error) {
 
 	digest1 := sha256.New()
 	var buffer bytes.Buffer
-	buffer.WriteString(A.String())
-	buffer.WriteString(S.String())
+	for _, e := range transcript {
+		buffer.WriteString(e.String())
+	}
 	digest1.Write(buffer.Bytes())
 	output1 := digest1.Sum(nil)
 	tmp1 := output1[0:]
@@ -64,8 +66,9 @@ func HashBP(A, S group.Element) (*big.Int, *big.Int, error) {
 
 	digest2 := sha256.New()
 	var buffer2 bytes.Buffer
-	buffer2.WriteString(A.String())
-	buffer2.WriteString(S.String())
+	for _, e := range transcript {
+		buffer2.WriteString(e.String())
+	}
 	buffer2.WriteString(result1.String())
 	digest2.Write(buffer2.Bytes())
 	output2 := digest2.Sum(nil)
-- 
2.43.0


From 66df6712c21e33bf27c80cdf2f456f2d078d7a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:01 +0000
Subject: [PATCH 09/19] fix: chain the challenges of the inner-product argument

The round challenges did not depend on the commitment, the claimed inner product
or earlier rounds, so a false inner product could be proven by choosing the
commitment after them.
---
 bulletproofs/bip.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/bulletproofs/bip.go b/bulletproofs/bip.go
index 4dfbb83..88e08c7 100644
--- a/bulletproofs/bip.go
+++ b/bulletproofs/bip.go
@@ -121,7 +121,7 @@ func proveInnerProduct(a, b []*big.Int, P group.Element, c *big.Int, params Inne
 	PP, ux := computePP(P, c, x, params) // (8)
 
 	// Execute Protocol 2 recursively
-	proof = computeBipRecursive(a, b, params.Gg, params.Hh, ux, PP, n, Ls, Rs, params.GP) // 9
+	proof = computeBipRecursive(a, b, params.Gg, params.Hh, ux, PP, x, n, Ls, Rs, params.GP) // 9
 
 	proof.Params = params
 	proof.P = P
@@ -132,8 +132,9 @@ func proveInnerProduct(a, b []*big.Int, P group.Element, c *big.Int, params Inne
 
 /*
 computeBipRecursive is the main recursive function that will be used to compute the inner product argument.
+prev is the challenge of the previous round.
 */
-func computeBipRecursive(a, b []*big.Int, g, h []group.Element, u, P group.Element, n int64, Ls, Rs []group.Element, SP group.Group) InnerProductProof {
+func computeBipRecursive(a, b []*big.Int, g, h []group.Element, u, P group.Element, prev *big.Int, n int64, Ls, Rs []group.Element, SP group.Group) InnerProductProof {
 	var (
 		proof                            InnerProductProof
 		cL, cR, x, xinv, x2, x2inv       *big.Int
@@ -173,7 +174,7 @@ func computeBipRecursive(a, b []*big.Int, g, h []group.Element, u, P group.Eleme
 	R.Add(R, SP.Element().Scale(u, cR))
 
 	// Fiat-Shamir:                                                       // (26)
-	x, _, _ = HashBP(L, R)
+	x = hashRound(prev, L, R)
 	xinv = bn.ModInverse(x, SP.N())
 
 	// Compute g' = g[:n']^(x^-1) * g[n':]^(x)                            // (29)
@@ -204,7 +205,7 @@ func computeBipRecursive(a, b []*big.Int, g, h []group.Element, u, P group.Eleme
 	Ls = append(Ls, L)
 	Rs = append(Rs, R)
 	// recursion computeBipRecursive(g',h',u,P'; a', b')                  // (35)
-	proof = computeBipRecursive(aprime, bprime, gprime, hprime, u, Pprime, nprime, Ls, Rs, SP)
+	proof = computeBipRecursive(aprime, bprime, gprime, hprime, u, Pprime, x, nprime, Ls, Rs, SP)
 
 	return proof
 }
@@ -235,7 +236,7 @@ func (proof InnerProductProof) Verify() (bool, error) {
 	nprime := len(gprime)
 	for i := int64(0); i < int64(logn); i++ {
 		nprime = nprime / 2                      // (20)
-		x, _, _ = HashBP(proof.L[i], proof.R[i]) // (26)
+		x = hashRound(x, proof.L[i], proof.R[i]) // (26)
 		xinv = bn.ModInverse(x, proof.Params.GP.N())
 		// Compute g' = g[:n']^(x^-1) * g[n':]^(x)                            // (29)
 		ngprime = vectorScalarExp(gprime[:nprime], xinv, proof.Params.GP)
@@ -303,6 +304,16 @@ func hashIP(g, h []group.Element, P group.Element, c *big.Int) (*big.Int, error)
 	return result, err
 }
 
+/*
+hashRound computes the challenge of a folding round from the previous challenge
+and the elements of the round.
+*/
+func hashRound(prev *big.Int, L, R group.Element) *big.Int {
+	digest := sha256.New()
+	digest.Write([]byte(prev.String() + "," + L.String() + R.String()))
+	return new(big.Int).SetBytes(digest.Sum(nil))
+}
+
 /*
 commitInnerProduct is responsible for calculating g^a.h^b.
 */
-- 
2.43.0


From 75b9f1ad0bf9e2d20c484443dac626d9a2d90ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:02 +0000
Subject: [PATCH 10/19] fix: hash the statement into the vote-proof challenge,
 unambiguously

The challenge did not depend on the ciphertext and commitments, so they could be
chosen after it to make a ciphertext of one value pass with commitments to
another. Decimal encodings were also concatenated without separators.
---
 voteproof/voteproof.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/voteproof/voteproof.go b/voteproof/voteproof.go
index ca42be8..71ba4a4 100644
--- a/voteproof/voteproof.go
+++ b/voteproof/voteproof.go
@@ -109,14 +109,14 @@ func sigmaPedersenCheck(z, s, c *big.Int, k, x group.Element, gp GroupParameters
 	return left.IsEqual(right)
 }
 
-func getFSChallenge(w group.Element, Kp group.Element, Kq1, Kq2 group.Element, pow2bound uint16) *big.Int {
+func getFSChallenge(comm VerCommitments, w group.Element, Kp group.Element, Kq1, Kq2 group.Element, pow2bound uint16) *big.Int {
 	hasher := sha256.New()
 
 	var buffer bytes.Buffer
-	buffer.WriteString(w.String())
-	buffer.WriteString(Kp.String())
-	buffer.WriteString(Kq1.String())
-	buffer.WriteString(Kq2.String())
+	for _, e := range []group.Element{comm.Y, comm.Xp, comm.Xq1, comm.Xq2, w, Kp, Kq1, Kq2} {
+		// Separate the elements: their encodings need not have a fixed length.
+		buffer.WriteString(e.String() + ",")
+	}
 	hasher.Write(buffer.Bytes())
 
 	challenge := hasher.Sum(nil)[:pow2bound/8]
@@ -130,6 +130,14 @@ func Prove(secret *big.Int, rp *big.Int, rq1, rq2 *big.Int, params ProofParams)
 	// Exclusive upper bound
 	zUpperBound := new(big.Int).Exp(BigTwo, new(big.Int).Add(bxbc, big.NewInt(int64(params.Bb))), nil)
 
+	// The statement to be proven
+	comm := VerCommitments{
+		Y:   params.GFF.I.Element().BaseScale(rp),
+		Xp:  pedersenCommit(secret, rp, params.GFF),
+		Xq1: pedersenCommit(secret, rq1, params.GEC),
+		Xq2: pedersenCommit(secret, rq2, params.GEC),
+	}
+
 	// Abort loop
 	for {
 		// Setup
@@ -148,7 +156,7 @@ func Prove(secret *big.Int, rp *big.Int, rq1, rq2 *big.Int, params ProofParams)
 		Kq2 := pedersenCommit(kq, tq2, params.GEC)
 
 		// Challenge
-		challenge := getFSChallenge(w, Kp, Kq1, Kq2, params.Bc)
+		challenge := getFSChallenge(comm, w, Kp, Kq1, Kq2, params.Bc)
 		z := new(big.Int).Add(k, new(big.Int).Mul(challenge, secret))
 		if z.Cmp(zLowerBound) == -1 || z.Cmp(zUpperBound) != -1 {
 			fmt.Println("Aborted")
@@ -192,7 +200,7 @@ func (proof *SigmaProof) Verify(comm VerCommitments) bool {
 	}
 
 	// Verify challenge correctness.
-	challenge := getFSChallenge(proof.W, proof.Kp, proof.Kq1, proof.Kq2, proof.Params.Bc)
+	challenge := getFSChallenge(comm, proof.W, proof.Kp, proof.Kq1, proof.Kq2, proof.Params.Bc)
 	if challenge.Cmp(proof.Challenge) != 0 {
 		return false
 	}
-- 
2.43.0


From 1ac1f54fed6f53708fd3c11a9a62a83446f753ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:40 +0000
Subject: [PATCH 11/19] fix: decode P-256 and P-384 points strictly, into a new
 element

---
 group/p256.go | 23 +++++++++++++++++------
 group/p384.go | 23 +++++++++++++++++------
 2 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/group/p256.go b/group/p256.go
index d329728..82faf0b 100644
--- a/group/p256.go
+++ b/group/p256.go
@@ -151,8 +151,15 @@ func (e *p256Point) MarshalBinary() ([]byte, error) {
 }
 
 func (e *p256Point) UnmarshalBinary(data []byte) error {
-	err := e.val.UnmarshalBinary(data)
-	return err
+	// Decode into a new element: e.val may be shared with the underlying
+	// library (the generator), and must not change if decoding fails.
+	val := group.P256.NewElement()
+	err := val.UnmarshalBinary(data)
+	if err != nil {
+		return err
+	}
+	e.val = val
+	return nil
 }
 
 func (e *p256Point) MarshalJSON() ([]byte, error) {
@@ -186,10 +193,15 @@ func (e *p256Point) UnmarshalJSON(data []byte) error {
 		return err
 	}
 
+	for _, c := range []*big.Int{point.X, point.Y} {
+		if c == nil || c.Sign() < 0 || c.Cmp(e.curve.fieldOrder) >= 0 {
+			return fmt.Errorf("invalid point coordinate")
+		}
+	}
+
 	// The special case encoding of the point at infinity.
 	if point.X.Cmp(big.NewInt(0)) == 0 && point.Y.Cmp(big.NewInt(0)) == 0 {
-		err = e.val.UnmarshalBinary([]byte{0})
-		return err
+		return e.UnmarshalBinary([]byte{0})
 	}
 
 	byteLen := 32
@@ -202,8 +214,7 @@ func (e *p256Point) UnmarshalJSON(data []byte) error {
 	// Copy while maintaining leading zeroes.
 	copy(tmp[1+byteLen-len(xBytes):byteLen+1], point.X.Bytes())
 	copy(tmp[1+2*byteLen-len(yBytes):], point.Y.Bytes())
-	err = e.val.UnmarshalBinary(tmp)
-	return err
+	return e.UnmarshalBinary(tmp)
 }
 
 func P256() Group {
diff --git a/group/p384.go b/group/p384.go
index cd298b1..4cd0027 100644
--- a/group/p384.go
+++ b/group/p384.go
@@ -151,8 +151,15 @@ func (e *p384Point) MarshalBinary() ([]byte, error) {
 }
 
 func (e *p384Point) UnmarshalBinary(data []byte) error {
-	err := e.val.UnmarshalBinary(data)
-	return err
+	// Decode into a new element: e.val may be shared with the underlying
+	// library (the generator), and must not change if decoding fails.
+	val := group.P384.NewElement()
+	err := val.UnmarshalBinary(data)
+	if err != nil {
+		return err
+	}
+	e.val = val
+	return nil
 }
 
 func (e *p384Point) MarshalJSON() ([]byte, error) {
@@ -186,10 +193,15 @@ func (e *p384Point) UnmarshalJSON(data []byte) error {
 		return err
 	}
 
+	for _, c := range []*big.Int{point.X, point.Y} {
+		if c == nil || c.Sign() < 0 || c.Cmp(e.curve.fieldOrder) >= 0 {
+			return fmt.Errorf("invalid point coordinate")
+		}
+	}
+
 	// The special case encoding of the point at infinity.
 	if point.X.Cmp(big.NewInt(0)) == 0 && point.Y.Cmp(big.NewInt(0)) == 0 {
-		err = e.val.UnmarshalBinary([]byte{0})
-		return err
+		return e.UnmarshalBinary([]byte{0})
 	}
 
 	byteLen := 48
@@ -202,8 +214,7 @@ func (e *p384Point) UnmarshalJSON(data []byte) error {
 	// Copy while maintaining leading zeroes.
 	copy(tmp[1+byteLen-len(xBytes):byteLen+1], point.X.Bytes())
 	copy(tmp[1+2*byteLen-len(yBytes):], point.Y.Bytes())
-	err = e.val.UnmarshalBinary(tmp)
-	return err
+	return e.UnmarshalBinary(tmp)
 }
 
 func P384() Group {
-- 
2.43.0


From 04aca1347bc7973fbf83ba1a25944f7fa0228fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:20 +0000
Subject: [PATCH 12/19] fix: encode ristretto255 elements canonically in JSON,
 never decode to an invalid point

---
 group/ristretto255.go | 64 +++++++++++++------------------------------
 1 file changed, 19 insertions(+), 45 deletions(-)

diff --git a/group/ristretto255.go b/group/ristretto255.go
index 10db44c..4da1f09 100644
--- a/group/ristretto255.go
+++ b/group/ristretto255.go
@@ -3,7 +3,6 @@ package group
 import (
 	"crypto/rand"
 	"encoding/json"
-	"fmt"
 	"github.com/cloudflare/circl/group"
 	"math/big"
 )
@@ -105,7 +104,7 @@ func (e *r255Point) Set(x Element) Element {
 
 func (e *r255Point) SetBytes(b []byte) Element {
 	e.val = group.Ristretto255.NewElement()
-	e.val.UnmarshalBinary(b)
+	_ = e.UnmarshalBinary(b)
 	return e
 }
 
@@ -151,59 +150,34 @@ func (e *r255Point) MarshalBinary() ([]byte, error) {
 }
 
 func (e *r255Point) UnmarshalBinary(data []byte) error {
-	err := e.val.UnmarshalBinary(data)
-	return err
+	// Decode into a new element: a failed decoding leaves behind an invalid
+	// point that compares equal to every other one.
+	val := group.Ristretto255.NewElement()
+	err := val.UnmarshalBinary(data)
+	if err != nil {
+		return err
+	}
+	e.val = val
+	return nil
 }
 
+// MarshalJSON encodes the element as the base64 string of its canonical
+// encoding. There are no affine coordinates to speak of.
 func (e *r255Point) MarshalJSON() ([]byte, error) {
-	tmp, _ := e.val.MarshalBinary()
-	xVal := big.NewInt(0)
-	yVal := big.NewInt(0)
-
-	// If the point is not 0.
-	if tmp[0] != 0 {
-		xBytes := tmp[1 : 32+1]
-		yBytes := tmp[1+32:]
-		if len(xBytes) != 32 || len(xBytes) != len(yBytes) {
-			return nil, fmt.Errorf("error in underlying binary marshalling")
-		}
-		xVal.SetBytes(xBytes)
-		yVal.SetBytes(yBytes)
-	}
-
-	point := ECPoint{
-		X: xVal,
-		Y: yVal,
+	tmp, err := e.val.MarshalBinary()
+	if err != nil {
+		return nil, err
 	}
-
-	return json.Marshal(&point)
+	return json.Marshal(tmp)
 }
 
 func (e *r255Point) UnmarshalJSON(data []byte) error {
-	point := ECPoint{}
-	err := json.Unmarshal(data, &point)
+	var tmp []byte
+	err := json.Unmarshal(data, &tmp)
 	if err != nil {
 		return err
 	}
-
-	// The special case encoding of the point at infinity.
-	if point.X.Cmp(big.NewInt(0)) == 0 && point.Y.Cmp(big.NewInt(0)) == 0 {
-		err = e.val.UnmarshalBinary([]byte{0})
-		return err
-	}
-
-	byteLen := 32
-
-	xBytes := point.X.Bytes()
-	yBytes := point.Y.Bytes()
-
-	tmp := make([]byte, 1+2*byteLen)
-	tmp[0] = 4
-	// Copy while maintaining leading zeroes.
-	copy(tmp[1+byteLen-len(xBytes):byteLen+1], point.X.Bytes())
-	copy(tmp[1+2*byteLen-len(yBytes):], point.Y.Bytes())
-	err = e.val.UnmarshalBinary(tmp)
-	return err
+	return e.UnmarshalBinary(tmp)
 }
 
 func Ristretto255() Group {
-- 
2.43.0


From 30c55297d12415c65fa034fa6d9b7a343daacc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:07 +0000
Subject: [PATCH 13/19] fix: encode secp256k1 points at their full length and
 decode only points of the curve

---
 group/p256k1.go | 70 ++++++++++++++++++++++++++++++++++---------------
 1 file changed, 49 insertions(+), 21 deletions(-)

diff --git a/group/p256k1.go b/group/p256k1.go
index 233e702..50cbfda 100644
--- a/group/p256k1.go
+++ b/group/p256k1.go
@@ -3,6 +3,7 @@ package group
 import (
 	"crypto/rand"
 	"encoding/json"
+	"errors"
 	"github.com/ing-bank/zkrp/crypto/p256"
 	"math/big"
 )
@@ -123,11 +124,8 @@ func (e *p256k1Point) Set(a Element) Element {
 }
 
 func (e *p256k1Point) SetBytes(b []byte) Element {
-	xBytes := b[:32]
-	yBytes := b[32:]
 	e.val = new(p256.P256).SetInfinity()
-	e.val.X = new(big.Int).SetBytes(xBytes)
-	e.val.Y = new(big.Int).SetBytes(yBytes)
+	_ = e.UnmarshalBinary(b)
 	return e
 }
 
@@ -151,11 +149,12 @@ func (e *p256k1Point) FieldOrder() *big.Int {
 }
 
 func (e *p256k1Point) MapToGroup(s string) (Element, error) {
-	tmp, _ := p256.MapToGroup(s)
-	tmpX := tmp.X.Bytes()
-	tmpY := tmp.Y.Bytes()
-	res := e.curve.Element().SetBytes(append(tmpX, tmpY...))
-	return res, nil
+	tmp, err := p256.MapToGroup(s)
+	if err != nil {
+		return nil, err
+	}
+	e.val = tmp
+	return e, nil
 }
 
 func (e *p256k1Point) String() string {
@@ -169,31 +168,60 @@ func (e *p256k1Point) IsIdentity() bool {
 	return e.val.X.Cmp(big.NewInt(0)) == 0 && e.val.Y.Cmp(big.NewInt(0)) == 0
 }
 
-func (e *p256k1Point) MarshalBinary() ([]byte, error) {
-	xBytes := make([]byte, 32)
-	if e.val.X != nil {
-		xBytes = e.val.X.Bytes()
+// setCoordinates sets the receiver to the point with the given affine
+// coordinates. The coordinates (0, 0) stand for the point at infinity.
+func (e *p256k1Point) setCoordinates(x, y *big.Int) error {
+	for _, c := range []*big.Int{x, y} {
+		if c == nil || c.Sign() < 0 || c.Cmp(e.curve.fieldOrder) >= 0 {
+			return errors.New("invalid point coordinate")
+		}
 	}
 
-	yBytes := make([]byte, 32)
-	if e.val.Y != nil {
-		yBytes = e.val.Y.Bytes()
+	val := new(p256.P256).SetInfinity()
+	if x.Sign() != 0 || y.Sign() != 0 {
+		val.X = x
+		val.Y = y
+		if !val.IsOnCurve() {
+			return errors.New("point is not on the curve")
+		}
 	}
+	e.val = val
+	return nil
+}
 
-	return append(xBytes, yBytes...), nil
+func (e *p256k1Point) MarshalBinary() ([]byte, error) {
+	data := make([]byte, 64)
+	if !e.IsIdentity() {
+		// Maintain leading zeroes.
+		e.val.X.FillBytes(data[:32])
+		e.val.Y.FillBytes(data[32:])
+	}
+	return data, nil
 }
 
 func (e *p256k1Point) UnmarshalBinary(data []byte) error {
-	e.SetBytes(data)
-	return nil
+	if len(data) != 64 {
+		return errors.New("invalid point encoding length")
+	}
+	return e.setCoordinates(new(big.Int).SetBytes(data[:32]), new(big.Int).SetBytes(data[32:]))
 }
 
 func (e *p256k1Point) MarshalJSON() ([]byte, error) {
-	return json.Marshal(e.val)
+	point := ECPoint{X: big.NewInt(0), Y: big.NewInt(0)}
+	if !e.IsIdentity() {
+		point.X = e.val.X
+		point.Y = e.val.Y
+	}
+	return json.Marshal(&point)
 }
 
 func (e *p256k1Point) UnmarshalJSON(data []byte) error {
-	return nil
+	point := ECPoint{}
+	err := json.Unmarshal(data, &point)
+	if err != nil {
+		return err
+	}
+	return e.setCoordinates(point.X, point.Y)
 }
 
 func SecP256k1() Group {
-- 
2.43.0


From 8072b8138e3e75de8fca9bce32a1388b1b69dde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:21 +0000
Subject: [PATCH 14/19] fix: decode only members of the mod p group

---
 group/modsafeprime.go | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/group/modsafeprime.go b/group/modsafeprime.go
index 746f4a4..291ae73 100644
--- a/group/modsafeprime.go
+++ b/group/modsafeprime.go
@@ -3,6 +3,7 @@ package group
 import (
 	"crypto/rand"
 	"encoding/json"
+	"errors"
 	"math/big"
 	"strings"
 )
@@ -118,7 +119,9 @@ func (e *ModPElement) Set(a Element) Element {
 }
 
 func (e *ModPElement) SetBytes(b []byte) Element {
-	e.val.SetBytes(b)
+	if e.UnmarshalBinary(b) != nil {
+		e.val = big.NewInt(1)
+	}
 	return e
 }
 
@@ -157,18 +160,31 @@ func (e *ModPElement) MarshalBinary() ([]byte, error) {
 	return e.val.Bytes(), nil
 }
 
-func (e *ModPElement) UnmarshalBinary(data []byte) error {
-	e.val = new(big.Int).SetBytes(data)
+// setValue sets the receiver to v, if v is an element of the group, i.e. a
+// quadratic residue modulo the safe prime.
+func (e *ModPElement) setValue(v *big.Int) error {
+	if v == nil || v.Sign() <= 0 || v.Cmp(e.group.fieldOrder) >= 0 || big.Jacobi(v, e.group.fieldOrder) != 1 {
+		return errors.New("not a group element")
+	}
+	e.val = v
 	return nil
 }
 
+func (e *ModPElement) UnmarshalBinary(data []byte) error {
+	return e.setValue(new(big.Int).SetBytes(data))
+}
+
 func (e *ModPElement) MarshalJSON() ([]byte, error) {
 	return e.val.MarshalJSON()
 }
 
 func (e *ModPElement) UnmarshalJSON(data []byte) error {
-	err := e.val.UnmarshalJSON(data)
-	return err
+	var v *big.Int
+	err := json.Unmarshal(data, &v)
+	if err != nil {
+		return err
+	}
+	return e.setValue(v)
 }
 
 func NewModPGroup(name string, fieldOrder, generator string) Group {
-- 
2.43.0


From cca70d1f8480acc67b21f125da080c28850a8207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:24 +0000
Subject: [PATCH 15/19] fix: refuse challenge lengths that the hash cannot
 provide

---
 voteproof/voteproof.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/voteproof/voteproof.go b/voteproof/voteproof.go
index 71ba4a4..6767d06 100644
--- a/voteproof/voteproof.go
+++ b/voteproof/voteproof.go
@@ -93,6 +93,11 @@ func Setup(lenSecret uint8, lenChallenge uint16, groupOrderLog uint16,
 		return params, errors.New("inconsistent parameter choice")
 	}
 
+	// The challenge is taken from a single SHA-256 digest.
+	if lenChallenge > 8*sha256.Size {
+		return params, errors.New("challenge too long")
+	}
+
 	return params, nil
 }
 
-- 
2.43.0


From 8ad0d4c24c97c194164e507dd9d958ac1e1258b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:39 +0000
Subject: [PATCH 16/19] fix: report undecodable proof and ballot components

---
 bulletproofs/marshal.go | 138 +++++++++++++++++++++++++++-------------
 marshal.go              |  15 ++++-
 voteproof/marshal.go    |  92 +++++++++++++++++----------
 3 files changed, 166 insertions(+), 79 deletions(-)

diff --git a/bulletproofs/marshal.go b/bulletproofs/marshal.go
index 71c14af..5aeb67e 100644
--- a/bulletproofs/marshal.go
+++ b/bulletproofs/marshal.go
@@ -2,6 +2,7 @@ package bulletproofs
 
 import (
 	"encoding/json"
+	"errors"
 	"github.com/takakv/msc-poc/group"
 	"math/big"
 )
@@ -36,45 +37,79 @@ type bulletProofJSON struct {
 	Params            json.RawMessage
 }
 
-func ipParamsFromRawMessage(j innerProductParamsJSON, g group.Group) InnerProductParams {
-	params := InnerProductParams{
-		Uu: g.Element(),
-		Gg: make([]group.Element, len(j.Gg)),
-		Hh: make([]group.Element, len(j.Hh)),
-		GP: g,
+// elementFromRawMessage decodes a single group element.
+func elementFromRawMessage(j json.RawMessage, g group.Group) (group.Element, error) {
+	e := g.Element()
+	err := e.UnmarshalJSON(j)
+	if err != nil {
+		return nil, err
 	}
+	return e, nil
+}
 
-	_ = params.Uu.UnmarshalJSON(j.Uu)
-	for i := range j.Gg {
-		params.Gg[i] = g.Element()
-		params.Hh[i] = g.Element()
-		_ = params.Gg[i].UnmarshalJSON(j.Gg[i])
-		_ = params.Hh[i].UnmarshalJSON(j.Hh[i])
+// elementsFromRawMessage decodes a list of group elements.
+func elementsFromRawMessage(j []json.RawMessage, g group.Group) ([]group.Element, error) {
+	var err error
+	es := make([]group.Element, len(j))
+	for i := range j {
+		es[i], err = elementFromRawMessage(j[i], g)
+		if err != nil {
+			return nil, err
+		}
 	}
+	return es, nil
+}
 
-	return params
+func ipParamsFromRawMessage(j innerProductParamsJSON, g group.Group) (InnerProductParams, error) {
+	var err error
+	params := InnerProductParams{GP: g}
+
+	if len(j.Gg) != len(j.Hh) {
+		return params, errors.New("inconsistent generator vector lengths")
+	}
+
+	if params.Uu, err = elementFromRawMessage(j.Uu, g); err != nil {
+		return params, err
+	}
+	if params.Gg, err = elementsFromRawMessage(j.Gg, g); err != nil {
+		return params, err
+	}
+	if params.Hh, err = elementsFromRawMessage(j.Hh, g); err != nil {
+		return params, err
+	}
+
+	return params, nil
 }
 
-func ipProofFromRawMessage(j innerProductProofJSON, g group.Group) InnerProductProof {
+func ipProofFromRawMessage(j innerProductProofJSON, g group.Group) (InnerProductProof, error) {
+	var err error
 	proof := InnerProductProof{
-		L:      make([]group.Element, len(j.L)),
-		R:      make([]group.Element, len(j.R)),
-		P:      g.Element(),
-		Cc:     j.Cc,
-		A:      j.A,
-		B:      j.B,
-		Params: ipParamsFromRawMessage(j.Params, g),
+		Cc: j.Cc,
+		A:  j.A,
+		B:  j.B,
+	}
+
+	if j.Cc == nil || j.A == nil || j.B == nil {
+		return proof, errors.New("missing scalar")
+	}
+	if len(j.L) != len(j.R) {
+		return proof, errors.New("inconsistent inner-product proof lengths")
 	}
 
-	for i := range proof.L {
-		proof.L[i] = g.Element()
-		proof.R[i] = g.Element()
-		_ = proof.L[i].UnmarshalJSON(j.L[i])
-		_ = proof.R[i].UnmarshalJSON(j.R[i])
+	if proof.P, err = elementFromRawMessage(j.P, g); err != nil {
+		return proof, err
+	}
+	if proof.L, err = elementsFromRawMessage(j.L, g); err != nil {
+		return proof, err
+	}
+	if proof.R, err = elementsFromRawMessage(j.R, g); err != nil {
+		return proof, err
+	}
+	if proof.Params, err = ipParamsFromRawMessage(j.Params, g); err != nil {
+		return proof, err
 	}
-	_ = proof.P.UnmarshalJSON(j.P)
 
-	return proof
+	return proof, nil
 }
 
 func BulletProofUnmarshalJSON(b []byte, params BulletProofSetupParams) (BulletProof, error) {
@@ -84,24 +119,37 @@ func BulletProofUnmarshalJSON(b []byte, params BulletProofSetupParams) (BulletPr
 		return BulletProof{}, err
 	}
 
+	if tmp.Taux == nil || tmp.Mu == nil || tmp.Tprime == nil {
+		return BulletProof{}, errors.New("missing scalar")
+	}
+
 	decodedProof := BulletProof{
-		V:                 params.GP.Element(),
-		A:                 params.GP.Element(),
-		S:                 params.GP.Element(),
-		T1:                params.GP.Element(),
-		T2:                params.GP.Element(),
-		Taux:              tmp.Taux,
-		Mu:                tmp.Mu,
-		Tprime:            tmp.Tprime,
-		InnerProductProof: ipProofFromRawMessage(tmp.InnerProductProof, params.GP),
-		Params:            params,
-	}
-
-	_ = decodedProof.V.UnmarshalJSON(tmp.V)
-	_ = decodedProof.A.UnmarshalJSON(tmp.A)
-	_ = decodedProof.S.UnmarshalJSON(tmp.S)
-	_ = decodedProof.T1.UnmarshalJSON(tmp.T1)
-	_ = decodedProof.T2.UnmarshalJSON(tmp.T2)
+		Taux:   tmp.Taux,
+		Mu:     tmp.Mu,
+		Tprime: tmp.Tprime,
+		Params: params,
+	}
+
+	if decodedProof.V, err = elementFromRawMessage(tmp.V, params.GP); err != nil {
+		return BulletProof{}, err
+	}
+	if decodedProof.A, err = elementFromRawMessage(tmp.A, params.GP); err != nil {
+		return BulletProof{}, err
+	}
+	if decodedProof.S, err = elementFromRawMessage(tmp.S, params.GP); err != nil {
+		return BulletProof{}, err
+	}
+	if decodedProof.T1, err = elementFromRawMessage(tmp.T1, params.GP); err != nil {
+		return BulletProof{}, err
+	}
+	if decodedProof.T2, err = elementFromRawMessage(tmp.T2, params.GP); err != nil {
+		return BulletProof{}, err
+	}
+
+	decodedProof.InnerProductProof, err = ipProofFromRawMessage(tmp.InnerProductProof, params.GP)
+	if err != nil {
+		return BulletProof{}, err
+	}
 
 	return decodedProof, nil
 }
diff --git a/marshal.go b/marshal.go
index add6ced..3e226f9 100644
--- a/marshal.go
+++ b/marshal.go
@@ -31,14 +31,25 @@ func BallotUnmarshalJSON(b []byte, g group.Group) (ElGamalCiphertext, error) {
 		V: g.Element(),
 	}
 
-	_ = ballot.U.UnmarshalJSON(tmp.U)
-	_ = ballot.V.UnmarshalJSON(tmp.V)
+	err = ballot.U.UnmarshalJSON(tmp.U)
+	if err != nil {
+		return ElGamalCiphertext{}, err
+	}
+
+	err = ballot.V.UnmarshalJSON(tmp.V)
+	if err != nil {
+		return ElGamalCiphertext{}, err
+	}
+
 	return ballot, nil
 }
 
 func BallotDataUnmarshalJSON(b []byte, pp PublicParameters) (BallotData, error) {
 	tmp := ballotDataJSON{}
 	err := json.Unmarshal(b, &tmp)
+	if err != nil {
+		return BallotData{}, err
+	}
 
 	ballot, err := BallotUnmarshalJSON(tmp.Ballot, pp.RPParams.GFF.I)
 	if err != nil {
diff --git a/voteproof/marshal.go b/voteproof/marshal.go
index efdab93..1960b93 100644
--- a/voteproof/marshal.go
+++ b/voteproof/marshal.go
@@ -2,6 +2,7 @@ package voteproof
 
 import (
 	"encoding/json"
+	"errors"
 	"github.com/takakv/msc-poc/group"
 	"math/big"
 )
@@ -43,6 +44,33 @@ type sigmaProofJSON struct {
 	Params proofParamsJSON
 }
 
+// decodeElement decodes a single group element.
+func decodeElement(j json.RawMessage, g group.Group) (group.Element, error) {
+	e := g.Element()
+	err := e.UnmarshalJSON(j)
+	if err != nil {
+		return nil, err
+	}
+	return e, nil
+}
+
+// decodeGroupParameters decodes the parameters of the given group.
+func decodeGroupParameters(j groupParametersJSON, g group.Group) (GroupParameters, error) {
+	var err error
+	gp := GroupParameters{N: j.N, F: j.F, I: g}
+
+	if j.N == nil || j.F == nil {
+		return gp, errors.New("missing group order")
+	}
+	if gp.G, err = decodeElement(j.G, g); err != nil {
+		return gp, err
+	}
+	if gp.H, err = decodeElement(j.H, g); err != nil {
+		return gp, err
+	}
+	return gp, nil
+}
+
 func ProofUnmarshalJSON(b []byte, gFF, gEC group.Group) (SigmaProof, error) {
 	tmp := sigmaProofJSON{}
 	err := json.Unmarshal(b, &tmp)
@@ -50,38 +78,30 @@ func ProofUnmarshalJSON(b []byte, gFF, gEC group.Group) (SigmaProof, error) {
 		return SigmaProof{}, err
 	}
 
-	var ap AlgebraicParameters
-	ap.GFF.G = gFF.Element()
-	ap.GFF.H = gFF.Element()
-	ap.GFF.N = tmp.Params.GFF.N
-	ap.GFF.F = tmp.Params.GFF.F
-	ap.GFF.I = gFF
-	ap.GEC.G = gEC.Element()
-	ap.GEC.H = gEC.Element()
-	ap.GEC.N = tmp.Params.GEC.N
-	ap.GEC.F = tmp.Params.GEC.F
-	ap.GEC.I = gEC
+	for _, s := range []*big.Int{tmp.Challenge, tmp.Z, tmp.Sp, tmp.Sq1, tmp.Sq2} {
+		if s == nil {
+			return SigmaProof{}, errors.New("missing scalar")
+		}
+	}
 
-	_ = ap.GFF.G.UnmarshalJSON(tmp.Params.GFF.G)
-	_ = ap.GFF.H.UnmarshalJSON(tmp.Params.GFF.H)
-	_ = ap.GEC.G.UnmarshalJSON(tmp.Params.GEC.G)
-	_ = ap.GEC.H.UnmarshalJSON(tmp.Params.GEC.H)
+	var ap AlgebraicParameters
+	if ap.GFF, err = decodeGroupParameters(tmp.Params.GFF, gFF); err != nil {
+		return SigmaProof{}, err
+	}
+	if ap.GEC, err = decodeGroupParameters(tmp.Params.GEC, gEC); err != nil {
+		return SigmaProof{}, err
+	}
 
-	var pp ProofParams
-	pp.Bx = tmp.Params.Bx
-	pp.Bc = tmp.Params.Bc
-	pp.Bg = tmp.Params.Bg
-	pp.Bb = tmp.Params.Bb
-	pp.RangeLo = tmp.Params.RangeLo
-	pp.RangeHi = tmp.Params.RangeHi
-	pp.GFF = ap.GFF
-	pp.GEC = ap.GEC
+	pp, err := Setup(tmp.Params.Bx, tmp.Params.Bc, tmp.Params.Bg,
+		tmp.Params.RangeLo, tmp.Params.RangeHi, ap)
+	if err != nil {
+		return SigmaProof{}, err
+	}
+	if pp.Bb != tmp.Params.Bb {
+		return SigmaProof{}, errors.New("inconsistent parameter choice")
+	}
 
 	var proof SigmaProof
-	proof.W = gFF.Element()
-	proof.Kp = gFF.Element()
-	proof.Kq1 = gEC.Element()
-	proof.Kq2 = gEC.Element()
 	proof.Challenge = tmp.Challenge
 	proof.Z = tmp.Z
 	proof.Sp = tmp.Sp
@@ -89,9 +109,17 @@ func ProofUnmarshalJSON(b []byte, gFF, gEC group.Group) (SigmaProof, error) {
 	proof.Sq2 = tmp.Sq2
 	proof.Params = pp
 
-	_ = proof.W.UnmarshalJSON(tmp.W)
-	_ = proof.Kp.UnmarshalJSON(tmp.Kp)
-	_ = proof.Kq1.UnmarshalJSON(tmp.Kq1)
-	_ = proof.Kq2.UnmarshalJSON(tmp.Kq2)
+	if proof.W, err = decodeElement(tmp.W, gFF); err != nil {
+		return SigmaProof{}, err
+	}
+	if proof.Kp, err = decodeElement(tmp.Kp, gFF); err != nil {
+		return SigmaProof{}, err
+	}
+	if proof.Kq1, err = decodeElement(tmp.Kq1, gEC); err != nil {
+		return SigmaProof{}, err
+	}
+	if proof.Kq2, err = decodeElement(tmp.Kq2, gEC); err != nil {
+		return SigmaProof{}, err
+	}
 	return proof, nil
 }
-- 
2.43.0


From c1b835218a1a23adbe8fdbeb665a2942e6ca4132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:17 +0000
Subject: [PATCH 17/19] fix: give the secp256k1 identity one string form

---
 group/p256k1.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/group/p256k1.go b/group/p256k1.go
index 50cbfda..938177c 100644
--- a/group/p256k1.go
+++ b/group/p256k1.go
@@ -158,6 +158,10 @@ func (e *p256k1Point) MapToGroup(s string) (Element, error) {
 }
 
 func (e *p256k1Point) String() string {
+	// The library has two representations of the point at infinity.
+	if e.IsIdentity() {
+		return new(p256.P256).SetInfinity().String()
+	}
 	return e.val.String()
 }
 
-- 
2.43.0


From d3c1fe90f22706cd8bc72d3ad654b35f1ea76426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:52 +0000
Subject: [PATCH 18/19] fix: give the vote proof challenge its full bit length

---
 voteproof/voteproof.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/voteproof/voteproof.go b/voteproof/voteproof.go
index 6767d06..cbc6fb4 100644
--- a/voteproof/voteproof.go
+++ b/voteproof/voteproof.go
@@ -124,8 +124,10 @@ func getFSChallenge(comm VerCommitments, w group.Element, Kp group.Element, Kq1,
 	}
 	hasher.Write(buffer.Bytes())
 
-	challenge := hasher.Sum(nil)[:pow2bound/8]
-	return new(big.Int).SetBytes(challenge)
+	// The first pow2bound bits of the digest, of which the last byte may hold a few more.
+	size := (int(pow2bound) + 7) / 8
+	challenge := new(big.Int).SetBytes(hasher.Sum(nil)[:size])
+	return challenge.Rsh(challenge, uint(8*size)-uint(pow2bound))
 }
 
 func Prove(secret *big.Int, rp *big.Int, rq1, rq2 *big.Int, params ProofParams) SigmaProof {
-- 
2.43.0


From d6183399cdb18ab97cb3ac0b1d0e8668ae3a5897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:46 +0000
Subject: [PATCH 19/19] fix: let the voter choose every candidate

rand.Int excludes its upper limit, so the last candidate could never be
chosen, and a vote with a single candidate panicked.
---
 voter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/voter.go b/voter.go
index 6dc080f..d776064 100644
--- a/voter.go
+++ b/voter.go
@@ -17,7 +17,7 @@ type BallotData struct {
 }
 
 func castVote(pp PublicParameters) (BallotData, time.Duration) {
-	rBig, _ := rand.Int(rand.Reader, big.NewInt(int64(pp.candidateMax-pp.candidateMin)))
+	rBig, _ := rand.Int(rand.Reader, big.NewInt(int64(pp.candidateMax-pp.candidateMin)+1))
 
 	var choice = uint16(rBig.Uint64()) + pp.candidateMin
 	ciphertext, rp := encryptVote(choice, pp.EGPK, pp.FFGroupParams.I)
-- 
2.43.0

