"""The planted bugs: what each one edits, and the in-package test that shows it."""
READER = '''
// scripted replays the given bytes first and real randomness afterwards.
type scripted struct {
	data []byte
	rest io.Reader
}

func (s *scripted) Read(p []byte) (int, error) {
	if len(s.data) == 0 {
		return s.rest.Read(p)
	}
	n := copy(p, s.data)
	s.data = s.data[n:]
	if n < len(p) {
		k, err := s.rest.Read(p[n:])
		return n + k, err
	}
	return n, nil
}
'''
B = 'bulletproofs/bp.go'; MB = 'bulletproofs/multibp.go'; IP = 'bulletproofs/bip.go'; V = 'voteproof/voteproof.go'
SMALLP = '''
	ff := group.NewModPGroup("toy", "FFFFFFFFFFFFFFFFC90FDAA22168C234C4C6628B80DC1CD129024E088A67CC74020BBEA63B139B22514A08798E3404DDEF9519B3CD3A431B302B0A6DF25F14374FE1356D6D51C245E485B576625E7EC6F44C42E9A637ED6B0BFF5CB6F406B7EDEE386BFB5A899FA5AE9F24117C4B1FE649286651ECE45B3DC2007CB8A163BF0598DA48361C55D39A69163FA8FD24CF5F83655D23DCA3AD961C62F356208552BB9ED529077096966D670C354E4ABC9804F1746C08CA18217C32905E462E36CE3BE39E772C180E86039B2783A2EC07A28FB5C55DF06F4C52C9DE2BCBF6955817183995497CEA956AE515D2261898FA051015728E5A8AAAC42DAD33170D04507A33A85521ABDF1CBA64ECFB850458DBEF0A8AEA71575D060C7DB3970F85A6E1E4C7ABF5AE8CDB0933D71E8C94E04A25619DCEE3D2261AD2EE6BF12FFA06D98A0864D87602733EC86A64521F2B18177B200CBBE117577A615D6C770988C0BAD946E208E24FA074E5AB3143DB5BFCE0FD108E4B82D120A93AD2CAFFFFFFFFFFFFFFFF", "2")
	ec := group.P384()
	hec, err := ec.Element().MapToGroup("demo")
	if err != nil {
		t.Fatal(err)
	}
	ap := AlgebraicParameters{
		GFF: GroupParameters{G: ff.Generator(), H: ff.Element().BaseScale(big.NewInt(13)), N: ff.N(), F: ff.P(), I: ff},
		GEC: GroupParameters{G: ec.Generator(), H: hec, N: ec.N(), F: ec.P(), I: ec},
	}
'''
BUGS = [
dict(id='b01-no-zero-draw', property='C26', dir='',
 needs='the random source yielding zero, one vote in 1900',
 breaks='a zero draw is taken for a failing random source and replaced, so that the first candidate can never be voted for',
 edits=[('voter.go', '	var choice = uint16(rBig.Uint64()) + pp.candidateMin\n', """	drawn := uint16(rBig.Uint64())
	if drawn == 0 {
		drawn = 1
	}
	var choice = drawn + pp.candidateMin
""")],
 demo='''
package main

import (
	"crypto/rand"
	"io"
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
)
''' + READER + '''
func TestSeededDemo(t *testing.T) {
	pp, err := setup(group.P256())
	if err != nil {
		t.Fatal(err)
	}
	saved := rand.Reader
	rand.Reader = &scripted{make([]byte, 2), saved}
	bd, _ := castVote(pp)
	rand.Reader = saved
	ff := pp.FFGroupParams.I
	m := ff.Element().Subtract(bd.Ballot.V, ff.Element().Scale(bd.Ballot.U, big.NewInt(13)))
	if !m.IsEqual(ff.Element().BaseScale(big.NewInt(int64(pp.candidateMin)))) {
		t.Fatal("the first candidate was not voted for")
	}
}
'''),
dict(id='b02-no-c67', property='C04', dir='bulletproofs/',
 needs='a proof whose S or mu was altered after it was made; honest proofs are unaffected',
 breaks='verification no longer ties the inner-product commitment to A, S and mu, so altered proofs are accepted',
 edits=[(B, '	result := c65 && c67 && ok\n', '	// (67) is implied by the inner-product argument.\n	_ = c67\n	result := c65 && ok\n')],
 demo='''
package bulletproofs

import (
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
)

func TestSeededDemo(t *testing.T) {
	params, err := Setup(256, group.P256())
	if err != nil {
		t.Fatal(err)
	}
	proof, _, err := Prove(big.NewInt(77), params)
	if err != nil {
		t.Fatal(err)
	}
	if ok, _ := proof.Verify(); !ok {
		t.Fatal("honest proof rejected")
	}
	proof.Mu = new(big.Int).Add(proof.Mu, big.NewInt(1))
	if ok, _ := proof.Verify(); ok {
		t.Fatal("altered proof accepted")
	}
}
'''),
dict(id='b03-second-commitment', property='C09', dir='voteproof/',
 needs='a proof for two commitments to different values, or with a changed last response',
 breaks='the second commitment is never checked, so ciphertext and upper-bound commitment need not hold the same choice',
 edits=[(V, '''	if !sigmaPedersenCheck(proof.Z, proof.Sq2, proof.Challenge, proof.Kq2,
		comm.Xq2, proof.Params.GEC) {''', '''	if !sigmaPedersenCheck(proof.Z, proof.Sq1, proof.Challenge, proof.Kq1,
		comm.Xq1, proof.Params.GEC) {''')],
 demo='''
package voteproof

import (
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
)

func TestSeededDemo(t *testing.T) {''' + SMALLP + '''
	params, err := Setup(16, 224, 384, 101, 2000, ap)
	if err != nil {
		t.Fatal(err)
	}
	x, rp, rq1, rq2 := big.NewInt(512), big.NewInt(3), big.NewInt(4), big.NewInt(5)
	commit := func(m, r *big.Int, gp GroupParameters) group.Element {
		return gp.I.Element().Add(gp.I.Element().BaseScale(m), gp.I.Element().Scale(gp.H, r))
	}
	comm := VerCommitments{Y: ff.Element().BaseScale(rp), Xp: commit(x, rp, params.GFF),
		Xq1: commit(x, rq1, params.GEC), Xq2: commit(x, rq2, params.GEC)}
	proof := Prove(x, rp, rq1, rq2, params)
	if !proof.Verify(comm) {
		t.Fatal("honest proof rejected")
	}
	proof.Sq2 = new(big.Int).Add(proof.Sq2, big.NewInt(1))
	if proof.Verify(comm) {
		t.Fatal("proof with a wrong last response accepted")
	}
}
'''),
dict(id='b04-bitlen-abort', property='C10', dir='voteproof/',
 needs='a nonce for which the response lands in [2^(Bx+Bc-1), 2^(Bx+Bc)), about one proof in 2^15',
 breaks='the prover releases responses below the safe interval, which depend on the secret (and which the verifier rejects)',
 edits=[(V, '''		if z.Cmp(zLowerBound) == -1 || z.Cmp(zUpperBound) != -1 {
			fmt.Println''', '''		if z.BitLen() < zLowerBound.BitLen()-1 || z.Cmp(zUpperBound) != -1 {
			fmt.Println''')],
 demo='''
package voteproof

import (
	"crypto/rand"
	"io"
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
)
''' + READER + '''
func TestSeededDemo(t *testing.T) {''' + SMALLP + '''
	params, err := Setup(16, 224, 384, 101, 2000, ap)
	if err != nil {
		t.Fatal(err)
	}
	// With secret 0 the response is the nonce itself.
	k := make([]byte, 48)
	k[48-30] = 0x80 // 2^239
	saved := rand.Reader
	rand.Reader = &scripted{k, saved}
	proof := Prove(big.NewInt(0), big.NewInt(3), big.NewInt(4), big.NewInt(5), params)
	rand.Reader = saved
	if proof.Z.Cmp(new(big.Int).Lsh(big.NewInt(1), 240)) < 0 {
		t.Fatal("response below the safe interval")
	}
}
'''),
dict(id='b05-uint8-bound', property='C09', dir='voteproof/',
 needs='parameters whose Bx+Bc exceeds 255 (the tests and the default election use 240)',
 breaks='the lower bound of the response interval wraps around, so responses outside of the safe interval are made and accepted',
 edits=[(V, '	bxbc := big.NewInt(int64(uint16(params.Bx) + params.Bc))', '	bxbc := big.NewInt(int64(params.Bx + uint8(params.Bc)))'),
        (V, '	bxbc := big.NewInt(int64(uint16(proof.Params.Bx) + proof.Params.Bc))', '	bxbc := big.NewInt(int64(proof.Params.Bx + uint8(proof.Params.Bc)))')],
 demo='''
package voteproof

import (
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
)

func TestSeededDemo(t *testing.T) {''' + SMALLP + '''
	params, err := Setup(32, 224, 384, 101, 2000, ap)
	if err != nil {
		t.Fatal(err)
	}
	proof := Prove(big.NewInt(0), big.NewInt(3), big.NewInt(4), big.NewInt(5), params)
	if proof.Z.Cmp(new(big.Int).Lsh(big.NewInt(1), 256)) < 0 {
		t.Fatal("response below the safe interval")
	}
}
'''),
dict(id='b06-ballot-range', property='C11', dir='',
 needs='a ballot submitted with its own upper range bound in the embedded parameters and a choice above the last candidate',
 breaks='the server shifts the upper-bound commitment by the bound the voter claims, so choices above the published range are accepted',
 edits=[('server.go', 'BaseScale(big.NewInt(int64(rpParams.RangeHi)))', 'BaseScale(big.NewInt(int64(proofs.VoteProof.Params.RangeHi)))')],
 demo='''
package main

import (
	"testing"

	"github.com/takakv/msc-poc/group"
)

func TestSeededDemo(t *testing.T) {
	pp, err := setup(group.P256())
	if err != nil {
		t.Fatal(err)
	}
	evil := pp
	evil.candidateMin = 3000
	evil.candidateMax = 4000
	evil.RPParams.RangeLo = 3000
	evil.RPParams.RangeHi = 4000
	bd, _ := castVote(evil)
	if ok, _ := verifyVote(bd, pp.RPParams); ok {
		t.Fatal("ballot for another range accepted")
	}
	evil = pp
	evil.candidateMax = 4000
	evil.RPParams.RangeHi = 4000
	bd, _ = castVote(evil)
	if ok, _ := verifyVote(bd, pp.RPParams); ok {
		t.Fatal("ballot with its own upper bound accepted")
	}
}
'''),
dict(id='b07-shared-generator', property='C14', dir='group/',
 needs='an operation that writes to an element obtained from Generator()',
 breaks='the element shares its value with the group constant, so later base scalings use another base',
 edits=[('group/modsafeprime.go', '		val:   new(big.Int).Set(g.gen),\n', '		val:   g.gen,\n')],
 demo='''
package group

import (
	"math/big"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	g := NewModPGroup("toy", "17", "2") // 23 = 2*11+1
	e := g.Generator()
	e.Add(e, e)
	if !g.Element().BaseScale(big.NewInt(1)).IsEqual(g.Element().BaseScale(big.NewInt(12))) || g.Element().BaseScale(big.NewInt(1)).String() != "2" {
		t.Fatal("the generator of the group has changed")
	}
}
'''),
dict(id='b08-json-padding', property='C16', dir='group/',
 needs='a P-384 point whose Y coordinate has a leading zero byte (1 in 256)',
 breaks='such points do not survive the JSON round trip',
 edits=[('group/p384.go', 'copy(tmp[1+2*byteLen-len(yBytes):], point.Y.Bytes())', 'copy(tmp[1+byteLen:], yBytes)')],
 demo='''
package group

import (
	"math/big"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	g := P384()
	for i := int64(1); i < 2000; i++ {
		e := g.Element().BaseScale(big.NewInt(i))
		j, err := e.MarshalJSON()
		if err != nil {
			t.Fatal(err)
		}
		f := g.Element()
		if err = f.UnmarshalJSON(j); err != nil || !f.IsEqual(e) {
			t.Fatal("round trip fails for multiple", i, err)
		}
	}
}
'''),
dict(id='b09-verify-writes', property='C23', dir='bulletproofs/',
 needs='verifying the same proof object twice',
 breaks='the first verification overwrites the proof component A, so the second one rejects',
 edits=[(B, 'ASx := params.GP.Element().Add(proof.A, Sx)', 'ASx := proof.A.Add(proof.A, Sx)')],
 demo='''
package bulletproofs

import (
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
)

func TestSeededDemo(t *testing.T) {
	params, err := Setup(16, group.P256())
	if err != nil {
		t.Fatal(err)
	}
	proof, _, err := Prove(big.NewInt(7), params)
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 2; i++ {
		if ok, _ := proof.Verify(); !ok {
			t.Fatal("honest proof rejected at verification", i)
		}
	}
}
'''),
dict(id='b10-one-gamma', property='C24', dir='bulletproofs/',
 needs='an aggregated proof over at least two values',
 breaks='all commitments of the proof share one blinding value, so their difference reveals the difference of the secrets',
 edits=[(MB, '''	for j := range secrets {
		// Sample randomness gamma and commit to v.
		gamma, _ := rand.Int(rand.Reader, mod)
''', '''	// Sample randomness gamma and commit to v.
	gamma, _ := rand.Int(rand.Reader, mod)
	for j := range secrets {
''')],
 demo='''
package bulletproofs

import (
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
)

func TestSeededDemo(t *testing.T) {
	params, err := Setup(256, group.P256())
	if err != nil {
		t.Fatal(err)
	}
	proof, _, err := MultiProve([]*big.Int{big.NewInt(9), big.NewInt(4)}, params)
	if err != nil {
		t.Fatal(err)
	}
	d := params.GP.Element().Subtract(proof.Vs[0], proof.Vs[1])
	if d.IsEqual(params.GP.Element().BaseScale(big.NewInt(5))) {
		t.Fatal("the commitments reveal the difference of the values")
	}
}
'''),
dict(id='b11-zero-randomness', property='C12', dir='',
 needs='the random source returning zero for the encryption randomness',
 breaks='the encryption randomness can be zero, in which case the ciphertext is the lifted choice in the clear',
 edits=[('elgamal.go', '''	var tmp big.Int

	rnd, _ := rand.Int(rand.Reader, tmp.Sub(egPK.GroupOrder(), big.NewInt(1)))
	rnd.Add(rnd, big.NewInt(1))
''', '''	rnd, _ := rand.Int(rand.Reader, egPK.GroupOrder())
''')],
 demo='''
package main

import (
	"crypto/rand"
	"io"
	"testing"

	"github.com/takakv/msc-poc/group"
)
''' + READER + '''
func TestSeededDemo(t *testing.T) {
	pp, err := setup(group.P256())
	if err != nil {
		t.Fatal(err)
	}
	saved := rand.Reader
	rand.Reader = &scripted{make([]byte, 384), saved}
	c, r := encryptVote(500, pp.EGPK, pp.FFGroupParams.I)
	rand.Reader = saved
	if r.Sign() == 0 || c.U.IsIdentity() {
		t.Fatal("ciphertext without a mask")
	}
}
'''),
dict(id='b12-equal-by-x', property='C13', dir='group/',
 needs='comparing a secp256k1 point with its negative',
 breaks='a point equals its negative, so checks of group equations can be passed with negated elements',
 edits=[('group/p256k1.go', '		yIsEq = e.val.Y.Cmp(cb.val.Y) == 0\n', '		yIsEq = xIsEq\n')],
 demo='''
package group

import (
	"math/big"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	g := SecP256k1()
	a := g.Element().BaseScale(big.NewInt(5))
	b := g.Element().BaseScale(big.NewInt(-5))
	if a.IsEqual(b) {
		t.Fatal("a point equals its negative")
	}
}
'''),
dict(id='b13-claim-not-hashed', property='C20', dir='bulletproofs/',
 needs='a prover who picks the claimed inner product after the challenge',
 breaks='the first challenge of the inner-product argument does not depend on the claimed value, so proofs of false values are accepted',
 edits=[(IP, '	digest.Write([]byte(c.String()))\n', '')],
 demo='''
package bulletproofs

import (
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
)

// Claims <a, b> = c - d/x for the challenge x of the commitment g^a.h^b.u^d.
func TestSeededDemo(t *testing.T) {
	g := group.P256()
	a := []*big.Int{big.NewInt(2), big.NewInt(3)}
	b := []*big.Int{big.NewInt(5), big.NewInt(7)}
	c := big.NewInt(31)
	params, err := setupInnerProduct(nil, nil, 2, g)
	if err != nil {
		t.Fatal(err)
	}
	d := big.NewInt(1)
	P := commitInnerProduct(params.Gg, params.Hh, a, b, g)
	P = g.Element().Add(P, g.Element().Scale(params.Uu, d))
	proof, err := proveInnerProduct(a, b, P, c, params)
	if err != nil {
		t.Fatal(err)
	}
	x, _ := hashIP(params.Gg, params.Hh, P, c)
	claim := new(big.Int).ModInverse(x, g.N())
	claim.Mul(claim, d)
	claim.Sub(c, claim)
	claim.Mod(claim, g.N())
	proof.Cc = claim
	if ok, _ := proof.Verify(); ok {
		t.Fatal("false inner product accepted")
	}
}
'''),
dict(id='b14-no-abort-margin', property='C21', dir='voteproof/',
 needs='parameters that leave exactly zero bits for the abort margin',
 breaks='set-up accepts parameters with an empty response interval, with which proving never ends',
 edits=[(V, 'if params.Bb < 1 {', 'if params.Bb < 0 {')],
 demo='''
package voteproof

import (
	"testing"
)

func TestSeededDemo(t *testing.T) {
	if _, err := Setup(15, 240, 256, 101, 2000, AlgebraicParameters{}); err == nil {
		t.Fatal("parameters without abort margin accepted")
	}
}
'''),
dict(id='b15-word-decompose', property='C22', dir='util/',
 needs='a number of more than 64 bits',
 breaks='digit decomposition works on a machine word and drops the upper digits of larger numbers',
 edits=[('util/util.go', '''	for i := int64(0); i < l; i++ {
		result[i] = new(big.Int).Mod(x, new(big.Int).SetInt64(u)).Int64()
		x = new(big.Int).Div(x, new(big.Int).SetInt64(u))
	}
''', '''	v := x.Uint64()
	for i := range result {
		result[i] = int64(v % uint64(u))
		v /= uint64(u)
	}
''')],
 demo='''
package util

import (
	"math/big"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	x := new(big.Int).Lsh(big.NewInt(1), 70)
	d := Decompose(x, 2, 128)
	for i, v := range d {
		if (v == 1) != (i == 70) {
			t.Fatal("wrong digit", i, v)
		}
	}
}
'''),
dict(id='b16-equal-weights', property='C07', dir='bulletproofs/',
 needs='two out-of-range values whose excesses cancel',
 breaks='prover and verifier weigh all values with the same power of z, so only the sum of the values is checked',
 edits=[(MB, '''	for j := 0; j < m; j++ {
		zp := new(big.Int).Exp(z, big.NewInt(2+int64(j)), mod)
		for i := 0''', '''	for j := 0; j < m; j++ {
		zp := new(big.Int).Exp(z, big.NewInt(2), mod)
		for i := 0'''),
  (MB, '''		zp := new(big.Int).Exp(z, big.NewInt(2+int64(j)), mod)
		tmp1''', '''		zp := new(big.Int).Exp(z, big.NewInt(2), mod)
		tmp1'''),
  (MB, 'new(big.Int).Mul(zSquared, powersOfz[j])', 'new(big.Int).Mul(zSquared, powersOfz[0])'),
  (MB, '''		zp := new(big.Int).Exp(z, big.NewInt(2+int64(j)), mod)
		exp''', '''		zp := new(big.Int).Exp(z, big.NewInt(2), mod)
		exp'''),
  (MB, 'zp := new(big.Int).Exp(z, big.NewInt(j+3), params.GP.N())', 'zp := new(big.Int).Exp(z, big.NewInt(3), params.GP.N())')],
 demo='''
package bulletproofs

import (
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
)

func TestSeededDemo(t *testing.T) {
	params, err := Setup(256, group.P256())
	if err != nil {
		t.Fatal(err)
	}
	proof, _, err := MultiProve([]*big.Int{big.NewInt(16 + 3), big.NewInt(9 - 16)}, params)
	if err != nil {
		return
	}
	if ok, _ := proof.Verify(); ok {
		t.Fatal("out-of-range values accepted")
	}
}
'''),
dict(id='b17-reduced-secret', property='C03', dir='bulletproofs/',
 needs='proving a value of more than 64 bits whose low word is in the range',
 breaks='the prover silently reduces out-of-range secrets into the range and returns an accepted proof for another value',
 edits=[(B, '''	V := PedersenCommit(secret, gamma, params.H, params.GP)

	// aL, aR''', '''	// Ranges have at most 32 bits: a machine word is enough.
	word := new(big.Int).And(secret, new(big.Int).SetUint64(math.MaxUint64))
	V := PedersenCommit(word, gamma, params.H, params.GP)

	// aL, aR'''), (B, 'aL := Decompose(secret, 2', 'aL := Decompose(word, 2')],
 demo='''
package bulletproofs

import (
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
)

func TestSeededDemo(t *testing.T) {
	params, err := Setup(256, group.P256())
	if err != nil {
		t.Fatal(err)
	}
	proof, _, err := Prove(new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), 64), big.NewInt(5)), params)
	if err != nil {
		return
	}
	if ok, _ := proof.Verify(); ok {
		t.Fatal("proof of an out-of-range value accepted")
	}
}
'''),
dict(id='b18-embedded-generators', property='C05', dir='bulletproofs/',
 needs='a malicious prover who chooses the second generator vector after the challenges',
 breaks='the verifier takes the switched generators out of the proof, so the prover can scale them to prove false statements',
 edits=[(B, '''	// Switch generators
	hp := updateGenerators(params.Hh, y, params.N, params.GP) // (64)
''', '''	// The switched generators are part of the inner-product parameters.
	hp := proof.InnerProductProof.Params.Hh // (64)
	if int64(len(hp)) != params.N {
		hp = updateGenerators(params.Hh, y, params.N, params.GP)
	}
''')],
 demo='''
package bulletproofs

import (
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
)

func TestSeededDemo(t *testing.T) {
	params, err := Setup(2, group.P256())
	if err != nil {
		t.Fatal(err)
	}
	q := params.GP.N()
	// The last bit of 3 is 1: the proof only fails because of the missing 2.
	proof, _, err := Prove(big.NewInt(3), params)
	if err != nil {
		return
	}
	y, z, _ := HashBP(proof.V, proof.A, proof.S)
	hp := updateGenerators(params.Hh, y, 1, params.GP)
	l, r := proof.InnerProductProof.A, proof.InnerProductProof.B
	z2 := new(big.Int).Mul(z, z)
	c := new(big.Int).Add(z, z2)
	// r2 = r + 2 z^2 / l
	r2 := new(big.Int).Mul(new(big.Int).Lsh(z2, 1), new(big.Int).ModInverse(l, q))
	r2.Mod(r2.Add(r2, r), q)
	// h2 = h' ^ ((r - c) / (r2 - c))
	e := new(big.Int).ModInverse(new(big.Int).Mod(new(big.Int).Sub(r2, c), q), q)
	e.Mod(e.Mul(e, new(big.Int).Sub(r, c)), q)
	h2 := []group.Element{params.GP.Element().Scale(hp[0], e)}
	ipp, err := setupInnerProduct(params.Gg, h2, 1, params.GP)
	if err != nil {
		t.Fatal(err)
	}
	a, b := []*big.Int{l}, []*big.Int{r2}
	th, _ := ScalarProduct(a, b, params.GP)
	proof.Tprime = th
	proof.InnerProductProof, _ = proveInnerProduct(a, b, commitInnerProduct(params.Gg, h2, a, b, params.GP), th, ipp)
	if ok, _ := proof.Verify(); ok {
		t.Fatal("3 proven to be at most 1")
	}
}
'''),
dict(id='b19-inclusive-bound', property='C08', dir='voteproof/',
 needs='a nonce and challenge for which the response is exactly the upper bound',
 breaks='the prover releases a response that the verifier rejects',
 edits=[(V, '''		if z.Cmp(zLowerBound) == -1 || z.Cmp(zUpperBound) != -1 {
			fmt.Println''', '''		if z.Cmp(zLowerBound) < 0 || z.Cmp(zUpperBound) > 0 {
			fmt.Println''')],
 demo='''
package voteproof

import (
	"crypto/rand"
	"io"
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
)
''' + READER + '''
func TestSeededDemo(t *testing.T) {''' + SMALLP + '''
	params, err := Setup(8, 4, 32, 0, 200, ap)
	if err != nil {
		t.Fatal(err)
	}
	x, rp, rq1, rq2 := big.NewInt(1), big.NewInt(3), big.NewInt(4), big.NewInt(5)
	commit := func(m, r *big.Int, gp GroupParameters) group.Element {
		return gp.I.Element().Add(gp.I.Element().BaseScale(m), gp.I.Element().Scale(gp.H, r))
	}
	comm := VerCommitments{Y: ff.Element().BaseScale(rp), Xp: commit(x, rp, params.GFF),
		Xq1: commit(x, rq1, params.GEC), Xq2: commit(x, rq2, params.GEC)}
	// The nonce has 31 bits. With nonce 2^31 - c and challenge c the response is 2^31.
	saved := rand.Reader
	defer func() { rand.Reader = saved }()
	for i := int64(0); i < 300; i++ {
		c := i%15 + 1
		k := new(big.Int).Sub(big.NewInt(1<<31), big.NewInt(c))
		rand.Reader = &scripted{k.FillBytes(make([]byte, 4)), saved}
		proof := Prove(x, rp, rq1, rq2, params)
		if !proof.Verify(comm) {
			t.Fatal("honest proof rejected")
		}
	}
}
'''),
dict(id='b20-lower-twice', property='C11', dir='',
 needs='a ballot whose upper-bound proof is invalid while its lower-bound proof is valid',
 breaks='the upper-bound proof is never checked, so choices above the last candidate are accepted',
 edits=[('server.go', 'ok2, _ := proofs.BpUpper.Verify()', 'ok2, _ := proofs.BpLower.Verify()')],
 demo='''
package main

import (
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
)

func TestSeededDemo(t *testing.T) {
	pp, err := setup(group.P256())
	if err != nil {
		t.Fatal(err)
	}
	choice := pp.candidateMax + 7
	ct, rp := encryptVote(choice, pp.EGPK, pp.FFGroupParams.I)
	bp1, rq1, _ := bulletproofs.Prove(big.NewInt(int64(choice-pp.candidateMin)), pp.BPParams)
	bp2, rq2, _ := bulletproofs.Prove(big.NewInt(-7), pp.BPParams)
	vp := voteproof.Prove(big.NewInt(int64(choice)), rp, rq1, new(big.Int).Sub(pp.ECGroupParams.N, rq2), pp.RPParams)
	if ok, _ := verifyVote(BallotData{ct, bp1, bp2, vp}, pp.RPParams); ok {
		t.Fatal("choice past the last candidate accepted")
	}
}
'''),
dict(id='b21-order-length', property='C15', dir='group/',
 needs='a group whose field order is one byte longer than its group order, and an element of full length',
 breaks='encoding such an element panics',
 edits=[('group/modsafeprime.go', '	return e.val.Bytes(), nil\n', '	// Encodings of a fixed length.\n	return e.val.FillBytes(make([]byte, (e.group.groupOrder.BitLen()+7)/8)), nil\n')],
 demo='''
package group

import (
	"testing"
)

func TestSeededDemo(t *testing.T) {
	g := NewModPGroup("p = 347", "15b", "4")
	for e := g.Generator(); ; e = g.Element().Add(e, g.Generator()) {
		b, err := e.MarshalBinary()
		if err != nil {
			t.Fatal(err)
		}
		f := g.Element()
		if err := f.UnmarshalBinary(b); err != nil || !f.IsEqual(e) {
			t.Fatal("round trip failed")
		}
		if e.IsIdentity() {
			return
		}
	}
}
'''),
dict(id='b22-zero-abscissa', property='C17', dir='group/',
 needs='a JSON point with a zero X coordinate and any Y coordinate',
 breaks='coordinates that are no point of the curve are decoded to the identity',
 edits=[('group/p256.go', '	if point.X.Cmp(big.NewInt(0)) == 0 && point.Y.Cmp(big.NewInt(0)) == 0 {', '	if point.X.Sign() == 0 {')],
 demo='''
package group

import "testing"

func TestSeededDemo(t *testing.T) {
	g := P256()
	e := g.Element()
	if err := e.UnmarshalJSON([]byte(`{"x": 0, "y": 1}`)); err == nil {
		t.Fatal("decoded a point that is not on the curve")
	}
	id, _ := g.Identity().MarshalJSON()
	if err := e.UnmarshalJSON(id); err != nil || !e.IsIdentity() {
		t.Fatal("identity not decoded")
	}
}
'''),
dict(id='b23-ballot-error', property='C19', dir='',
 needs='a ballot in which the ciphertext is malformed but all proofs decode and verify up to its use',
 breaks='the error is overwritten, decoding succeeds with an empty ciphertext and verifying it panics',
 edits=[('marshal.go', '''	ballot, err := BallotUnmarshalJSON(tmp.Ballot, pp.RPParams.GFF.I)
	if err != nil {
		return BallotData{}, err
	}
''', '''	ballot, err := BallotUnmarshalJSON(tmp.Ballot, pp.RPParams.GFF.I)
''')],
 demo='''
package main

import (
	"encoding/json"
	"testing"

	"github.com/takakv/msc-poc/group"
)

func TestSeededDemo(t *testing.T) {
	pp, err := setup(group.P256())
	if err != nil {
		t.Fatal(err)
	}
	bd, _ := castVote(pp)
	b, err := json.Marshal(bd)
	if err != nil {
		t.Fatal(err)
	}
	var doc map[string]json.RawMessage
	if err := json.Unmarshal(b, &doc); err != nil {
		t.Fatal(err)
	}
	doc["ballot"] = json.RawMessage(`{"u": 0, "v": 0}`)
	b, _ = json.Marshal(doc)
	bd, err = BallotDataUnmarshalJSON(b, pp)
	if err != nil {
		return
	}
	if ok, _ := verifyVote(bd, pp.RPParams); ok {
		t.Fatal("accepted")
	}
}
'''),
dict(id='b24-short-mask', property='C24', dir='voteproof/',
 needs='the distribution of the response for the encryption randomness; each proof verifies as before',
 breaks='the encryption randomness is masked with a value of the much smaller curve order, so the response reveals its high bits',
 edits=[(V, 'tp, _ := rand.Int(rand.Reader, params.GFF.N)', 'tp, _ := rand.Int(rand.Reader, params.GEC.N)')],
 demo='''
package voteproof

import (
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
)

func TestSeededDemo(t *testing.T) {''' + SMALLP + '''
	params, err := Setup(16, 224, 384, 101, 2000, ap)
	if err != nil {
		t.Fatal(err)
	}
	rp := new(big.Int).Rsh(params.GFF.N, 300)
	proof := Prove(big.NewInt(512), rp, big.NewInt(4), big.NewInt(5), params)
	// Sp = tp + c rp: with a short mask its quotient by c is near rp.
	q := new(big.Int).Div(proof.Sp, proof.Challenge)
	if d := q.Sub(q, rp); d.BitLen() < 512 {
		t.Fatal("the response reveals the encryption randomness")
	}
}
'''),
dict(id='b25-half-challenge', property='C25', dir='bulletproofs/',
 needs='an attacker who tries 2^64 openings; proofs are made and accepted as before',
 breaks='the first challenge of each pair has only 64 bits',
 edits=[('bulletproofs/util.go', 'tmp1 := output1[0:]', 'tmp1 := output1[:8]')],
 demo='''
package bulletproofs

import (
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
)

func TestSeededDemo(t *testing.T) {
	g := group.P256()
	longest := 0
	for i := int64(1); i < 40; i++ {
		y, _, _ := HashBP(g.Element().BaseScale(big.NewInt(i)), g.Generator())
		longest = max(longest, y.BitLen())
	}
	if longest < 240 {
		t.Fatal("challenges of at most", longest, "bits")
	}
}
'''),
dict(id='b26-shared-digest', property='C27', dir='bulletproofs/',
 needs='two goroutines that make or verify proofs at the same time',
 breaks='all challenges are computed with one shared hash state, so that concurrent verifications disturb each other and reject valid proofs',
 edits=[('bulletproofs/util.go', '/*\nHashBP is responsible', '// hasher is reused for all challenges.\nvar hasher = sha256.New()\n\n/*\nHashBP is responsible'),
  ('bulletproofs/util.go', '	digest1 := sha256.New()\n', '	digest1 := hasher\n	digest1.Reset()\n')],
 demo='''
package bulletproofs

import (
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/takakv/msc-poc/group"
)

func TestSeededDemo(t *testing.T) {
	g := group.P256()
	a, b := g.Generator(), g.Identity()
	y1, _, _ := HashBP(a, b, a)
	y2, _, _ := HashBP(b, a, b)
	var bad atomic.Bool
	var wg sync.WaitGroup
	end := time.Now().Add(20 * time.Second)
	for i := 0; i < 8; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if recover() != nil {
					bad.Store(true)
				}
			}()
			for n := 0; n < 20000 && !bad.Load() && time.Now().Before(end); n++ {
				if i%2 == 0 {
					if y, _, _ := HashBP(a, b, a); y.Cmp(y1) != 0 {
						bad.Store(true)
					}
				} else if y, _, _ := HashBP(b, a, b); y.Cmp(y2) != 0 {
					bad.Store(true)
				}
			}
		}()
	}
	wg.Wait()
	if bad.Load() {
		t.Fatal("concurrent calls disturb each other")
	}
}
'''),
dict(id='b27-short-label', property='C21', dir='bulletproofs/',
 needs='labels that differ only after their 32nd byte, as those of the generators do',
 breaks='all generators of the range proof are one and the same element, so commitments bind to nothing',
 edits=[('group/p384.go', '	bs := ([]byte)(s)\n', '	// The labels fit into 32 bytes.\n	bs := make([]byte, 32)\n	copy(bs, s)\n')],
 demo='''
package bulletproofs

import (
	"testing"

	"github.com/takakv/msc-poc/group"
)

func TestSeededDemo(t *testing.T) {
	params, err := Setup(16, group.P384())
	if err != nil {
		t.Fatal(err)
	}
	all := append(append([]group.Element{params.H}, params.Gg...), params.Hh...)
	for i := range all {
		for j := range all[:i] {
			if all[i].IsEqual(all[j]) {
				t.Fatal("generators", i, j, "are equal")
			}
		}
	}
}
'''),
dict(id='b28-verdict-cache', property='C23', dir='bulletproofs/',
 needs='verifying an altered copy of a proof after the original',
 breaks='the verdict depends on what was verified before: a proof with the same first elements as an accepted one is accepted',
 edits=[(B, '/*\nVerify returns true if and only if the proof is valid.\n*/', '// verified remembers the transcripts of accepted proofs.\nvar verified sync.Map\n\n/*\nVerify returns true if and only if the proof is valid.\n*/'),
  (B, '	"math/big"\n\n	. "git', '	"math/big"\n	"sync"\n\n	. "git'),
  (B, '	zSquared := new(big.Int).Mod(new(big.Int).Mul(z, z), mod)\n	xSquared', '	if _, ok := verified.Load(x.String()); ok {\n		return true, nil\n	}\n\n	zSquared := new(big.Int).Mod(new(big.Int).Mul(z, z), mod)\n	xSquared'),
  (B, '	result := c65 && c67 && ok\n\n	return result, nil\n', '	if c65 && c67 && ok {\n		verified.Store(x.String(), true)\n		return true, nil\n	}\n\n	return false, nil\n')],
 demo='''
package bulletproofs

import (
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
)

func TestSeededDemo(t *testing.T) {
	params, err := Setup(16, group.P256())
	if err != nil {
		t.Fatal(err)
	}
	proof, _, err := Prove(big.NewInt(7), params)
	if err != nil {
		t.Fatal(err)
	}
	bad := proof
	bad.Taux = new(big.Int).Add(proof.Taux, big.NewInt(1))
	first, _ := bad.Verify()
	if ok, _ := proof.Verify(); !ok {
		t.Fatal("honest proof rejected")
	}
	if second, _ := bad.Verify(); first != second {
		t.Fatal("the verdict changed")
	}
}
'''),
dict(id='b29-no-rounds', property='C18', dir='bulletproofs/',
 needs='a proof for single bits, whose inner-product argument has no rounds',
 breaks='such proofs are valid, but cannot be decoded',
 edits=[('bulletproofs/marshal.go', '''	var tmp bulletProofJSON
	err := json.Unmarshal(b, &tmp)
	if err != nil {
		return BulletProof{}, err
	}
''', '''	var tmp bulletProofJSON
	err := json.Unmarshal(b, &tmp)
	if err != nil || tmp.InnerProductProof.L == nil || tmp.InnerProductProof.R == nil {
		return BulletProof{}, errors.New("malformed proof")
	}
''')],
 demo='''
package bulletproofs

import (
	"encoding/json"
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
)

func TestSeededDemo(t *testing.T) {
	params, err := Setup(2, group.P256())
	if err != nil {
		t.Fatal(err)
	}
	proof, _, err := Prove(big.NewInt(1), params)
	if err != nil {
		t.Fatal(err)
	}
	b, err := json.Marshal(proof)
	if err != nil {
		t.Fatal(err)
	}
	decoded, err := BulletProofUnmarshalJSON(b, params)
	if err != nil {
		t.Fatal(err)
	}
	if ok, _ := decoded.Verify(); !ok {
		t.Fatal("decoded proof rejected")
	}
}
'''),
dict(id='b30-signed-bound', property='C01', dir='',
 needs='an election with more than 32768 candidate numbers and a choice far from the last',
 breaks='the distance to the last candidate becomes negative and the honest ballot is rejected',
 edits=[('voter.go', 'big.NewInt(int64(pp.candidateMax-choice))', 'big.NewInt(int64(int16(pp.candidateMax)-int16(choice)))')],
 demo='''
package main

import (
	"crypto/rand"
	"io"
	"testing"

	"github.com/takakv/msc-poc/group"
)
''' + READER + '''
func TestSeededDemo(t *testing.T) {
	pp, err := setup(group.P256())
	if err != nil {
		t.Fatal(err)
	}
	pp.candidateMax, pp.RPParams.RangeHi = 60000, 60000
	saved := rand.Reader
	rand.Reader = &scripted{make([]byte, 2), saved}
	bd, _ := castVote(pp)
	rand.Reader = saved
	if ok, _ := verifyVote(bd, pp.RPParams); !ok {
		t.Fatal("honest ballot rejected")
	}
}
'''),
dict(id='b31-group-by-name', property='C28', dir='group/',
 needs='two mod p groups that share a name but not the modulus, as two elections with their own groups may',
 breaks='elements of the two groups are combined without any complaint, in whichever group the receiver happens to be',
 edits=[('group/modsafeprime.go', 'return g.fieldOrder.Cmp(gh.fieldOrder) == 0 && g.gen.Cmp(gh.gen) == 0', 'return g.name == gh.name')],
 demo='''
package group

import (
	"math/big"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	a := NewModPGroup("election", "17", "2")
	b := NewModPGroup("election", "2F", "2")
	defer func() {
		if recover() == nil {
			t.Fatal("elements of different groups were combined")
		}
	}()
	a.Element().Add(a.Generator(), b.Element().BaseScale(big.NewInt(5)))
}
'''),
dict(id='b32-summed-checks', property='C04', dir='bulletproofs/',
 needs='a proof altered in two places by amounts that cancel, for example taux and mu both increased by one',
 breaks='the two verification equations are checked as one unweighted sum, so that proofs violating both of them are accepted',
 edits=[('bulletproofs/bp.go', '	c65 := rhs.IsEqual(lhs) // (65)\n', '	d65 := params.GP.Element().Subtract(rhs, lhs) // (65)\n'),
        ('bulletproofs/bp.go', '	c67 := rP.IsIdentity()\n', '	// Both differences have to vanish: one comparison is enough.\n	rP.Add(rP, d65)\n	c67 := rP.IsIdentity()\n'),
        ('bulletproofs/bp.go', 'result := c65 && c67 && ok', 'result := c67 && ok')],
 demo='''
package bulletproofs

import (
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
)

func TestSeededDemo(t *testing.T) {
	params, err := Setup(4, group.P256())
	if err != nil {
		t.Fatal(err)
	}
	proof, _, err := Prove(big.NewInt(3), params)
	if err != nil {
		t.Fatal(err)
	}
	if ok, _ := proof.Verify(); !ok {
		t.Fatal("honest proof rejected")
	}
	one := big.NewInt(1)
	proof.Taux = new(big.Int).Add(proof.Taux, one)
	proof.Mu = new(big.Int).Add(proof.Mu, one)
	if ok, _ := proof.Verify(); ok {
		t.Fatal("altered proof accepted")
	}
}
'''),
dict(id='b33-trivial-length', property='C06', dir='bulletproofs/',
 needs='vectors of length one',
 breaks='the commitment is not checked for proofs without rounds, so any two numbers with the claimed product are accepted',
 edits=[('bulletproofs/bip.go', '	ab = bn.Mod(ab, proof.Params.GP.N())\n', '	ab = bn.Mod(ab, proof.Params.GP.N())\n	if logn == 0 {\n		// Nothing was folded, the vectors themselves are known.\n		return ab.Cmp(bn.Mod(proof.Cc, proof.Params.GP.N())) == 0, nil\n	}\n'),
        ('bulletproofs/bip.go', '	// Compute inverse of left hand side\n', '	// Compute the difference of both sides\n')],
 demo='''
package bulletproofs

import (
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
)

func TestSeededDemo(t *testing.T) {
	params, err := setupInnerProduct(nil, nil, 1, group.P256())
	if err != nil {
		t.Fatal(err)
	}
	a, b := []*big.Int{big.NewInt(3)}, []*big.Int{big.NewInt(4)}
	c := commitInnerProduct(params.Gg, params.Hh, a, b, params.GP)
	proof, err := proveInnerProduct(a, b, c, big.NewInt(12), params)
	if err != nil {
		t.Fatal(err)
	}
	if ok, _ := proof.Verify(); !ok {
		t.Fatal("honest proof rejected")
	}
	proof.A, proof.B = big.NewInt(6), big.NewInt(2)
	if ok, _ := proof.Verify(); ok {
		t.Fatal("vectors that the commitment does not hold were accepted")
	}
}
'''),
dict(id='b34-two-powers', property='C02', dir='bulletproofs/',
 needs='the range [0, 2), that is, bit length 1, as for a yes or no question',
 breaks='the vector of powers has two entries instead of one, so that Prove panics or Verify rejects',
 edits=[('bulletproofs/util.go', """	result = make([]*big.Int, n)
	current := intconversion.BigFromBase10("1")
	i = 0
	for i < n {
		result[i] = current
		current = bn.Multiply(current, x)
		current = bn.Mod(current, SP.N())
		i = i + 1
	}
""", """	// The first two powers need no multiplication.
	current := bn.Mod(x, SP.N())
	result = append(result, intconversion.BigFromBase10("1"), current)
	for i = 2; i < n; i++ {
		current = bn.Mod(bn.Multiply(current, x), SP.N())
		result = append(result, current)
	}
""")],
 demo="""
package bulletproofs

import (
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
)

func TestSeededDemo(t *testing.T) {
	params, err := Setup(2, group.P256())
	if err != nil {
		t.Fatal(err)
	}
	proof, _, err := Prove(big.NewInt(1), params)
	if err != nil {
		t.Fatal(err)
	}
	if ok, _ := proof.Verify(); !ok {
		t.Fatal("honest proof rejected")
	}
}
"""),
dict(id='b35-summed-commitments', property='C09', dir='voteproof/',
 needs='commitments to choice + d and choice - d (or responses changed by opposite amounts)',
 breaks='only the sum of the two commitments is tied to the ciphertext, so both range proofs can be about other numbers than the vote',
 edits=[('voteproof/voteproof.go', """	if !sigmaPedersenCheck(proof.Z, proof.Sq1, proof.Challenge, proof.Kq1,
		comm.Xq1, proof.Params.GEC) {
		return false
	}

	if !sigmaPedersenCheck(proof.Z, proof.Sq2, proof.Challenge, proof.Kq2,
		comm.Xq2, proof.Params.GEC) {
		return false
	}
""", """	// Both relations have the same shape, so they are checked together.
	ec := proof.Params.GEC
	z2 := new(big.Int).Add(proof.Z, proof.Z)
	s := new(big.Int).Add(proof.Sq1, proof.Sq2)
	k := ec.I.Element().Add(proof.Kq1, proof.Kq2)
	xq := ec.I.Element().Add(comm.Xq1, comm.Xq2)
	if !sigmaPedersenCheck(z2, s, proof.Challenge, k, xq, ec) {
		return false
	}
""")],
 demo='''
package voteproof

import (
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
)

func TestSeededDemo(t *testing.T) {
	params := func(g group.Group) GroupParameters {
		return GroupParameters{I: g, F: g.P(), N: g.N(), G: g.Generator(), H: g.Element().BaseScale(big.NewInt(13))}
	}
	ff, ec := params(group.P256()), params(group.P256())
	pp, err := Setup(16, 224, 256, 101, 2000, AlgebraicParameters{GFF: ff, GEC: ec})
	if err != nil {
		t.Fatal(err)
	}
	commit := func(p GroupParameters, v, r int64) group.Element {
		e := p.I.Element()
		return e.Add(p.I.Element().Scale(p.G, big.NewInt(v)), p.I.Element().Scale(p.H, big.NewInt(r)))
	}
	proof := Prove(big.NewInt(500), big.NewInt(7), big.NewInt(8), big.NewInt(9), pp)
	comm := VerCommitments{Y: ff.I.Element().BaseScale(big.NewInt(7)), Xp: commit(ff, 500, 7),
		Xq1: commit(ec, 500, 8), Xq2: commit(ec, 500, 9)}
	if !proof.Verify(comm) {
		t.Fatal("honest proof rejected")
	}
	proof.Sq1 = new(big.Int).Add(proof.Sq1, big.NewInt(1))
	proof.Sq2 = new(big.Int).Sub(proof.Sq2, big.NewInt(1))
	if proof.Verify(comm) {
		t.Fatal("altered proof accepted")
	}
}
'''),
dict(id='b36-top-range', property='C11', dir='',
 needs='an election whose last candidate number is 65535 and whose first is not 0',
 breaks='the upper bound is taken for granted because choices have 16 bits, but the lower range proof allows choices up to 65535 above the first candidate',
 edits=[('server.go', '	ok2, _ := proofs.BpUpper.Verify()\n	if !ok2 {', '	ok2, _ := proofs.BpUpper.Verify()\n	if rpParams.RangeHi == 0xFFFF {\n		// Choices have 16 bits: there is nothing above the bound.\n		ok2 = true\n	}\n	if !ok2 {'),
        ('server.go', '	// Verify the vote upper bound.\n', '	// Verify the upper bound of the vote.\n')],
 demo='''
package main

import (
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
)

func TestSeededDemo(t *testing.T) {
	pp, err := setup(group.P256())
	if err != nil {
		t.Fatal(err)
	}
	pp.candidateMax, pp.RPParams.RangeHi = 65535, 65535
	ballot := func(choice int64) BallotData {
		ff, ec := pp.RPParams.GFF, pp.RPParams.GEC
		r, ru := big.NewInt(12345), big.NewInt(777)
		lower, rl, err := bulletproofs.Prove(big.NewInt(choice-101), pp.BPParams)
		if err != nil {
			t.Fatal(err)
		}
		upper, _, _ := bulletproofs.Prove(big.NewInt(5), pp.BPParams)
		upper.V = ec.I.Element().Add(ec.I.Element().BaseScale(big.NewInt(65535-choice)), ec.I.Element().Scale(ec.H, ru))
		var c ElGamalCiphertext
		c.U = ff.I.Element().BaseScale(r)
		c.V = ff.I.Element().Add(ff.I.Element().BaseScale(big.NewInt(choice)), ff.I.Element().Scale(ff.H, r))
		vp := voteproof.Prove(big.NewInt(choice), r, rl, new(big.Int).Neg(ru), pp.RPParams)
		return BallotData{Ballot: c, BpLower: lower, BpUpper: upper, VoteProof: vp}
	}
	if ok, _ := verifyVote(ballot(65600), pp.RPParams); ok {
		t.Fatal("a vote for a candidate number above the range was accepted")
	}
}
'''),
]
