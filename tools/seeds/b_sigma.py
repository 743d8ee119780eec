seed('window-upper-end', 'C10',
     [('voteproof/voteproof.go', 'if proof.Z.Cmp(zLowerBound) == -1 || proof.Z.Cmp(zUpperBound) != -1 {', 'if proof.Z.Cmp(zLowerBound) == -1 || proof.Z.Cmp(zUpperBound) == 1 {')], 'voteproof', r'''
import (
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
)

// A response exactly at the exclusive end of the window: k is chosen so that k + c*x hits it.
func TestDemo(t *testing.T) {
	g := group.P256()
	h, _ := g.Element().MapToGroup("demo")
	gp := GroupParameters{G: g.Generator(), H: h, N: g.N(), F: g.P(), I: g}
	// short challenges: try openings until the challenge is the guessed one
	params, err := Setup(16, 8, 256, 0, 100, AlgebraicParameters{gp, gp})
	if err != nil {
		t.Fatal(err)
	}
	up := new(big.Int).Lsh(big.NewInt(1), uint(16+8+params.Bb))
	one := big.NewInt(1)
	x := big.NewInt(5)
	comm := VerCommitments{Y: g.Element().BaseScale(one), Xp: pedersenCommit(x, one, gp), Xq1: pedersenCommit(x, one, gp), Xq2: pedersenCommit(x, one, gp)}
	for i := int64(1); i < 4000; i++ {
		guess := big.NewInt(77)
		k := new(big.Int).Sub(up, new(big.Int).Mul(guess, x))
		tp := big.NewInt(i)
		p := SigmaProof{Params: params}
		p.W = g.Element().BaseScale(tp)
		p.Kp = pedersenCommit(k, tp, gp)
		p.Kq1 = pedersenCommit(k, tp, gp)
		p.Kq2 = pedersenCommit(k, tp, gp)
		p.Challenge = getFSChallenge(comm, p.W, p.Kp, p.Kq1, p.Kq2, params.Bc)
		if p.Challenge.Cmp(guess) != 0 {
			continue
		}
		p.Z = up
		s := new(big.Int).Add(tp, guess)
		p.Sp, p.Sq1, p.Sq2 = s, s, s
		if p.Verify(comm) {
			t.Fatal("accepted a response at the end of the window")
		}
		return
	}
}
''', 'a response exactly equal to the exclusive upper end of the window', 'the verifier accepts a response outside the window')

seed('mask-half-range', 'C10',
     [('voteproof/voteproof.go', 'k, _ := rand.Int(rand.Reader, zUpperBound)', 'k, _ := rand.Int(rand.Reader, new(big.Int).Rsh(zUpperBound, 1))')], 'voteproof', r'''
import (
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
)

func TestDemo(t *testing.T) {
	g := group.P256()
	h, _ := g.Element().MapToGroup("demo")
	gp := GroupParameters{G: g.Generator(), H: h, N: g.N(), F: g.P(), I: g}
	params, err := Setup(16, 224, 256, 0, 100, AlgebraicParameters{gp, gp})
	if err != nil {
		t.Fatal(err)
	}
	half := new(big.Int).Lsh(big.NewInt(1), uint(16+224+params.Bb-1))
	// slack for the term challenge * secret
	half.Add(half, new(big.Int).Lsh(big.NewInt(1), 240))
	for i := 0; i < 60; i++ {
		p := Prove(big.NewInt(50), big.NewInt(3), big.NewInt(4), big.NewInt(5), params)
		if p.Z.Cmp(half) == 1 {
			return
		}
	}
	t.Fatal("no response in the upper half of the window in 60 proofs")
}
''', 'only visible in the distribution of the responses', 'the mask covers half of its range, so the upper half of the window never occurs')

seed('nonce-shared-by-two-commitments', 'C16',
     [('voteproof/voteproof.go', 'tq2, _ := rand.Int(rand.Reader, params.GEC.N)', 'tq2 := tq1')], 'voteproof', r'''
import (
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
)

func TestDemo(t *testing.T) {
	g := group.P256()
	h, _ := g.Element().MapToGroup("demo")
	gp := GroupParameters{G: g.Generator(), H: h, N: g.N(), F: g.P(), I: g}
	params, _ := Setup(16, 224, 256, 0, 100, AlgebraicParameters{gp, gp})
	p := Prove(big.NewInt(50), big.NewInt(3), big.NewInt(4), big.NewInt(5), params)
	if p.Kq1.IsEqual(p.Kq2) {
		t.Fatal("the two commitments share their blinding")
	}
}
''', 'looking at the two commitments of one proof together', 'the blinding of the two curve commitments is reused: their responses reveal the difference of the secrets randomness')

seed('second-commitment-unbound', 'C09',
     [('voteproof/voteproof.go', '''	if !sigmaPedersenCheck(proof.Z, proof.Sq2, proof.Challenge, proof.Kq2,
		comm.Xq2, proof.Params.GEC) {
		return false
	}

	return true''', '''	sigmaPedersenCheck(proof.Z, proof.Sq2, proof.Challenge, proof.Kq2,
		comm.Xq2, proof.Params.GEC)

	return true''')], 'voteproof', r'''
import (
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
)

func TestDemo(t *testing.T) {
	g := group.P256()
	h, _ := g.Element().MapToGroup("demo")
	gp := GroupParameters{G: g.Generator(), H: h, N: g.N(), F: g.P(), I: g}
	params, _ := Setup(16, 224, 256, 0, 100, AlgebraicParameters{gp, gp})
	x, r := big.NewInt(50), big.NewInt(9)
	comm := VerCommitments{Y: g.Element().BaseScale(r), Xp: pedersenCommit(x, r, gp), Xq1: pedersenCommit(x, r, gp), Xq2: pedersenCommit(big.NewInt(51), r, gp)}
	// prove with the transcript of the false statement
	for {
		k := new(big.Int).Lsh(big.NewInt(1), 245)
		tp := big.NewInt(1234567)
		p := SigmaProof{Params: params}
		p.W = g.Element().BaseScale(tp)
		p.Kp = pedersenCommit(k, tp, gp)
		p.Kq1 = pedersenCommit(k, tp, gp)
		p.Kq2 = pedersenCommit(k, tp, gp)
		p.Challenge = getFSChallenge(comm, p.W, p.Kp, p.Kq1, p.Kq2, params.Bc)
		p.Z = new(big.Int).Add(k, new(big.Int).Mul(p.Challenge, x))
		s := new(big.Int).Add(tp, new(big.Int).Mul(p.Challenge, r))
		p.Sp, p.Sq1, p.Sq2 = s, s, s
		if p.Verify(comm) {
			t.Fatal("accepted different secrets")
		}
		return
	}
}
''', 'a prover cheating only in the second range commitment', 'the second commitment may hold another secret')

seed('abort-bits-zero', 'C12',
     [('voteproof/voteproof.go', 'if params.Bb < 1 {', 'if params.Bb < 0 {')], 'voteproof', r'''
import (
	"testing"

	"github.com/takakv/msc-poc/group"
)

func TestDemo(t *testing.T) {
	g := group.P256()
	gp := GroupParameters{G: g.Generator(), H: g.Generator(), N: g.N(), F: g.P(), I: g}
	// 256 - 1 - 7 - 248 = 0 abort bits
	if _, err := Setup(7, 248, 256, 0, 100, AlgebraicParameters{gp, gp}); err == nil {
		t.Fatal("setup without abort bits succeeded")
	}
}
''', 'parameters that leave exactly zero abort bits', 'setup accepts parameters for which no proof exists')
