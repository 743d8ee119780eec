seed('upper-proof-not-checked', 'C02',
     [('server.go', 'ok2, _ := proofs.BpUpper.Verify()', 'ok2, _ := proofs.BpLower.Verify()')], '.', r'''
import (
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
)

// A ballot for a candidate above the range: only the upper proof is wrong.
func TestDemo(t *testing.T) {
	pp, err := setup(group.SecP256k1())
	if err != nil {
		t.Fatal(err)
	}
	choice := pp.candidateMax + 7
	ct, rp := encryptVote(choice, pp.EGPK, pp.FFGroupParams.I)
	lo, rq1, _ := bulletproofs.Prove(big.NewInt(int64(choice-pp.candidateMin)), pp.BPParams)
	hi, rq2, _ := bulletproofs.Prove(big.NewInt(-7), pp.BPParams)
	sp := voteproof.Prove(big.NewInt(int64(choice)), rp, rq1, new(big.Int).Sub(pp.ECGroupParams.N, rq2), pp.RPParams)
	if ok, _ := verifyVote(BallotData{ct, lo, hi, sp}, pp.RPParams); ok {
		t.Fatal("accepted a candidate above the range")
	}
}
''', 'a ballot whose only fault is the upper range proof', 'a candidate above the range is accepted')

seed('range-off-by-one', 'C02',
     [('server.go', 'BaseScale(big.NewInt(int64(rpParams.RangeHi)))', 'BaseScale(big.NewInt(int64(rpParams.RangeHi) + 1))'),
      ('voter.go', 'big.NewInt(int64(pp.candidateMax-choice))', 'big.NewInt(int64(pp.candidateMax-choice)+1)')], '.', r'''
import (
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
)

// The number next to the highest candidate, with every upper commitment a voter might use.
func TestDemo(t *testing.T) {
	pp, err := setup(group.SecP256k1())
	if err != nil {
		t.Fatal(err)
	}
	choice := pp.candidateMax + 1
	for _, up := range []int64{0, -1, 1} {
		ct, rp := encryptVote(choice, pp.EGPK, pp.FFGroupParams.I)
		lo, rq1, _ := bulletproofs.Prove(big.NewInt(int64(choice-pp.candidateMin)), pp.BPParams)
		hi, rq2, _ := bulletproofs.Prove(big.NewInt(up), pp.BPParams)
		sp := voteproof.Prove(big.NewInt(int64(choice)), rp, rq1, new(big.Int).Sub(pp.ECGroupParams.N, rq2), pp.RPParams)
		if ok, _ := verifyVote(BallotData{ct, lo, hi, sp}, pp.RPParams); ok {
			t.Fatal("accepted the number after the highest candidate")
		}
	}
}
''', 'the number just after the highest candidate, voter and collector agreeing on the wrong shift', 'a number outside the range is accepted')

seed('range-from-ballot', 'C04',
     [('server.go', 'BaseScale(big.NewInt(int64(rpParams.RangeLo)))', 'BaseScale(big.NewInt(int64(proofs.VoteProof.Params.RangeLo)))')], '.', r'''
import (
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
)

// The voter claims a lower start of the range in the parameters of the ballot.
func TestDemo(t *testing.T) {
	pp, err := setup(group.P256())
	if err != nil {
		t.Fatal(err)
	}
	own := pp.RPParams
	own.RangeLo = 1
	choice := pp.candidateMin - 50
	ct, rp := encryptVote(choice, pp.EGPK, pp.FFGroupParams.I)
	lo, rq1, _ := bulletproofs.Prove(big.NewInt(int64(choice-own.RangeLo)), pp.BPParams)
	hi, rq2, _ := bulletproofs.Prove(big.NewInt(int64(pp.candidateMax-choice)), pp.BPParams)
	sp := voteproof.Prove(big.NewInt(int64(choice)), rp, rq1, new(big.Int).Sub(pp.ECGroupParams.N, rq2), own)
	if ok, _ := verifyVote(BallotData{ct, lo, hi, sp}, pp.RPParams); ok {
		t.Fatal("the ballot chose its own range")
	}
}
''', 'a ballot carrying parameters with its own lower end of the range', 'the submitter chooses the range')

seed('choice-drawn-twice-the-step', 'C01',
     [('voter.go', 'var choice = uint16(rBig.Uint64()) + pp.candidateMin', 'var choice = uint16(rBig.Uint64())&^(1<<10) + pp.candidateMin')], '.', r'''
import (
	"testing"

	"github.com/takakv/msc-poc/group"
)

// Among many ballots some must be for the upper half of the range.
func TestDemo(t *testing.T) {
	pp, err := setup(group.SecP256k1())
	if err != nil {
		t.Fatal(err)
	}
	g := pp.FFGroupParams.I
	high := map[string]bool{}
	for c := 1024; c <= int(pp.candidateMax-pp.candidateMin); c++ {
		high[g.Element().BaseScale(bi(c+int(pp.candidateMin))).String()] = true
	}
	for i := 0; i < 60; i++ {
		b, _ := castVote(pp)
		m := g.Element().Subtract(b.Ballot.V, g.Element().Scale(b.Ballot.U, bi(13)))
		if high[m.String()] {
			return
		}
	}
	t.Fatal("no ballot for a candidate of the upper half in 60")
}

func bi(n int) *big.Int { return big.NewInt(int64(n)) }
'''.replace('"testing"', '"math/big"\n\t"testing"'), 'a voter choosing a candidate more than 1023 above the lowest', 'such candidates can never be voted for')

seed('large-candidate-sign', 'C18',
     [('elgamal.go', 'cBig := big.NewInt(int64(choice))', 'cBig := big.NewInt(int64(int16(choice)))')], '.', r'''
import (
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
)

func TestDemo(t *testing.T) {
	pp, err := setup(group.P256())
	if err != nil {
		t.Fatal(err)
	}
	g := pp.FFGroupParams.I
	for _, c := range []uint16{0, 1, 101, 32767, 32768, 50001, 65535} {
		ct, _ := encryptVote(c, pp.EGPK, g)
		m := g.Element().Subtract(ct.V, g.Element().Scale(ct.U, big.NewInt(13)))
		if !m.IsEqual(g.Element().BaseScale(big.NewInt(int64(c)))) {
			t.Fatal("decrypts to something else:", c)
		}
	}
}
''', 'a candidate number of 32768 or more', 'it is encrypted as a negative number')

seed('encryption-randomness-short', 'C16',
     [('elgamal.go', 'rand.Int(rand.Reader, tmp.Sub(egPK.GroupOrder(), big.NewInt(1)))',
       'rand.Int(rand.Reader, tmp.Rsh(egPK.GroupOrder(), uint(egPK.GroupOrder().BitLen()/2)))')], '.', r'''
import (
	"testing"

	"github.com/takakv/msc-poc/group"
)

func TestDemo(t *testing.T) {
	pp, err := setup(group.P256())
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 20; i++ {
		_, r := encryptVote(200, pp.EGPK, pp.FFGroupParams.I)
		if r.BitLen() > pp.FFGroupParams.N.BitLen()-16 {
			return
		}
	}
	t.Fatal("the randomness never reaches the upper part of the range")
}
''', 'nothing, but only visible in the distribution of the randomness', 'the encryption randomness covers half of the bits')
