seed('roles-exchanged-tolerated', 'C03',
     [('server.go', '	result := proofs.VoteProof.Verify(commitments)\n', '''	result := proofs.VoteProof.Verify(commitments)
	if !result {
		// Ballots of older clients carry the bounds in the other order.
		commitments.Xq1 = rpParams.GEC.I.Element().Add(loShift, proofs.BpUpper.V)
		commitments.Xq2 = rpParams.GEC.I.Element().Subtract(upShift, proofs.BpLower.V)
		result = proofs.VoteProof.Verify(commitments)
	}
''')], '.', r'''
import (
	"testing"

	"github.com/takakv/msc-poc/group"
)

// The two range proofs of an accepted ballot change places.
func TestDemo(t *testing.T) {
	pp, err := setup(group.SecP256k1())
	if err != nil {
		t.Fatal(err)
	}
	b, _ := castVote(pp)
	if ok, _ := verifyVote(b, pp.RPParams); !ok {
		t.Fatal("an honest ballot was refused")
	}
	b.BpLower, b.BpUpper = b.BpUpper, b.BpLower
	if ok, _ := verifyVote(b, pp.RPParams); ok {
		t.Fatal("accepted although the range proofs were exchanged")
	}
}
''', 'the range proofs of one ballot in exchanged roles, everything else as it was', 'a part of an accepted ballot is accepted in another role')

seed('missing-upper-proof-from-lower', 'C15',
     [('marshal.go', '	bpUpper, err := bulletproofs.BulletProofUnmarshalJSON(tmp.BpUpper, pp.BPParams)\n', '''	if len(tmp.BpUpper) == 0 {
		tmp.BpUpper = tmp.BpLower
	}
	bpUpper, err := bulletproofs.BulletProofUnmarshalJSON(tmp.BpUpper, pp.BPParams)
''')], '.', r'''
import (
	"encoding/json"
	"testing"

	"github.com/takakv/msc-poc/group"
)

// A document that lacks one of the range proofs.
func TestDemo(t *testing.T) {
	pp, err := setup(group.SecP256k1())
	if err != nil {
		t.Fatal(err)
	}
	b, _ := castVote(pp)
	doc, err := json.Marshal(b)
	if err != nil {
		t.Fatal(err)
	}
	var m map[string]json.RawMessage
	if err := json.Unmarshal(doc, &m); err != nil {
		t.Fatal(err)
	}
	for _, k := range []string{"ballot", "lbProof", "ubProof", "voteProof"} {
		part := m[k]
		delete(m, k)
		short, _ := json.Marshal(m)
		m[k] = part
		if _, err := BallotDataUnmarshalJSON(short, pp); err == nil {
			t.Errorf("a ballot without %s was read", k)
		}
	}
}
''', 'a document in which exactly the upper range proof is absent', 'an incomplete ballot is read as if it were complete')

seed('full-width-upper-unchecked', 'C02',
     [('server.go', '	ok2, _ := proofs.BpUpper.Verify()\n', '''	// The bits of the proof end where the range ends: nothing to check.
	ok2 := int64(rpParams.RangeHi)+1 == int64(1)<<proofs.BpUpper.Params.N
	if !ok2 {
		ok2, _ = proofs.BpUpper.Verify()
	}
''')], '.', r'''
import (
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
)

// Candidates 3..15 and range proofs of 4 bits: 17 - 3 fits, 15 - 17 does not.
func TestDemo(t *testing.T) {
	pp, err := setup(group.SecP256k1())
	if err != nil {
		t.Fatal(err)
	}
	if pp.BPParams, err = bulletproofs.Setup(16, pp.ECGroupParams.I); err != nil {
		t.Fatal(err)
	}
	pp.RPParams.GEC.H = pp.BPParams.H
	pp.RPParams.RangeLo, pp.RPParams.RangeHi = 3, 15
	ct, rp := encryptVote(17, pp.EGPK, pp.FFGroupParams.I)
	lo, rq1, _ := bulletproofs.Prove(big.NewInt(14), pp.BPParams)
	hi, rq2, _ := bulletproofs.Prove(big.NewInt(-2), pp.BPParams)
	sp := voteproof.Prove(big.NewInt(17), rp, rq1, new(big.Int).Sub(pp.ECGroupParams.N, rq2), pp.RPParams)
	if ok, _ := verifyVote(BallotData{ct, lo, hi, sp}, pp.RPParams); ok {
		t.Fatal("accepted a candidate above the range")
	}
}
''', 'a range whose upper end is 2^n - 1 for proofs of n bits, and does not start at 0', 'a candidate above the range is accepted')

seed('mask-from-the-window', 'C10',
     [('voteproof/voteproof.go', '		k, _ := rand.Int(rand.Reader, zUpperBound)\n', '''		// Smaller values end up below the window anyway.
		k, _ := rand.Int(rand.Reader, new(big.Int).Sub(zUpperBound, zLowerBound))
		k.Add(k, zLowerBound)
''')], 'voteproof', r'''
import (
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
)

// With one abort bit, the responses for the largest secret fill the window evenly.
func TestDemo(t *testing.T) {
	g := group.P256()
	gp := GroupParameters{G: g.Generator(), H: g.Element().BaseScale(big.NewInt(7)), N: g.N(), F: g.P(), I: g}
	params, err := Setup(4, 8, 14, 0, 15, AlgebraicParameters{GFF: gp, GEC: gp})
	if err != nil {
		t.Fatal(err)
	}
	low := 0
	for i := 0; i < 800; i++ {
		p := Prove(big.NewInt(15), big.NewInt(3), big.NewInt(4), big.NewInt(5), params)
		if p.Z.Cmp(big.NewInt(4096+512)) < 0 {
			low++
		}
	}
	if low < 36 {
		t.Fatalf("%d of 800 responses in the lowest eighth of the window", low)
	}
}
''', 'a large secret and few abort bits, over many proofs', 'the distribution of responses tells large secrets from small ones')

seed('zero-challenge-shortcut', 'C09',
     [('voteproof/voteproof.go', '	right := gp.I.Element().Scale(x, c)\n', '''	if c.Sign() == 0 {
		// Nothing of the statement is left in the relation.
		return true
	}
	right := gp.I.Element().Scale(x, c)
''')], 'voteproof', r'''
import (
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
)

// A transcript with a short challenge that happens to be zero: of the four
// relations only the first is made to hold.
func TestDemo(t *testing.T) {
	g := group.P256()
	gp := GroupParameters{G: g.Generator(), H: g.Element().BaseScale(big.NewInt(7)), N: g.N(), F: g.P(), I: g}
	params, err := Setup(8, 8, 40, 0, 255, AlgebraicParameters{GFF: gp, GEC: gp})
	if err != nil {
		t.Fatal(err)
	}
	at := func(k int64) group.Element { return g.Element().BaseScale(big.NewInt(k)) }
	comm := VerCommitments{Y: at(11), Xp: at(12), Xq1: at(13), Xq2: at(14)}
	p := Prove(big.NewInt(5), big.NewInt(3), big.NewInt(4), big.NewInt(5), params)
	for k := int64(1); k < 4000; k++ {
		p.W, p.Sp, p.Challenge = at(k), big.NewInt(k), new(big.Int)
		if p.Verify(comm) {
			t.Fatal("accepted a proof about unrelated commitments")
		}
	}
}
''', 'a challenge that is exactly zero', 'commitments to different values pass as equal')

seed('order-length-in-whole-bytes', 'C20',
     [('main.go', '	rpParams, err := voteproof.Setup(choiceLength, challengeLength, uint16(curveGroupParams.N.BitLen()),\n', '''	// Scalars are encoded in whole bytes.
	orderLength := 8 * ((curveGroupParams.N.BitLen() + 7) / 8)

	rpParams, err := voteproof.Setup(choiceLength, challengeLength, uint16(orderLength),
''')], '.', r'''
import (
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
)

// The largest accepted response of the equality proof is below the order.
func TestDemo(t *testing.T) {
	for _, g := range []group.Group{group.SecP256k1(), group.P256(), group.P384(), group.Ristretto255()} {
		pp, err := setup(g)
		if err != nil {
			continue
		}
		bits := int(pp.RPParams.Bx) + int(pp.RPParams.Bc) + pp.RPParams.Bb
		if new(big.Int).Lsh(big.NewInt(1), uint(bits)).Cmp(g.N()) >= 0 {
			t.Fatal("responses exceed the order of", g.Name())
		}
	}
}
''', 'a group whose order is not a whole number of bytes long (ristretto255 of the four)', 'the window of responses reaches past the group order, so responses no longer stand for one integer')

seed('shorter-challenge-for-short-orders', 'C20',
     [('main.go', '	rpParams, err := voteproof.Setup(choiceLength, challengeLength, uint16(curveGroupParams.N.BitLen()),\n', '''	// Leave room for the masks in the smaller groups.
	room := challengeLength
	for room > 64 && 1+int(choiceLength)+int(room) >= curveGroupParams.N.BitLen() {
		room -= 8
	}

	rpParams, err := voteproof.Setup(choiceLength, room, uint16(curveGroupParams.N.BitLen()),
''')], '.', r'''
import (
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
)

// A group like secp256k1 whose order has 192 bits.
type short struct{ group.Group }

func (short) Name() string { return "short" }
func (short) N() *big.Int {
	return new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 192), big.NewInt(237))
}

func TestDemo(t *testing.T) {
	full, err := setup(group.SecP256k1())
	if err != nil {
		t.Fatal(err)
	}
	pp, err := setup(short{group.SecP256k1()})
	if err == nil && pp.RPParams.Bc != full.RPParams.Bc {
		t.Fatalf("challenges of %d bits instead of %d", pp.RPParams.Bc, full.RPParams.Bc)
	}
}
''', 'a group with an order of less than 242 bits', 'such a group is no longer refused: it gets an election with a shorter challenge, hence less soundness')

seed('generators-kept-by-order-length', 'C20',
     [('main.go', '	bpParams, err := bulletproofs.Setup(65536, curveGroup)\n	if err != nil {\n		return PublicParameters{}, err\n	}\n', '''	// The generators take long to derive: keep them.
	bpParams, known := derived[curveGroup.N().BitLen()]
	if !known {
		var err error
		bpParams, err = bulletproofs.Setup(65536, curveGroup)
		if err != nil {
			return PublicParameters{}, err
		}
		derived[curveGroup.N().BitLen()] = bpParams
	}
'''), ('main.go', 'func setup(curveGroup group.Group) (PublicParameters, error) {\n', '''// derived holds the range-proof parameters derived so far.
var derived = map[int]bulletproofs.BulletProofSetupParams{}

func setup(curveGroup group.Group) (PublicParameters, error) {
''')], '.', r'''
import (
	"testing"

	"github.com/takakv/msc-poc/group"
)

// Two groups with orders of 256 bits, one after the other.
func TestDemo(t *testing.T) {
	if _, err := setup(group.SecP256k1()); err != nil {
		t.Fatal(err)
	}
	pp, err := setup(group.P256())
	if err != nil {
		t.Fatal(err)
	}
	if pp.BPParams.GP.Name() != "P-256" || !pp.BPParams.G.IsEqual(group.P256().Generator()) {
		t.Fatal("range proofs over", pp.BPParams.GP.Name())
	}
}
''', 'the setup of a second group whose order has the same length as that of an earlier one', 'the range proofs of the second election are over the generators of the first one\'s group')
