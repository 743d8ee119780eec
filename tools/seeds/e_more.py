COUNTING = r'''
import (
	"crypto/rand"
	"io"
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
)

// counter counts the randomness that is consumed.
type counter struct {
	r io.Reader
	n int
}

func (c *counter) Read(p []byte) (int, error) {
	n, err := c.r.Read(p)
	c.n += n
	return n, err
}

// A proof for n bits has 2n + 5 independent masks of 32 bytes each.
func TestDemo(t *testing.T) {
	old := rand.Reader
	defer func() { rand.Reader = old }()
	params, err := Setup(1<<8, group.P256())
	if err != nil {
		t.Fatal(err)
	}
	c := &counter{r: old}
	rand.Reader = c
	if _, _, err := Prove(big.NewInt(77), params); err != nil {
		t.Fatal(err)
	}
	if want := (2*8 + 5) * 32; c.n < want {
		t.Fatalf("a proof took %d bytes of randomness, its masks need %d", c.n, want)
	}
}
'''

seed('masks-mirrored', 'C16',
     [('bulletproofs/bp.go', '	sR := sampleRandomVector(params.N, params.GP)  ', '	sR := make([]*big.Int, params.N)\n	for i := range sR {\n		sR[i] = sL[len(sL)-1-i]\n	}\n	//')],
     'bulletproofs', COUNTING, 'nothing in the values themselves: the second vector of masks is the first one backwards',
     'two masks of one commitment are equal, which leaks a relation of the bits')

seed('mask-squared', 'C16',
     [('bulletproofs/bp.go', '	tau2, _ := rand.Int(rand.Reader, mod) // (52)\n\n	// The paper', '	tau2 := new(big.Int).Mod(new(big.Int).Mul(tau1, tau1), mod) // (52)\n\n	// The paper')],
     'bulletproofs', COUNTING, 'two masks of one proof are looked at together: one is the square of the other',
     'tau_x is masked by a value that the other commitments determine')

seed('verification-scales-the-round', 'C17',
     [('bulletproofs/bip.go', 'proof.Params.GP.Element().Scale(proof.R[i], x2inv)', 'proof.R[i].Scale(proof.R[i], x2inv)')],
     'bulletproofs', r'''
import (
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
)

func TestDemo(t *testing.T) {
	params, err := Setup(1<<8, group.P256())
	if err != nil {
		t.Fatal(err)
	}
	p, _, err := Prove(big.NewInt(200), params)
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 3; i++ {
		if ok, _ := p.Verify(); !ok {
			t.Fatalf("verification %d of the same proof rejects it", i+1)
		}
	}
}
''', 'one proof is verified twice', 'verifying a proof changes it, the second verification rejects it')

seed('decompose-consumes', 'C17',
     [('util/util.go', '		x = new(big.Int).Div(x, new(big.Int).SetInt64(u))', '		x.Div(x, new(big.Int).SetInt64(u))')],
     'bulletproofs', r'''
import (
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
)

func TestDemo(t *testing.T) {
	params, err := Setup(1<<8, group.P256())
	if err != nil {
		t.Fatal(err)
	}
	v := big.NewInt(200)
	if _, _, err := Prove(v, params); err != nil {
		t.Fatal(err)
	}
	if v.Int64() != 200 {
		t.Fatalf("the prover turned the secret of its caller into %v", v)
	}
}
''', 'the caller uses the secret again after proving', 'the prover overwrites the secret it was given')

seed('delta-of-eight', 'C08',
     [('bulletproofs/multibp.go', '''	t3 := big.NewInt(0)
	for j := int64(0); j < m; j++ {''', '''	t3 := big.NewInt(0)
	if m > 8 {
		m = 8
	}
	for j := int64(0); j < m; j++ {''')],
     'bulletproofs', r'''
import (
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
)

func TestDemo(t *testing.T) {
	params, err := Setup(1<<16, group.P256())
	if err != nil {
		t.Fatal(err)
	}
	vs := make([]*big.Int, 16)
	for i := range vs {
		vs[i] = big.NewInt(int64(i & 1))
	}
	p, _, err := MultiProve(vs, params)
	if err != nil {
		t.Fatal(err)
	}
	if ok, _ := p.Verify(); !ok {
		t.Fatal("an honest proof for 16 values is rejected")
	}
}
''', 'more than eight values aggregated in one proof', 'honest aggregated proofs for 16 values are rejected')

seed('nonce-kept-on-abort', 'C10',
     [('voteproof/voteproof.go', '''	// Abort loop
	for {
		// Setup
		k, _ := rand.Int(rand.Reader, zUpperBound)
''', '''	// Abort loop
	k, _ := rand.Int(rand.Reader, zUpperBound)
	for {
		// Setup
''')], 'voteproof', r'''
import (
	"math/big"
	"testing"
	"time"

	"github.com/takakv/msc-poc/group"
)

// With one abort bit half of the nonces can never give a response inside the
// window: the prover has to draw another one.
func TestDemo(t *testing.T) {
	g := group.P256()
	h, _ := g.Element().MapToGroup("demo")
	gp := GroupParameters{G: g.Generator(), H: h, N: g.N(), F: g.P(), I: g}
	params, err := Setup(16, 224, 256, 0, 100, AlgebraicParameters{gp, gp})
	if err != nil {
		t.Fatal(err)
	}
	params.Bb = 1
	done := make(chan bool)
	go func() {
		for i := 0; i < 30; i++ {
			Prove(big.NewInt(5), big.NewInt(1), big.NewInt(2), big.NewInt(3), params)
		}
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		t.Fatal("the prover does not come to an end")
	}
}
''', 'a nonce in the part of its range from which no response fits the window (an abort)', 'after an abort the prover loops for ever')

seed('basis-of-the-first-group', 'C17',
     [('bulletproofs/bip.go', '''	params.Uu, _ = SP.Element().MapToGroup(SEEDU)
''', '''	if basisU == nil || basisUBits != SP.P().BitLen() {
		basisU, _ = SP.Element().MapToGroup(SEEDU)
		basisUBits = SP.P().BitLen()
	}
	params.Uu = basisU
'''), ('bulletproofs/bip.go', 'var SEEDU =', 'var basisU group.Element\nvar basisUBits int\n\nvar SEEDU =')],
     'bulletproofs', r'''
import (
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
)

func TestDemo(t *testing.T) {
	for _, g := range []group.Group{group.P256(), group.SecP256k1()} {
		func() {
			defer func() {
				if r := recover(); r != nil {
					t.Fatal(g.Name(), r)
				}
			}()
			params, err := Setup(1<<8, g)
			if err != nil {
				t.Fatal(err)
			}
			p, _, err := Prove(big.NewInt(200), params)
			if err != nil {
				t.Fatal(err)
			}
			if ok, _ := p.Verify(); !ok {
				t.Fatal(g.Name(), "rejects")
			}
		}()
	}
}
''', 'two curves with fields of the same size in one process', 'proofs in the second curve use an element of the first')

seed('scale-reduces-the-argument', 'C13',
     [('group/p256k1.go', '	e.val = new(p256.P256).ScalarMult(ca.val, s)', '	e.val = new(p256.P256).ScalarMult(ca.val, s.Mod(s, e.curve.curveOrder))')],
     'group', r'''
import (
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	g := SecP256k1()
	s := big.NewInt(-1)
	g.Element().Scale(g.Generator(), s)
	if s.Cmp(big.NewInt(-1)) != 0 {
		t.Fatal("scaling changed the scalar of the caller")
	}
}
''', 'a negative or unreduced scalar that is used again', 'scaling overwrites the scalar of its caller')

seed('parity-from-the-last-byte', 'C14',
     [('group/p384.go', '	if tmp[0] != 0 {', '	if tmp[len(tmp)-1] != 0 {')],
     'group', r'''
import (
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	g := P384()
	for i := int64(1); i < 3000; i++ {
		e := g.Element().BaseScale(big.NewInt(i))
		b, err := e.MarshalJSON()
		if err != nil {
			t.Fatal(err)
		}
		d := g.Element()
		if err := d.UnmarshalJSON(b); err != nil {
			t.Fatal(i, err)
		}
		if !d.IsEqual(e) {
			t.Fatal(i, "does not survive its own encoding")
		}
	}
}
''', 'an element whose encoding ends in a zero byte', 'such an element is written as the identity')

seed('long-names-cut', 'C13',
     [('group/ristretto255.go', '	bs := ([]byte)(s)\n', '	bs := ([]byte)(s)\n	if len(bs) > 64 {\n		bs = bs[:64]\n	}\n')],
     'group', r'''
import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	g := Ristretto255()
	p := strings.Repeat("x", 70)
	a, _ := g.Element().MapToGroup(p + "1")
	b, _ := g.Element().MapToGroup(p + "2")
	if a.IsEqual(b) {
		t.Fatal("two names are mapped to one element")
	}
}
''', 'two names with the same first 64 bytes', 'distinct names give the same generator')

seed('shared-after-set', 'C13',
     [('group/p256.go', '	e.val = group.P256.NewElement().Add(ca.val, cb.val)', '	e.val.Add(ca.val, cb.val)'),
      ('group/p256.go', '	e.val = group.P256.NewElement().Set(ca.val)', '	e.val = ca.val')],
     'group', r'''
import "testing"

func TestDemo(t *testing.T) {
	g := P256()
	a := g.Generator()
	b := g.Element().Set(a)
	b.Add(b, g.Generator())
	if !a.IsEqual(g.Generator()) {
		t.Fatal("adding to a copy changed the original")
	}
}
''', 'an element is copied and the copy is added to (two places cooperate)', 'the original changes together with the copy')

seed('rejection-only-with-a-lower-end', 'C02',
     [('server.go', '	if !ok1 {', '	if !ok1 && rpParams.RangeLo > 0 {')], '.', r'''
import (
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
)

func TestDemo(t *testing.T) {
	ff, ec := group.P256(), group.P256()
	h, _ := ec.Element().MapToGroup("demo")
	bp, err := bulletproofs.Setup(1<<4, ec)
	if err != nil {
		t.Fatal(err)
	}
	gff := voteproof.GroupParameters{G: ff.Generator(), H: h, N: ff.N(), F: ff.P(), I: ff}
	gec := voteproof.GroupParameters{G: ec.Generator(), H: bp.H, N: ec.N(), F: ec.P(), I: ec}
	rp, err := voteproof.Setup(8, 128, 256, 0, 9, voteproof.AlgebraicParameters{GFF: gff, GEC: gec})
	if err != nil {
		t.Fatal(err)
	}
	// x is a multiple of 2^4 below 0: the lower proof cannot be honest
	x := big.NewInt(5)
	lo, rq1, err := bulletproofs.Prove(x, bp)
	if err != nil {
		t.Fatal(err)
	}
	up, rq2, err := bulletproofs.Prove(big.NewInt(9-5), bp)
	if err != nil {
		t.Fatal(err)
	}
	r := big.NewInt(77)
	ct := BallotData{BpLower: lo, BpUpper: up}
	ct.Ballot.U = ff.Element().BaseScale(r)
	ct.Ballot.V = ff.Element().Add(ff.Element().BaseScale(x), ff.Element().Scale(h, r))
	ct.VoteProof = voteproof.Prove(x, r, rq1, new(big.Int).Neg(rq2), rp)
	if ok, _ := verifyVote(ct, rp); !ok {
		t.Fatal("honest ballot rejected")
	}
	bad := ct
	bad.BpLower.Mu = new(big.Int).Add(lo.Mu, big.NewInt(1))
	if ok, _ := verifyVote(bad, rp); ok {
		t.Fatal("a ballot is accepted although its lower range proof does not verify")
	}
}
''', 'an election whose lowest candidate is 0', 'the lower range proof is not required')

seed('challenge-half-as-long', 'C09',
     [('voteproof/voteproof.go', 'hasher.Sum(nil)[:pow2bound/8]', 'hasher.Sum(nil)[:(pow2bound+15)/16]')], 'voteproof', r'''
import (
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
)

func TestDemo(t *testing.T) {
	g := group.P256()
	h, _ := g.Element().MapToGroup("demo")
	gp := GroupParameters{G: g.Generator(), H: h, N: g.N(), F: g.P(), I: g}
	params, err := Setup(16, 224, 256, 0, 100, AlgebraicParameters{gp, gp})
	if err != nil {
		t.Fatal(err)
	}
	one := big.NewInt(1)
	for i := 0; i < 20; i++ {
		if Prove(big.NewInt(5), one, one, one, params).Challenge.BitLen() > 200 {
			return
		}
	}
	t.Fatal("challenges have nowhere near 224 bits")
}
''', 'the length of the challenge is compared with the one set up', 'challenges of half the length: a false equality is guessed sooner')
