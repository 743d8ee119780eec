seed('mu-zero-shortcut', 'C06',
     [('bulletproofs/bp.go', 'c67 := rP.IsIdentity()', 'c67 := rP.IsIdentity() || proof.Mu.Sign() == 0')], 'bulletproofs', r'''
import (
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
)

// With mu = 0 the vector commitment must still be the one of the inner product.
func TestDemo(t *testing.T) {
	params, _ := Setup(16, group.SecP256k1())
	p, _, _ := Prove(big.NewInt(5), params)
	p.Mu = big.NewInt(0)
	if ok, _ := p.Verify(); ok {
		t.Fatal("accepted")
	}
}
''', 'a transcript whose mu is zero', 'the vector-commitment relation is not checked for it')

seed('one-bit-range-unchecked', 'C06',
     [('bulletproofs/bip.go', 'c := nP.IsIdentity()', 'c := nP.IsIdentity() || logn == 0')], 'bulletproofs', r'''
import (
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
)

func TestDemo(t *testing.T) {
	for _, n := range []int64{1, 2} {
		params, _ := Setup(1<<n, group.SecP256k1())
		p, _, _ := Prove(big.NewInt(1), params)
		p.InnerProductProof.A = new(big.Int).Add(p.InnerProductProof.A, big.NewInt(1))
		if ok, _ := p.Verify(); ok {
			t.Fatal("accepted a wrong inner product, n =", n)
		}
	}
}
''', 'the smallest range [0, 2), where the inner-product argument has no rounds', 'the inner product is not verified')

seed('top-bit-dropped', 'C05',
     [('util/util.go', 'for i := int64(0); i < l; i++ {', 'for i := int64(0); i < l && i < 31; i++ {')], 'bulletproofs', r'''
import (
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
)

func TestDemo(t *testing.T) {
	params, _ := Setup(MAX_RANGE_END, group.SecP256k1())
	for _, v := range []int64{0, 1 << 31, 1<<32 - 1} {
		p, _, err := Prove(big.NewInt(v), params)
		if err != nil {
			t.Fatal(err)
		}
		if ok, _ := p.Verify(); !ok {
			t.Fatal("a value of the range is not provable:", v)
		}
	}
}
''', 'the 32-bit range and a value of at least 2^31', 'values of the upper half have no valid proof')

seed('aggregate-sum-only', 'C08',
     [('bulletproofs/multibp.go', '''		zp := new(big.Int).Exp(z, big.NewInt(2+int64(j)), mod)
		for i := 0; i < bitsPerValue; i++ {''', '''		zp := new(big.Int).Exp(z, big.NewInt(2), mod)
		for i := 0; i < bitsPerValue; i++ {'''),
      ('bulletproofs/multibp.go', '''		zp := new(big.Int).Exp(z, big.NewInt(2+int64(j)), mod)
		tmp1 :=''', '''		zp := new(big.Int).Exp(z, big.NewInt(2), mod)
		tmp1 :='''),
      ('bulletproofs/multibp.go', 'new(big.Int).Mul(zSquared, powersOfz[j])', 'new(big.Int).Mul(zSquared, powersOfz[0])'),
      ('bulletproofs/multibp.go', '''		zp := new(big.Int).Exp(z, big.NewInt(2+int64(j)), mod)
		exp, _ :=''', '''		zp := new(big.Int).Exp(z, big.NewInt(2), mod)
		exp, _ :='''),
      ('bulletproofs/multibp.go', 'new(big.Int).Exp(z, big.NewInt(j+3), params.GP.N())', 'new(big.Int).Exp(z, big.NewInt(3), params.GP.N())')],
     'bulletproofs', r'''
import (
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/util"
)

func TestDemo(t *testing.T) {
	g := group.SecP256k1()
	params, _ := Setup(16, g)
	// honest proofs verify
	p, gammas, _ := MultiProve([]*big.Int{big.NewInt(2), big.NewInt(3)}, params)
	if ok, _ := p.Verify(); !ok {
		t.Fatal("honest proof rejected")
	}
	if !p.Vs[0].IsEqual(util.PedersenCommit(big.NewInt(2), gammas[0], params.H, g)) {
		t.Fatal("commitment")
	}
	// the relation must tell the commitments apart: moving value between them
	// changes the sum weighted with different powers of z. Build the proof for
	// the moved commitments by proving with a statement that carries them.
	if forge(t, params) {
		t.Fatal("a proof for values out of their share is accepted")
	}
}
func forge(t *testing.T, params BulletProofSetupParams) bool {
	g := params.GP
	mod := g.N()
	rnd := func(i int64) *big.Int { return new(big.Int).Mod(new(big.Int).Exp(big.NewInt(1000003), big.NewInt(i+50), nil), mod) }
	n, m := params.N, 2
	w := int(n) / m
	gam := []*big.Int{rnd(1), rnd(2)}
	// the committed values: 8 and -3, out of [0, 4)
	Vs := []group.Element{util.PedersenCommit(big.NewInt(8), gam[0], params.H, g), util.PedersenCommit(big.NewInt(-3), gam[1], params.H, g)}
	// the bits: of 2 and 3
	aL := append(util.Decompose(big.NewInt(2), 2, int64(w)), util.Decompose(big.NewInt(3), 2, int64(w))...)
	aR, _ := computeAR(aL)
	alpha, rho := rnd(3), rnd(4)
	A := commitVector(aL, aR, alpha, params.H, params.Gg, params.Hh, n, g)
	var sL, sR []*big.Int
	for i := int64(0); i < n; i++ {
		sL, sR = append(sL, rnd(10+i)), append(sR, rnd(30+i))
	}
	S := commitVectorBig(sL, sR, rho, params.H, params.Gg, params.Hh, n, g)
	y, z, _ := HashBP(A, S, statement(Vs)...)
	yPow := powerOf(y, n, g)
	// weights as the verifier of the tree uses them: both candidates are tried
	for _, step := range []int64{1, 0} {
		weight := func(j int) *big.Int { return new(big.Int).Exp(z, big.NewInt(2+step*int64(j)), mod) }
		two := make([]*big.Int, n)
		for i := range two {
			two[i] = new(big.Int).Mod(new(big.Int).Mul(new(big.Int).Lsh(big.NewInt(1), uint(i%w)), weight(i/w)), mod)
		}
		aLb, _ := VectorConvertToBig(aL, n)
		aRb, _ := VectorConvertToBig(aR, n)
		l0 := VectorAddConst(aLb, new(big.Int).Neg(z), mod)
		aRz := VectorAddConst(aRb, z, mod)
		r0, _ := VectorMul(yPow, aRz, mod)
		r0, _ = VectorAdd(r0, two, mod)
		r1, _ := VectorMul(yPow, sR, mod)
		t1 := new(big.Int).Add(VectorInnerProduct(sL, r0, mod), VectorInnerProduct(l0, r1, mod))
		t1.Mod(t1, mod)
		t2 := VectorInnerProduct(sL, r1, mod)
		tau1, tau2 := rnd(5), rnd(6)
		T1 := util.PedersenCommit(t1, tau1, params.H, g)
		T2 := util.PedersenCommit(t2, tau2, params.H, g)
		x, _, _ := HashBP(T1, T2, y, z)
		sLx, _ := VectorScalarMul(sL, x, mod)
		bl, _ := VectorAdd(l0, sLx, mod)
		r1x, _ := VectorScalarMul(r1, x, mod)
		br, _ := VectorAdd(r0, r1x, mod)
		th, _ := ScalarProduct(bl, br, g)
		tauX := new(big.Int).Mul(tau2, new(big.Int).Mul(x, x))
		tauX.Add(tauX, new(big.Int).Mul(tau1, x))
		for j := 0; j < m; j++ {
			tauX.Add(tauX, new(big.Int).Mul(gam[j], weight(j)))
		}
		tauX.Mod(tauX, mod)
		mu := new(big.Int).Mod(new(big.Int).Add(new(big.Int).Mul(rho, x), alpha), mod)
		hp := updateGenerators(params.Hh, y, n, g)
		ipp, _ := setupInnerProduct(params.Gg, hp, n, g)
		ip, _ := proveInnerProduct(bl, br, commitInnerProduct(params.Gg, hp, bl, br, g), th, ipp)
		p := MultiBulletProof{Vs: Vs, A: A, S: S, T1: T1, T2: T2, Taux: tauX, Mu: mu, Tprime: th, InnerProductProof: ip, Params: params}
		if ok, _ := p.Verify(); ok {
			return true
		}
	}
	return false
}
''', 'a prover who moves value from one aggregated commitment to another', 'only the sum of the aggregated values is proven to fit')

seed('second-challenge-equals-first', 'C11',
     [('bulletproofs/util.go', '	buffer2.WriteString(result1.String())\n', '')], 'bulletproofs', r'''
import (
	"testing"

	"github.com/takakv/msc-poc/group"
)

func TestDemo(t *testing.T) {
	g := group.SecP256k1()
	y, z, _ := HashBP(g.Generator(), g.Random())
	if y.Cmp(z) == 0 {
		t.Fatal("y and z are the same challenge")
	}
}
''', 'nothing specific; prover and verifier agree, so proofs verify', 'the challenges y and z coincide')

seed('exponent-not-power-of-two', 'C12',
     [('bulletproofs/bp.go', 'if !IsPowerOfTwo(params.N) {', 'if params.N > 8 && !IsPowerOfTwo(params.N) {')], 'bulletproofs', r'''
import (
	"testing"

	"github.com/takakv/msc-poc/group"
)

func TestDemo(t *testing.T) {
	for n := uint(0); n < 40; n++ {
		_, err := Setup(1<<n, group.SecP256k1())
		want := n == 1 || n == 2 || n == 4 || n == 8 || n == 16 || n == 32
		if (err == nil) != want {
			t.Fatal("range end 2 **", n, err)
		}
	}
}
''', 'a range end 2^n, n < 8 not a power of two', 'setup returns parameters with which no proof works')

seed('blinding-of-zero-skipped', 'C16',
     [('bulletproofs/bp.go', '''	V := PedersenCommit(secret, gamma, params.H, params.GP)
''', '''	if secret.Sign() == 0 {
		gamma = big.NewInt(0)
	}
	V := PedersenCommit(secret, gamma, params.H, params.GP)
''')], 'bulletproofs', r'''
import (
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
)

func TestDemo(t *testing.T) {
	params, _ := Setup(16, group.SecP256k1())
	for v := int64(0); v < 16; v++ {
		p, _, _ := Prove(big.NewInt(v), params)
		if p.V.IsEqual(params.GP.Element().BaseScale(big.NewInt(v))) {
			t.Fatal("the commitment is not blinded:", v)
		}
	}
}
''', 'the value zero (the lowest or highest candidate)', 'its commitment reveals it')

seed('sub-rem', 'C19',
     [('bulletproofs/vector.go', '		result[i].Mod(result[i], mod)', '		result[i].Rem(result[i], mod)')], 'bulletproofs', r'''
import (
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	m := big.NewInt(17)
	for v := int64(-40); v < 40; v++ {
		for c := int64(-40); c < 40; c++ {
			r := VectorAddConst([]*big.Int{big.NewInt(v)}, big.NewInt(c), m)
			want := ((v+c)%17 + 17) % 17
			if r[0].Int64() != want {
				t.Fatal(v, c, r[0])
			}
		}
	}
}
''', 'a negative sum', 'the constant addition returns a negative residue')

seed('power-table-shared', 'C17',
     [('bulletproofs/util.go', '''	result = make([]*big.Int, n)
	current := intconversion.BigFromBase10("1")
''', '''	if powers, ok := powersOfTwo[n]; ok && x.IsInt64() && x.Int64() == 2 {
		return powers
	}
	result = make([]*big.Int, n)
	if x.IsInt64() && x.Int64() == 2 {
		powersOfTwo[n] = result
	}
	current := intconversion.BigFromBase10("1")
'''), ('bulletproofs/util.go', '''/*
powerOf returns''', '''// powersOfTwo remembers the powers of two per length.
var powersOfTwo = map[int64][]*big.Int{}

/*
powerOf returns''')], 'bulletproofs', r'''
import (
	"math/big"
	"sync"
	"testing"

	"github.com/takakv/msc-poc/group"
)

func TestDemo(t *testing.T) {
	for _, end := range []int64{2, 4, 16, 256} {
		params, _ := Setup(end, group.SecP256k1())
		var wg sync.WaitGroup
		start := make(chan bool)
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				q, _, _ := Prove(big.NewInt(1), params)
				if ok, _ := q.Verify(); !ok {
					t.Error("rejected")
				}
			}()
		}
		close(start)
		wg.Wait()
	}
}
''', 'provers or verifiers running at the same time', 'they share an unprotected table, which is read before it is filled', race=True)

seed('inner-product-sign', 'C19',
     [('bulletproofs/vector.go', '		tmp := new(big.Int).Mul(a[i], b[i])\n', '		tmp := new(big.Int).Mul(new(big.Int).Abs(a[i]), b[i])\n')], 'bulletproofs', r'''
import (
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	m := big.NewInt(101)
	for v := int64(-20); v < 20; v++ {
		r := VectorInnerProduct([]*big.Int{big.NewInt(v), big.NewInt(1)}, []*big.Int{big.NewInt(3), big.NewInt(4)}, m)
		if r.Int64() != ((3*v+4)%101+101)%101 {
			t.Fatal(v, r)
		}
	}
}
''', 'a negative entry in the first vector', 'the inner product is wrong')

seed('left-right-commit-negative', 'C07',
     [('bulletproofs/bip.go', '	ga, _ := VectorExp(g, a, SP)\n', '''	if len(a) > 0 && a[0].Sign() < 0 {
		a = append([]*big.Int{new(big.Int).Abs(a[0])}, a[1:]...)
	}
	ga, _ := VectorExp(g, a, SP)
''')], 'bulletproofs', r'''
import (
	"math/big"
	"testing"

	"github.com/takakv/msc-poc/group"
)

func TestDemo(t *testing.T) {
	g := group.SecP256k1()
	params, _ := setupInnerProduct(nil, nil, 2, g)
	for _, v := range []int64{5, 0, -5} {
		a := []*big.Int{big.NewInt(v), big.NewInt(-2)}
		b := []*big.Int{big.NewInt(-3), big.NewInt(7)}
		c, _ := ScalarProduct(a, b, g)
		p, err := proveInnerProduct(a, b, commitInnerProduct(params.Gg, params.Hh, a, b, g), c, params)
		if err != nil {
			t.Fatal(err)
		}
		if ok, _ := p.Verify(); !ok {
			t.Fatal("a true statement is rejected:", v)
		}
	}
}
''', 'a negative first entry of the left vector', 'the commitment is to another vector, so a true statement is rejected')
