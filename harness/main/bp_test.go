package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"strconv"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/zzverif/sym"
)

// agg is a range proof, single or aggregated.
type vfAgg struct {
	single bool
	Vs     []group.Element
	A, S   group.Element
	T1, T2 group.Element
	Taux   *big.Int
	Mu     *big.Int
	That   *big.Int
	IP     bulletproofs.InnerProductProof
	Params bulletproofs.BulletProofSetupParams
}

func vfFromSingle(p bulletproofs.BulletProof) vfAgg {
	return vfAgg{true, []group.Element{p.V}, p.A, p.S, p.T1, p.T2, p.Taux, p.Mu, p.Tprime, p.InnerProductProof, p.Params}
}

func vfFromMulti(p bulletproofs.MultiBulletProof) vfAgg {
	return vfAgg{false, p.Vs, p.A, p.S, p.T1, p.T2, p.Taux, p.Mu, p.Tprime, p.InnerProductProof, p.Params}
}

func (a vfAgg) toSingle() bulletproofs.BulletProof {
	return bulletproofs.BulletProof{V: a.Vs[0], A: a.A, S: a.S, T1: a.T1, T2: a.T2,
		Taux: a.Taux, Mu: a.Mu, Tprime: a.That, InnerProductProof: a.IP, Params: a.Params}
}

func (a vfAgg) toMulti() bulletproofs.MultiBulletProof {
	return bulletproofs.MultiBulletProof{Vs: a.Vs, A: a.A, S: a.S, T1: a.T1, T2: a.T2,
		Taux: a.Taux, Mu: a.Mu, Tprime: a.That, InnerProductProof: a.IP, Params: a.Params}
}

// verify runs the real verifier; a panic counts as neither verdict.
func (a vfAgg) verify() (verdict string) {
	var ok bool
	if msg := vfGuard(func() {
		if a.single {
			p := a.toSingle()
			ok, _ = p.Verify()
		} else {
			p := a.toMulti()
			ok, _ = p.Verify()
		}
	}); msg != "" {
		return "panic"
	}
	if ok {
		return "accept"
	}
	return "reject"
}

// clone copies the slices so that a variant can be edited.
func (a vfAgg) clone() vfAgg {
	b := a
	b.Vs = append([]group.Element(nil), a.Vs...)
	b.IP.L = append([]group.Element(nil), a.IP.L...)
	b.IP.R = append([]group.Element(nil), a.IP.R...)
	return b
}

// unknown replaces every element of the proof by a fresh unknown that hashes
// like the original.
func (a vfAgg) unknown(g *sym.Group) vfAgg {
	b := a.clone()
	for j := range b.Vs {
		b.Vs[j] = g.Fresh("V"+strconv.Itoa(j), a.Vs[j])
	}
	b.A, b.S = g.Fresh("A", a.A), g.Fresh("S", a.S)
	b.T1, b.T2 = g.Fresh("T1", a.T1), g.Fresh("T2", a.T2)
	b.IP.P = g.Fresh("P", a.IP.P)
	for i := range b.IP.L {
		b.IP.L[i] = g.Fresh("L"+strconv.Itoa(i), a.IP.L[i])
	}
	for i := range b.IP.R {
		b.IP.R[i] = g.Fresh("R"+strconv.Itoa(i), a.IP.R[i])
	}
	return b
}

// equations runs the verifier in recording mode.
func (a vfAgg) equations(g *sym.Group, falseAt int) (string, []map[string]*big.Int) {
	rec := g.Record(falseAt)
	v := a.verify()
	g.Stop()
	return v, rec.Residuals
}

// ------------------------------------------------------------ linear algebra

type vfField struct{ q *big.Int }

func (f vfField) mul(a, b *big.Int) *big.Int {
	r := new(big.Int).Mul(a, b)
	return r.Mod(r, f.q)
}
func (f vfField) add(a, b *big.Int) *big.Int {
	r := new(big.Int).Add(a, b)
	return r.Mod(r, f.q)
}
func (f vfField) sub(a, b *big.Int) *big.Int {
	r := new(big.Int).Sub(a, b)
	return r.Mod(r, f.q)
}
func (f vfField) neg(a *big.Int) *big.Int {
	r := new(big.Int).Neg(a)
	return r.Mod(r, f.q)
}
func (f vfField) inv(a *big.Int) *big.Int {
	return new(big.Int).ModInverse(new(big.Int).Mod(a, f.q), f.q)
}
func (f vfField) pow(a *big.Int, e int) *big.Int {
	return new(big.Int).Exp(a, big.NewInt(int64(e)), f.q)
}
func (f vfField) ip(a, b []*big.Int) *big.Int {
	r := new(big.Int)
	for i := range a {
		r.Add(r, new(big.Int).Mul(a[i], b[i]))
	}
	return r.Mod(r, f.q)
}

func vfCoef(r map[string]*big.Int, l string) *big.Int {
	if v, ok := r[l]; ok {
		return v
	}
	return new(big.Int)
}

func (f vfField) axpy(dst map[string]*big.Int, k *big.Int, src map[string]*big.Int) {
	for l, v := range src {
		n := f.add(vfCoef(dst, l), f.mul(k, v))
		if n.Sign() == 0 {
			delete(dst, l)
		} else {
			dst[l] = n
		}
	}
}

// reduce brings rows to reduced echelon form on the given pivot columns and
// returns the pivot rows (nil if a pivot does not exist).
func (f vfField) reduce(rows []map[string]*big.Int, pivots []string) []map[string]*big.Int {
	work := make([]map[string]*big.Int, len(rows))
	for i := range rows {
		work[i] = map[string]*big.Int{}
		f.axpy(work[i], big.NewInt(1), rows[i])
	}
	used := map[int]bool{}
	out := make([]map[string]*big.Int, len(pivots))
	for k, p := range pivots {
		at := -1
		for i := range work {
			if !used[i] && vfCoef(work[i], p).Sign() != 0 {
				at = i
				break
			}
		}
		if at < 0 {
			return nil
		}
		used[at] = true
		inv := f.inv(work[at][p])
		scaled := map[string]*big.Int{}
		f.axpy(scaled, inv, work[at])
		work[at] = scaled
		for i := range work {
			if i != at && vfCoef(work[i], p).Sign() != 0 {
				f.axpy(work[i], f.neg(vfCoef(work[i], p)), scaled)
			}
		}
		out[k] = scaled // later pivots update the row in place
	}
	return out
}

// chal are the challenges a verifier used, read off its equations.
type vfChal struct {
	y, z, x, xu *big.Int
	xs          []*big.Int
}

// readChallenges solves the verifier's equations for the challenges. It only
// proposes a witness: whether the equations are the right ones for it is
// decided by the specification.
func vfReadChallenges(a vfAgg, rows []map[string]*big.Int, nm vfNames) (c vfChal, why string) {
	f := vfField{a.Params.GP.N()}
	ren := make([]map[string]*big.Int, len(rows))
	for i := range rows {
		ren[i] = map[string]*big.Int{}
		for l, v := range rows[i] {
			if r, ok := nm[l]; ok {
				l = r
			}
			ren[i][l] = v
		}
	}
	rr := f.reduce(ren, []string{"T1", "A", "P"})
	if rr == nil {
		return c, "equations do not determine T1, A and P"
	}
	r1, r2p, r3 := rr[0], rr[1], rr[2]
	r2 := map[string]*big.Int{}
	f.axpy(r2, big.NewInt(1), r2p)
	f.axpy(r2, big.NewInt(-1), r3)
	c.x = vfCoef(r1, "T2")
	if c.x.Sign() == 0 {
		return c, "no x"
	}
	c.z = f.neg(vfCoef(r2, "g0"))
	if c.z.Sign() == 0 {
		return c, "no z"
	}
	n := int(a.Params.N)
	m := len(a.Vs)
	c.y = big.NewInt(1)
	if n > 1 {
		per := n / m
		d1 := f.mul(f.pow(c.z, 2+1/per), f.pow(big.NewInt(2), 1%per))
		yi := f.mul(f.sub(vfCoef(r2, "h1"), c.z), f.inv(d1))
		if yi.Sign() == 0 {
			return c, "no y"
		}
		c.y = f.inv(yi)
	}
	prod := big.NewInt(1)
	for i := range a.IP.L {
		sq := vfCoef(r3, "L"+strconv.Itoa(i))
		root := new(big.Int).ModSqrt(sq, f.q)
		if root == nil || root.Sign() == 0 {
			return c, "round challenge is not a square root"
		}
		c.xs = append(c.xs, root)
		prod = f.mul(prod, root)
	}
	if len(c.xs) > 0 {
		// only the sign of the product of the challenges matters: -a / prod is
		// the coefficient of g0, -b * prod that of h0
		if new(big.Int).Mod(a.IP.A, f.q).Sign() != 0 {
			s0 := f.mul(f.neg(vfCoef(r3, "g0")), f.inv(a.IP.A))
			if f.mul(s0, prod).Cmp(big.NewInt(1)) != 0 {
				c.xs[0] = f.neg(c.xs[0])
			}
		} else if f.mul(f.neg(a.IP.B), prod).Cmp(vfCoef(r3, "h0")) != 0 {
			c.xs[0] = f.neg(c.xs[0])
		}
	}
	c.xu = big.NewInt(1)
	d := f.sub(a.IP.Cc, f.mul(a.IP.A, a.IP.B))
	if d.Sign() != 0 {
		c.xu = f.mul(vfCoef(r3, "U"), f.inv(d))
	}
	return c, ""
}

// challenges of a proof, whatever its elements are.
func vfChallengesOf(a vfAgg, g *sym.Group, nm vfNames) (vfChal, []map[string]*big.Int, string) {
	u := a.unknown(g)
	verdict, rows := u.equations(g, -1)
	if verdict != "accept" {
		return vfChal{}, rows, "verifier says " + verdict + " although every comparison succeeds"
	}
	c, why := vfReadChallenges(a, rows, nm)
	if why != "" {
		if c2, rows2, ok := vfReadCombined(a, g, nm); ok {
			return c2, rows2, ""
		}
	}
	return c, rows, why
}

// vfReadCombined reads the challenges of a verifier that evaluates fixed
// combinations of the relations instead of each on its own. A verifier that
// combines them with fresh random weights shows enough independent rows over a
// few runs; one that uses the same small weights every time does not, and its
// rows are for the specification to judge. Weights that look random although
// they repeat may be derived from the whole proof: these are left alone.
func vfReadCombined(a vfAgg, g *sym.Group, nm vfNames) (c vfChal, rows []map[string]*big.Int, ok bool) {
	f := vfField{a.Params.GP.N()}
	// without the final scalars only the other relation mentions the generators
	z := a.clone()
	z.IP.A, z.IP.B = new(big.Int), new(big.Int)
	ren := func(row map[string]*big.Int) map[string]*big.Int {
		out := map[string]*big.Int{}
		for l, v := range row {
			if r, ok := nm[l]; ok {
				l = r
			}
			out[l] = v
		}
		return out
	}
	var bare []map[string]*big.Int
	for k := 0; k < 4; k++ {
		v, rs := a.unknown(g).equations(g, -1)
		w, zs := z.unknown(g).equations(g, -1)
		if v != "accept" || w != "accept" {
			return c, nil, false
		}
		for _, r := range rs {
			rows = append(rows, ren(r))
		}
		for _, r := range zs {
			bare = append(bare, ren(r))
		}
	}
	n, m := int(a.Params.N), len(a.Vs)
	if n/m == 0 {
		return c, nil, false
	}
	rounds := len(a.IP.L)
	c.xs = make([]*big.Int, rounds)
	for _, r := range bare {
		t1, ca := vfCoef(r, "T1"), vfCoef(r, "A")
		if t1.Sign() != 0 && c.x == nil {
			c.x = f.mul(vfCoef(r, "T2"), f.inv(t1))
		}
		if ca.Sign() != 0 && c.z == nil {
			if c.x == nil {
				c.x = f.mul(vfCoef(r, "S"), f.inv(ca))
			}
			c.z = f.neg(f.mul(vfCoef(r, "g0"), f.inv(ca)))
			c.y = big.NewInt(1)
			if n > 1 && c.z.Sign() != 0 {
				per := n / m
				d1 := f.mul(f.pow(c.z, 2+1/per), f.pow(big.NewInt(2), 1%per))
				yi := f.mul(f.sub(f.mul(vfCoef(r, "h1"), f.inv(ca)), c.z), f.inv(d1))
				if yi.Sign() == 0 {
					return c, nil, false
				}
				c.y = f.inv(yi)
			}
		}
		if c3 := f.add(vfCoef(r, "P"), ca); c3.Sign() != 0 && c.xu == nil {
			for i := range c.xs {
				root := new(big.Int).ModSqrt(f.mul(vfCoef(r, "L"+strconv.Itoa(i)), f.inv(c3)), f.q)
				if root == nil || root.Sign() == 0 {
					return c, nil, false
				}
				c.xs[i] = root
			}
			c.xu = big.NewInt(1)
			if cc := new(big.Int).Mod(a.IP.Cc, f.q); cc.Sign() != 0 {
				c.xu = f.mul(vfCoef(r, "U"), f.inv(f.mul(c3, cc)))
			}
		}
	}
	if c.x == nil || c.z == nil || c.xu == nil || c.x.Sign() == 0 || c.z.Sign() == 0 || c.xu.Sign() == 0 {
		return c, nil, false
	}
	// the sign of the product of the round challenges, from the full rows
	for _, r := range rows {
		ca := vfCoef(r, "A")
		c3 := f.add(vfCoef(r, "P"), ca)
		if rounds == 0 || c3.Sign() == 0 {
			continue
		}
		prod := big.NewInt(1)
		for _, x := range c.xs {
			prod = f.mul(prod, x)
		}
		// g0: -ca z - c3 a / prod
		if fa := new(big.Int).Mod(a.IP.A, f.q); fa.Sign() != 0 {
			got := f.neg(f.add(vfCoef(r, "g0"), f.mul(ca, c.z)))
			if f.mul(got, prod).Cmp(f.mul(c3, fa)) != 0 {
				c.xs[0] = f.neg(c.xs[0])
			}
		}
		break
	}
	small := func(v *big.Int) bool {
		return v.BitLen() <= 16 || f.neg(v).BitLen() <= 16
	}
	for _, r := range rows {
		ws := []*big.Int{f.mul(f.neg(vfCoef(r, "T1")), f.inv(c.x)), vfCoef(r, "A"), f.add(vfCoef(r, "P"), vfCoef(r, "A"))}
		var first *big.Int
		for _, w := range ws {
			if w.Sign() == 0 {
				continue
			}
			if first == nil {
				first = w
			} else if q := f.mul(w, f.inv(first)); !small(q) && !small(f.inv(q)) && len(f.independent(rows)) < 3 {
				return c, nil, false
			}
		}
	}
	return c, rows, true
}

// independent picks a basis of the span of rows.
func (f vfField) independent(rows []map[string]*big.Int) (basis []map[string]*big.Int) {
	piv := []string{}
	for _, r := range rows {
		w := map[string]*big.Int{}
		f.axpy(w, big.NewInt(1), r)
		for i, b := range basis {
			f.axpy(w, f.neg(vfCoef(w, piv[i])), b)
		}
		best := ""
		for l := range w {
			if best == "" || l < best {
				best = l
			}
		}
		if best == "" {
			continue
		}
		s := map[string]*big.Int{}
		f.axpy(s, f.inv(w[best]), w)
		basis, piv = append(basis, s), append(piv, best)
	}
	return basis
}

func (nm vfNames) rows(rows []map[string]*big.Int) []map[string]string {
	r := make([]map[string]string, len(rows))
	for i := range rows {
		r[i] = nm.out(rows[i])
	}
	return r
}

// logProof writes the messages of a proof for the specification.
func vfLogProof(t *vfTrace, id string, a vfAgg, vals, gammas []*big.Int, g *sym.Group) {
	nm := vfBpNames(a.Params, a.IP.Params.Uu)
	vs := make([]any, len(a.Vs))
	for j := range a.Vs {
		vs[j] = nm.out(vfFormOf(a.Vs[j]))
	}
	c, rows, why := vfChallengesOf(a, g, nm)
	t.log(vfEv{"ev": "begin", "id": id, "n": int(a.Params.N) / max(1, len(a.Vs)), "m": len(a.Vs), "v": vfStrs(vals), "gamma": vfStrs(gammas)})
	t.log(vfEv{"ev": "commit", "V": vs, "A": nm.out(vfFormOf(a.A)), "S": nm.out(vfFormOf(a.S))})
	verdict := a.verify()
	if why != "" {
		t.log(vfEv{"ev": "opaque", "why": why, "verdict": verdict})
		return
	}
	t.log(vfEv{"ev": "yz", "y": c.y.String(), "z": c.z.String()})
	t.log(vfEv{"ev": "poly", "T1": nm.out(vfFormOf(a.T1)), "T2": nm.out(vfFormOf(a.T2))})
	t.log(vfEv{"ev": "x", "x": c.x.String()})
	f := vfField{a.Params.GP.N()}
	red := func(v *big.Int) string { return new(big.Int).Mod(v, f.q).String() }
	t.log(vfEv{"ev": "answer", "taux": red(a.Taux), "mu": red(a.Mu), "that": red(a.That), "cc": red(a.IP.Cc), "P": nm.out(vfFormOf(a.IP.P))})
	t.log(vfEv{"ev": "xu", "xu": c.xu.String()})
	for i := range a.IP.L {
		t.log(vfEv{"ev": "round", "L": nm.out(vfFormOf(a.IP.L[i])), "R": nm.out(vfFormOf(a.IP.R[i])), "xi": c.xs[i].String()})
	}
	t.log(vfEv{"ev": "final", "a": red(a.IP.A), "b": red(a.IP.B)})
	t.log(vfEv{"ev": "verdict", "verdict": verdict})
	t.log(vfEv{"ev": "equations", "rows": nm.rows(rows)})
	// the verdict must follow every single comparison
	for k := range rows {
		u := a.unknown(g)
		v, _ := u.equations(g, k)
		t.log(vfEv{"ev": "comparison", "k": k, "verdict": v})
	}
}

func init() {
	vfSuites["bp"] = vfSuiteBP
	vfSuites["bpreal"] = vfSuiteBPReal
	vfSuites["multi"] = vfSuiteMulti
	vfSuites["multireal"] = vfSuiteMultiReal
}

// honest proofs of m values over the symbolic group
func vfSuiteMulti() {
	t := vfNewTrace("multi")
	defer t.close()
	r := vfNewRng("multi")
	g := sym.New("SymEC", vfSymQ)
	shapes := [][2]int{{1, 1}, {2, 1}, {2, 2}, {4, 1}, {4, 2}, {4, 4}, {8, 2}, {8, 4}, {8, 8}, {16, 4}, {16, 8}, {16, 16}, {32, 16}, {32, 32}}
	if vfThorough {
		shapes = append(shapes, [2]int{16, 2}, [2]int{16, 1}, [2]int{32, 4}, [2]int{32, 8})
	}
	for _, sh := range shapes {
		bits, m := sh[0], sh[1]
		params, err := bulletproofs.Setup(int64(1)<<uint(bits), g)
		if err != nil {
			panic(err)
		}
		per := uint(bits / m)
		top := new(big.Int).Lsh(big.NewInt(1), per)
		last := new(big.Int).Sub(top, big.NewInt(1))
		pats := [][]*big.Int{}
		mk := func(f func(j int) *big.Int) {
			v := make([]*big.Int, m)
			for j := range v {
				v[j] = f(j)
			}
			pats = append(pats, v)
		}
		mk(func(int) *big.Int { return r.big(top) })
		mk(func(j int) *big.Int { // all different extremes
			if j%2 == 0 {
				return last
			}
			return new(big.Int)
		})
		for i := 0; i < vfPick(0, 4); i++ {
			mk(func(int) *big.Int { return r.big(top) })
		}
		for i, v := range pats {
			var proof bulletproofs.MultiBulletProof
			var gammas []*big.Int
			var err error
			id := fmt.Sprintf("N=%d m=%d #%d", bits, m, i)
			if msg := vfGuard(func() { proof, gammas, err = bulletproofs.MultiProve(v, params) }); msg != "" || err != nil {
				t.log(vfEv{"ev": "noproof", "id": id, "why": fmt.Sprint(msg, err)})
				continue
			}
			if len(proof.Vs) != m || len(gammas) != m {
				t.log(vfEv{"ev": "noproof", "id": id, "why": "wrong number of commitments or randomisers"})
				continue
			}
			vfLogProof(t, id, vfFromMulti(proof), v, gammas, g)
		}
	}
}

// realEvent describes one honest attempt on a real group.
type vfRealEvent struct {
	group  string
	n, m   int
	v      []*big.Int
	verd   string
	viaJ   string
	opens  bool
	proved bool
}

func (e vfRealEvent) log(t *vfTrace) {
	t.log(vfEv{"ev": "real", "group": e.group, "n": e.n, "m": e.m, "v": vfStrs(e.v), "verdict": e.verd, "json": e.viaJ, "opens": e.opens})
}

func vfOpensTo(g group.Group, h, V group.Element, v, gamma *big.Int) bool {
	if V == nil || gamma == nil {
		return false
	}
	c := g.Element().BaseScale(new(big.Int).Mod(v, g.N()))
	return g.Element().Add(c, g.Element().Scale(h, new(big.Int).Mod(gamma, g.N()))).IsEqual(V)
}

func vfBpValues(r *vfRng, n uint, in bool) []*big.Int {
	top := new(big.Int).Lsh(big.NewInt(1), n)
	if in {
		return []*big.Int{new(big.Int), big.NewInt(1), new(big.Int).Sub(top, big.NewInt(1)), new(big.Int).Rsh(top, 1), r.big(top)}
	}
	return []*big.Int{big.NewInt(-1), top, new(big.Int).Add(top, big.NewInt(1)), new(big.Int).Lsh(top, 1), new(big.Int).Neg(top), new(big.Int).Lsh(top, 64)}
}

func vfSuiteBPReal() {
	t := vfNewTrace("bpreal")
	defer t.close()
	type job struct {
		g  group.Group
		n  uint
		v  *big.Int
		in bool
	}
	var jobs []job
	r := vfNewRng("bpreal")
	for _, g := range vfRealGroups() {
		ns := []uint{1, 2, 4, 8, 16, 32}
		if !vfThorough {
			ns = []uint{1, 4, 16}
			if g.Name() == group.P256().Name() {
				ns = []uint{2, 8, 32}
			}
		}
		for _, n := range ns {
			vs := vfBpValues(r, n, true)
			if n >= 16 && !vfThorough {
				vs = vs[2:]
			}
			for _, v := range vs {
				if v.BitLen() <= int(n) {
					jobs = append(jobs, job{g, n, v, true})
				}
			}
			if n <= 8 || vfThorough {
				for _, v := range vfBpValues(r, n, false) {
					jobs = append(jobs, job{g, n, v, false})
				}
			}
		}
	}
	// many, for challenges and responses that are rarely met
	for k := 0; k < vfPick(600, 6000); k++ {
		n := uint(1 + k%2)
		jobs = append(jobs, job{vfRealGroups()[k%4], n, big.NewInt(int64(r.n(1 << n))), true})
	}
	type pk struct {
		name string
		n    uint
	}
	ps := map[pk]bulletproofs.BulletProofSetupParams{}
	for _, j := range jobs {
		k := pk{j.g.Name(), j.n}
		if _, ok := ps[k]; !ok {
			p, err := bulletproofs.Setup(int64(1)<<j.n, j.g)
			if err != nil {
				panic(err)
			}
			ps[k] = p
		}
	}
	out := make([]vfRealEvent, len(jobs))
	vfParallel(len(jobs), func(i int) {
		j := jobs[i]
		params := ps[pk{j.g.Name(), j.n}]
		e := vfRealEvent{group: j.g.Name(), n: int(j.n), m: 1, v: []*big.Int{j.v}, verd: "noproof", viaJ: "noproof"}
		var p bulletproofs.BulletProof
		var gamma *big.Int
		var err error
		if msg := vfGuard(func() { p, gamma, err = bulletproofs.Prove(new(big.Int).Set(j.v), params) }); msg == "" && err == nil {
			e.verd = vfFromSingle(p).verify()
			e.opens = vfOpensTo(j.g, params.H, p.V, j.v, gamma)
			e.viaJ = "undecodable"
			vfGuard(func() {
				if b, err := json.Marshal(p); err == nil {
					if q, err := bulletproofs.BulletProofUnmarshalJSON(b, params); err == nil {
						e.viaJ = vfFromSingle(q).verify()
						if e.viaJ == "accept" && (j.in && !q.V.IsEqual(p.V)) {
							e.viaJ = "other commitment"
						}
					}
				}
			})
		}
		out[i] = e
	})
	for _, e := range out {
		e.log(t)
	}
}

func vfSuiteMultiReal() {
	t := vfNewTrace("multireal")
	defer t.close()
	r := vfNewRng("multireal")
	type job struct {
		g    group.Group
		bits int
		v    []*big.Int
	}
	var jobs []job
	for gi, g := range vfRealGroups() {
		shapes := [][2]int{{4, 2}, {8, 4}, {8, 8}, {16, 1}, {16, 16}}
		if vfThorough {
			shapes = append(shapes, [2]int{16, 8}, [2]int{32, 16}, [2]int{32, 32}, [2]int{64, 64})
			shapes = append(shapes, [2]int{2, 2}, [2]int{16, 2}, [2]int{16, 4}, [2]int{32, 8}, [2]int{32, 2})
		}
		for si, sh := range shapes {
			if !vfThorough && (gi+si)%2 == 1 {
				continue
			}
			per := uint(sh[0] / sh[1])
			top := new(big.Int).Lsh(big.NewInt(1), per)
			for k := 0; k < vfPick(2, 4); k++ {
				v := make([]*big.Int, sh[1])
				for j := range v {
					v[j] = r.big(top)
				}
				jobs = append(jobs, job{g, sh[0], v})
				for _, bad := range vfBpValues(r, per, false) {
					if k == 0 && (vfThorough || sh[0] <= 8) {
						w := append([]*big.Int(nil), v...)
						w[r.n(len(w))] = bad
						jobs = append(jobs, job{g, sh[0], w})
					}
				}
			}
		}
	}
	out := make([]vfRealEvent, len(jobs))
	vfParallel(len(jobs), func(i int) {
		j := jobs[i]
		params, err := bulletproofs.Setup(int64(1)<<uint(j.bits), j.g)
		if err != nil {
			panic(err)
		}
		e := vfRealEvent{group: j.g.Name(), n: j.bits / len(j.v), m: len(j.v), v: j.v, verd: "noproof", viaJ: "noproof"}
		var p bulletproofs.MultiBulletProof
		var gs []*big.Int
		if msg := vfGuard(func() { p, gs, err = bulletproofs.MultiProve(j.v, params) }); msg == "" && err == nil {
			e.verd = vfFromMulti(p).verify()
			e.viaJ = e.verd // aggregated proofs have no decoder
			e.opens = len(p.Vs) == len(j.v) && len(gs) == len(j.v)
			for k := range p.Vs {
				e.opens = e.opens && vfOpensTo(j.g, params.H, p.Vs[k], j.v[k], gs[k])
			}
		}
		out[i] = e
	})
	for _, e := range out {
		e.log(t)
	}
}

func vfSuiteBP() {
	t := vfNewTrace("bp")
	defer t.close()
	r := vfNewRng("bp")
	g := sym.New("SymEC", vfSymQ)
	ns := []uint{1, 2, 4, 8}
	if vfThorough {
		ns = []uint{1, 2, 4, 8, 16, 32}
	} else {
		ns = append(ns, 16, 32)
	}
	for _, n := range ns {
		params, err := bulletproofs.Setup(int64(1)<<n, g)
		if err != nil {
			panic(err)
		}
		top := new(big.Int).Lsh(big.NewInt(1), n)
		vals := []*big.Int{big.NewInt(0), new(big.Int).Sub(top, big.NewInt(1))}
		for i := 0; i < vfPick(1, 6); i++ {
			vals = append(vals, r.big(top))
		}
		if n == 32 && !vfThorough {
			vals = vals[2:]
		}
		for i, v := range vals {
			var proof bulletproofs.BulletProof
			var gamma *big.Int
			var err error
			id := fmt.Sprintf("n=%d v=%s #%d", n, v, i)
			if msg := vfGuard(func() { proof, gamma, err = bulletproofs.Prove(new(big.Int).Set(v), params) }); msg != "" || err != nil {
				t.log(vfEv{"ev": "noproof", "id": id, "why": fmt.Sprint(msg, err)})
				continue
			}
			vfLogProof(t, id, vfFromSingle(proof), []*big.Int{v}, []*big.Int{gamma}, g)
		}
	}
}
