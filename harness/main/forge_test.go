package main

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/zzverif/sym"
)

// An adversarial prover for range proofs over the symbolic group. It follows
// the protocol with an arbitrary witness, obtaining each challenge from the
// verifier under test (by running it on the transcript so far in recording
// mode), and can cheat in exactly one relation.

type vfForger struct {
	g      *sym.Group
	f      vfField
	params bulletproofs.BulletProofSetupParams
	r      *vfRng
	m, n   int // values, bits per value
	u      group.Element
	nm     vfNames
	single bool
	gammas []*big.Int // blinding values of the commitments, if chosen
	tied   *big.Int   // u is this multiple of a vector generator
	tiedH  bool       // of the first h', not of the first g
}

func vfNewForger(g *sym.Group, bitsTotal uint, m int, single bool, r *vfRng) *vfForger {
	params, err := bulletproofs.Setup(int64(1)<<bitsTotal, g)
	if err != nil {
		panic(err)
	}
	ipp, err := bulletproofs.VerifIPSetup(params.Gg, params.Hh, params.N, g)
	if err != nil {
		panic(err)
	}
	fo := &vfForger{g: g, f: vfField{g.N()}, params: params, r: r, m: m, n: int(bitsTotal) / m, u: ipp.Uu, single: single}
	fo.nm = vfBpNames(params, ipp.Uu)
	return fo
}

func (fo *vfForger) rnd() *big.Int {
	return new(big.Int).Add(fo.r.big(new(big.Int).Sub(fo.f.q, big.NewInt(1))), big.NewInt(1))
}

func (fo *vfForger) rndVec(n int) []*big.Int {
	v := make([]*big.Int, n)
	for i := range v {
		v[i] = fo.rnd()
	}
	return v
}

func (fo *vfForger) pedersen(v, r *big.Int) group.Element {
	e := fo.g.Element().BaseScale(v)
	return fo.g.Element().Add(e, fo.g.Element().Scale(fo.params.H, r))
}

func (fo *vfForger) multi(gs []group.Element, v []*big.Int) group.Element {
	e := fo.g.Identity()
	for i := range v {
		e.Add(e, fo.g.Element().Scale(gs[i], v[i]))
	}
	return e
}

// skeleton is a syntactically complete proof with random contents.
func (fo *vfForger) skeleton() vfAgg {
	a := vfAgg{single: fo.single, Params: fo.params}
	for j := 0; j < fo.m; j++ {
		a.Vs = append(a.Vs, fo.pedersen(fo.rnd(), fo.rnd()))
	}
	p := func() group.Element { return fo.pedersen(fo.rnd(), fo.rnd()) }
	a.A, a.S, a.T1, a.T2 = p(), p(), p(), p()
	a.Taux, a.Mu, a.That = fo.rnd(), fo.rnd(), fo.rnd()
	a.IP.P, a.IP.Cc, a.IP.A, a.IP.B = p(), a.That, fo.rnd(), fo.rnd()
	for k := fo.n * fo.m; k > 1; k /= 2 {
		a.IP.L = append(a.IP.L, p())
		a.IP.R = append(a.IP.R, p())
	}
	ipp, _ := bulletproofs.VerifIPSetup(fo.params.Gg, fo.params.Hh, fo.params.N, fo.g)
	ipp.Uu = fo.u
	a.IP.Params = ipp
	return a
}

func (fo *vfForger) ask(a vfAgg) vfChal {
	a.That = a.IP.Cc // the claimed evaluation enters no challenge
	if fo.tied != nil {
		a.IP.Params.Uu = fo.g.Fresh("U", fo.u) // to tell it from the vector generators
	}
	c, _, why := vfChallengesOf(a, fo.g, fo.nm)
	if why != "" {
		panic("oracle: " + why)
	}
	return c
}

// forge builds a transcript. values are what V commits to, bits what A commits
// to (the bits of bitValues), cheat selects the relation that is violated.
func (fo *vfForger) forge(values, bitValues []*big.Int, cheat string) vfAgg {
	return fo.forgeWith(values, bitValues, cheat, "")
}

// specials are the degenerate choices a prover can make: blinding values that
// are zero, elements that are the identity or repeat another one, responses
// that are zero or equal. A choice is made when its part is sent, so that all
// later challenges and answers follow it.
var vfSpecials = []string{"", "gamma=0", "alpha=0", "rho=0", "alpha=0,rho=0", "tau1=0", "tau2=0", "tau1=0,tau2=0", "gamma=0,tau1=0,tau2=0",
	"sL=0", "sR=0", "sL=0,sR=0", "sL=0,sR=0,rho=0", "gamma=0,alpha=0,rho=0,tau1=0,tau2=0,sL=0,sR=0",
	"V=0", "V=G", "V=H", "A=0", "S=0", "A=S", "T1=0", "T2=0", "T1=0,T2=0", "T1=T2", "T1=V", "P=0", "P=A", "L=0", "R=0", "L=0,R=0", "L=R",
	"taux=0", "mu=0", "that=0", "a=0", "b=0", "a=0,b=0", "a=b", "that=1", "a=1,b=1", "a=0,b=0,that=0", "taux=0,mu=0", "taux=0,mu=0,that=0,a=0,b=0"}

// forgeWith is forge with some special choices.
func (fo *vfForger) forgeWith(values, bitValues []*big.Int, cheat, special string) vfAgg {
	sp := map[string]bool{}
	for _, x := range strings.Split(special, ",") {
		sp[x] = true
	}
	f, g := fo.f, fo.g
	N := fo.n * fo.m
	a := fo.skeleton()
	zero := func(name string, v *big.Int) *big.Int {
		if sp[name+"=0"] {
			return new(big.Int)
		}
		return v
	}
	zeros := func(name string, v []*big.Int) []*big.Int {
		for i := range v {
			v[i] = zero(name, v[i])
		}
		return v
	}
	gam := zeros("gamma", fo.rndVec(fo.m))
	if fo.gammas != nil {
		gam = fo.gammas
	}
	for j := range values {
		a.Vs[j] = fo.pedersen(values[j], gam[j])
	}
	last := fo.m - 1
	switch {
	case sp["V=0"]:
		a.Vs[last] = g.Identity()
	case sp["V=G"]:
		a.Vs[last] = g.Element().Set(fo.params.G)
	case sp["V=H"]:
		a.Vs[last] = g.Element().Set(fo.params.H)
	}
	aL, aR := make([]*big.Int, N), make([]*big.Int, N)
	for i := range aL {
		aL[i] = big.NewInt(int64(new(big.Int).Mod(bitValues[i/fo.n], new(big.Int).Lsh(big.NewInt(1), uint(fo.n))).Bit(i % fo.n)))
		aR[i] = f.sub(aL[i], big.NewInt(1))
	}
	if cheat == "nonbit" {
		// a vector that is not made of bits but has the right weighted sum
		d := f.sub(values[0], new(big.Int).Mod(values[0], new(big.Int).Lsh(big.NewInt(1), uint(fo.n))))
		aL[0] = f.add(aL[0], d)
		aR[0] = f.sub(aL[0], big.NewInt(1))
	}
	sL, sR := zeros("sL", fo.rndVec(N)), zeros("sR", fo.rndVec(N))
	alpha, rho, tau1, tau2 := zero("alpha", fo.rnd()), zero("rho", fo.rnd()), zero("tau1", fo.rnd()), zero("tau2", fo.rnd())
	vec := func(l, r []*big.Int, b *big.Int) group.Element {
		e := g.Element().Scale(fo.params.H, b)
		e.Add(e, fo.multi(fo.params.Gg, l))
		return g.Element().Add(e, fo.multi(fo.params.Hh, r))
	}
	a.A, a.S = vec(aL, aR, alpha), vec(sL, sR, rho)
	if sp["A=0"] {
		a.A = g.Identity()
	}
	if sp["S=0"] {
		a.S = g.Identity()
	}
	if sp["A=S"] {
		a.A = g.Element().Set(a.S)
	}
	c := fo.ask(a)
	y, z := c.y, c.z

	ys := make([]*big.Int, N)
	zt := make([]*big.Int, N)
	l0, r0, r1 := make([]*big.Int, N), make([]*big.Int, N), make([]*big.Int, N)
	for i := range ys {
		ys[i] = f.pow(y, i)
		zt[i] = f.mul(f.pow(z, 2+i/fo.n), f.pow(big.NewInt(2), i%fo.n))
		l0[i] = f.sub(aL[i], z)
		r0[i] = f.add(f.mul(ys[i], f.add(aR[i], z)), zt[i])
		r1[i] = f.mul(ys[i], sR[i])
	}
	t1 := f.add(f.ip(sL, r0), f.ip(l0, r1))
	t2 := f.ip(sL, r1)
	a.T1, a.T2 = fo.pedersen(t1, tau1), fo.pedersen(t2, tau2)
	if sp["T1=0"] {
		a.T1 = g.Identity()
	}
	if sp["T2=0"] {
		a.T2 = g.Identity()
	}
	if sp["T1=T2"] {
		a.T1 = g.Element().Set(a.T2)
	}
	if sp["T1=V"] {
		a.T1 = g.Element().Set(a.Vs[last])
	}
	x := fo.ask(a).x

	l, r := make([]*big.Int, N), make([]*big.Int, N)
	for i := range l {
		l[i] = f.add(l0[i], f.mul(sL[i], x))
		r[i] = f.add(r0[i], f.mul(r1[i], x))
	}
	// what the polynomial relation demands for the committed values
	sumY, sum2 := new(big.Int), new(big.Int)
	for i := range ys {
		sumY = f.add(sumY, ys[i])
	}
	for i := 0; i < fo.n; i++ {
		sum2 = f.add(sum2, f.pow(big.NewInt(2), i))
	}
	want := f.mul(f.sub(z, f.mul(z, z)), sumY)
	taux := f.add(f.mul(tau1, x), f.mul(tau2, f.mul(x, x)))
	for j := range values {
		want = f.sub(want, f.mul(f.pow(z, j+3), sum2))
		want = f.add(want, f.mul(f.pow(z, j+2), values[j]))
		taux = f.add(taux, f.mul(f.pow(z, j+2), gam[j]))
	}
	want = f.add(want, f.add(f.mul(t1, x), f.mul(t2, f.mul(x, x))))

	a.Taux = taux
	a.Mu = f.add(alpha, f.mul(rho, x))
	a.That = f.ip(l, r)
	a.IP.Cc = a.That
	switch cheat {
	case "vec": // other vectors with the demanded inner product
		d := f.sub(want, a.That)
		l[0] = f.add(l[0], f.mul(d, f.inv(r[0])))
		a.That, a.IP.Cc = want, want
	case "ip": // claim the demanded inner product
		a.That, a.IP.Cc = want, want
	case "scalar": // claim it only in the polynomial relation
		a.That = want
	}
	a.Taux, a.Mu = zero("taux", a.Taux), zero("mu", a.Mu)
	if sp["that=0"] || sp["that=1"] {
		a.That = new(big.Int)
		if sp["that=1"] {
			a.That = big.NewInt(1)
		}
		a.IP.Cc = a.That
	}
	hp := make([]group.Element, N)
	yi := f.inv(y)
	for i := range hp {
		hp[i] = g.Element().Scale(fo.params.Hh[i], f.pow(yi, i))
	}
	a.IP.P = g.Element().Add(fo.multi(fo.params.Gg, l), fo.multi(hp, r))
	if sp["P=0"] {
		a.IP.P = g.Identity()
	}
	if sp["P=A"] {
		a.IP.P = g.Element().Set(a.A)
	}
	fo.foldIP(&a, l, r, append([]group.Element(nil), fo.params.Gg...), hp, sp)
	a.IP.A, a.IP.B = zero("a", a.IP.A), zero("b", a.IP.B)
	if sp["a=1"] {
		a.IP.A, a.IP.B = big.NewInt(1), big.NewInt(1)
	}
	if sp["a=b"] {
		a.IP.A = a.IP.B
	}
	return a
}

// foldIP runs the inner-product prover, asking the verifier for challenges.
func (fo *vfForger) foldIP(a *vfAgg, l, r []*big.Int, gs, hs []group.Element, sp map[string]bool) {
	f, g := fo.f, fo.g
	xu := fo.ask(*a).xu
	u := fo.u
	if fo.tied != nil {
		// a generator of the product that is a multiple of a vector generator:
		// what is claimed in excess moves into the vector
		from, to, gen := r, l, gs[0]
		if fo.tiedH {
			from, to, gen = l, r, hs[0]
		}
		k := f.mul(xu, fo.tied)
		d := f.sub(a.IP.Cc, f.ip(l, r))
		to[0] = f.add(to[0], f.mul(f.mul(k, d), f.inv(f.add(big.NewInt(1), f.mul(k, from[0])))))
		u = g.Element().Scale(gen, fo.tied)
	}
	ux := g.Element().Scale(u, xu)
	for k := 0; len(l) > 1; k++ {
		h := len(l) / 2
		term := func(gg []group.Element, lv []*big.Int, hh []group.Element, rv []*big.Int) group.Element {
			e := g.Element().Add(fo.multi(gg, lv), fo.multi(hh, rv))
			return g.Element().Add(e, g.Element().Scale(ux, f.ip(lv, rv)))
		}
		a.IP.L[k] = term(gs[h:], l[:h], hs[:h], r[h:])
		a.IP.R[k] = term(gs[:h], l[h:], hs[h:], r[:h])
		if sp["L=0"] {
			a.IP.L[k] = g.Identity()
		}
		if sp["R=0"] {
			a.IP.R[k] = g.Identity()
		}
		if sp["L=R"] {
			a.IP.L[k] = g.Element().Set(a.IP.R[k])
		}
		x := fo.ask(*a).xs[k]
		xi := f.inv(x)
		nl, nr := make([]*big.Int, h), make([]*big.Int, h)
		ng, nh := make([]group.Element, h), make([]group.Element, h)
		for i := 0; i < h; i++ {
			nl[i] = f.add(f.mul(l[i], x), f.mul(l[h+i], xi))
			nr[i] = f.add(f.mul(r[i], xi), f.mul(r[h+i], x))
			ng[i] = g.Element().Add(g.Element().Scale(gs[i], xi), g.Element().Scale(gs[h+i], x))
			nh[i] = g.Element().Add(g.Element().Scale(hs[i], x), g.Element().Scale(hs[h+i], xi))
		}
		l, r, gs, hs = nl, nr, ng, nh
	}
	a.IP.A, a.IP.B = l[0], r[0]
	// the square roots proposed for the round challenges may have the other
	// sign: then both responses change sign together
	broken := func(b vfAgg) (n int) {
		for _, res := range fo.residuals(b) {
			if len(res) > 0 {
				n++
			}
		}
		return n
	}
	b := *a
	b.IP.A, b.IP.B = f.neg(a.IP.A), f.neg(a.IP.B)
	if broken(b) < broken(*a) {
		*a = b
	}
}

// residual evaluates the verifier's recorded equations on the actual elements.
func (fo *vfForger) residuals(a vfAgg) []map[string]*big.Int {
	_, rows := a.unknown(fo.g).equations(fo.g, -1)
	val := map[string]group.Element{"A": a.A, "S": a.S, "T1": a.T1, "T2": a.T2, "P": a.IP.P}
	for j := range a.Vs {
		val["V"+strconv.Itoa(j)] = a.Vs[j]
	}
	for i := range a.IP.L {
		val["L"+strconv.Itoa(i)] = a.IP.L[i]
		val["R"+strconv.Itoa(i)] = a.IP.R[i]
	}
	var out []map[string]*big.Int
	for _, row := range rows {
		r := map[string]*big.Int{}
		for l, v := range row {
			if e, ok := val[l]; ok {
				fo.f.axpy(r, v, vfFormOf(e))
			} else {
				fo.f.axpy(r, v, map[string]*big.Int{l: big.NewInt(1)})
			}
		}
		out = append(out, r)
	}
	return out
}

// late repairs a violated equation by adjusting one element afterwards, which
// works exactly when the challenges do not depend on that element.
func (fo *vfForger) late(a vfAgg, label string) (vfAgg, bool) {
	b := a.clone()
	_, rows := a.unknown(fo.g).equations(fo.g, -1)
	res := fo.residuals(a)
	hit := -1
	for i := range rows {
		if len(res[i]) > 0 && vfCoef(rows[i], label).Sign() != 0 {
			hit = i
		}
	}
	if hit < 0 {
		return b, false
	}
	k := fo.f.neg(fo.f.inv(vfCoef(rows[hit], label)))
	fix := map[string]*big.Int{}
	fo.f.axpy(fix, k, res[hit])
	add := func(e group.Element) group.Element { return fo.g.Element().Add(e, fo.g.Make(fix)) }
	idx := func() int { i, _ := strconv.Atoi(label[1:]); return i }
	switch {
	case label == "A":
		b.A = add(b.A)
	case label == "S":
		b.S = add(b.S)
	case label == "T1":
		b.T1 = add(b.T1)
	case label == "T2":
		b.T2 = add(b.T2)
	case label == "P":
		b.IP.P = add(b.IP.P)
	case label[0] == 'V':
		b.Vs[idx()] = add(b.Vs[idx()])
	case label[0] == 'L':
		b.IP.L[idx()] = add(b.IP.L[idx()])
	case label[0] == 'R':
		b.IP.R[idx()] = add(b.IP.R[idx()])
	}
	return b, true
}

// judge logs a transcript and the verdict on it.
func vfJudge(t *vfTrace, id string, a vfAgg, g *sym.Group, nm vfNames, n, m int) {
	f := vfField{g.N()}
	red := func(v *big.Int) string { return new(big.Int).Mod(v, f.q).String() }
	verdict := a.verify()
	vs := make([]any, len(a.Vs))
	for j := range a.Vs {
		vs[j] = nm.out(vfFormOf(a.Vs[j]))
	}
	fs := func(es []group.Element) []any {
		r := make([]any, len(es))
		for j := range es {
			r[j] = nm.out(vfFormOf(es[j]))
		}
		return r
	}
	c, _, why := vfChallengesOf(a, g, nm)
	if why != "" {
		t.log(vfEv{"ev": "blind", "id": id, "why": why, "verdict": verdict, "n": n, "m": m, "V": vs})
		return
	}
	t.log(vfEv{"ev": "judge", "id": id, "n": n, "m": m, "V": vs,
		"A": nm.out(vfFormOf(a.A)), "S": nm.out(vfFormOf(a.S)), "T1": nm.out(vfFormOf(a.T1)), "T2": nm.out(vfFormOf(a.T2)),
		"P": nm.out(vfFormOf(a.IP.P)), "L": fs(a.IP.L), "R": fs(a.IP.R),
		"that": red(a.That), "cc": red(a.IP.Cc), "taux": red(a.Taux), "mu": red(a.Mu), "a": red(a.IP.A), "b": red(a.IP.B),
		"y": c.y.String(), "z": c.z.String(), "x": c.x.String(), "xu": c.xu.String(), "xs": vfStrs(c.xs), "verdict": verdict})
}

// compensate spoils the blinding of the value and that of the vectors so
// that the two errors cancel in the comparisons the verifier makes, if they
// ever meet in one.
func (fo *vfForger) compensate(t *vfTrace, id string, a vfAgg) {
	f := fo.f
	bump := func(dt, dm *big.Int) vfAgg {
		b := a.clone()
		b.Taux, b.Mu = f.add(a.Taux, dt), f.add(a.Mu, dm)
		return b
	}
	one, zero := big.NewInt(1), new(big.Int)
	for _, dt := range []*big.Int{one, big.NewInt(-1), big.NewInt(77)} {
		r1 := fo.residuals(bump(dt, zero))
		r2 := fo.residuals(bump(zero, one))
		var dms []*big.Int
		for i := 0; i < len(r1) && i < len(r2); i++ {
			for _, l := range vfSortedKeys(r1[i]) {
				if c := vfCoef(r2[i], l); c.Sign() != 0 && r1[i][l].Sign() != 0 {
					dms = append(dms, f.neg(f.mul(r1[i][l], f.inv(c))))
				}
			}
		}
		for _, dm := range append(dms, dt, f.neg(dt)) {
			v := bump(dt, dm).verify()
			t.log(vfEv{"ev": "compensated", "id": id, "taux": dt.String(), "mu": dm.String(), "verdict": v})
		}
	}
}

// probe logs a transcript with the verdict on it, the equations behind the
// verdict, and what becomes of it when one of the comparisons fails.
func vfProbe(t *vfTrace, id string, a vfAgg, g *sym.Group, nm vfNames, n, m int) {
	vfJudge(t, id, a, g, nm, n, m)
	c, rows, why := vfChallengesOf(a, g, nm)
	if why != "" {
		return
	}
	f := vfField{g.N()}
	red := func(v *big.Int) string { return new(big.Int).Mod(v, f.q).String() }
	each := []string{}
	for k := range rows {
		v, _ := a.unknown(g).equations(g, k)
		each = append(each, v)
	}
	t.log(vfEv{"ev": "probe", "id": id, "n": n, "m": m, "that": red(a.That), "cc": red(a.IP.Cc), "taux": red(a.Taux), "mu": red(a.Mu), "a": red(a.IP.A), "b": red(a.IP.B),
		"y": c.y.String(), "z": c.z.String(), "x": c.x.String(), "xu": c.xu.String(), "xs": vfStrs(c.xs), "rows": nm.rows(rows), "each": each})
}

// mutations enumerates single-component changes of a proof.
func vfMutations(a vfAgg, g *sym.Group, params bulletproofs.BulletProofSetupParams, other vfAgg) map[string]vfAgg {
	f := vfField{g.N()}
	out := map[string]vfAgg{}
	type slot struct {
		name string
		get  func(*vfAgg) *group.Element
	}
	slots := []slot{
		{"A", func(x *vfAgg) *group.Element { return &x.A }}, {"S", func(x *vfAgg) *group.Element { return &x.S }},
		{"T1", func(x *vfAgg) *group.Element { return &x.T1 }}, {"T2", func(x *vfAgg) *group.Element { return &x.T2 }},
		{"P", func(x *vfAgg) *group.Element { return &x.IP.P }},
	}
	for j := range a.Vs {
		j := j
		slots = append(slots, slot{"V" + strconv.Itoa(j), func(x *vfAgg) *group.Element { return &x.Vs[j] }})
	}
	for j := range a.IP.L {
		j := j
		slots = append(slots, slot{"L" + strconv.Itoa(j), func(x *vfAgg) *group.Element { return &x.IP.L[j] }},
			slot{"R" + strconv.Itoa(j), func(x *vfAgg) *group.Element { return &x.IP.R[j] }})
	}
	put := func(name string, s slot, e group.Element) {
		b := a.clone()
		*s.get(&b) = e
		out[s.name+name] = b
	}
	for i, s := range slots {
		cur := *s.get(&a)
		put("+G", s, g.Element().Add(cur, params.G))
		put("+H", s, g.Element().Add(cur, params.H))
		put("neg", s, g.Element().Negate(cur))
		put("=0", s, g.Identity())
		put("=other", s, *s.get(&other))
		b := a.clone()
		o := slots[(i+1)%len(slots)]
		*s.get(&b), *o.get(&b) = *o.get(&a), *s.get(&a)
		out[s.name+"<->"+o.name] = b
	}
	type num struct {
		name string
		get  func(*vfAgg) **big.Int
	}
	nums := []num{
		{"taux", func(x *vfAgg) **big.Int { return &x.Taux }}, {"mu", func(x *vfAgg) **big.Int { return &x.Mu }},
		{"that", func(x *vfAgg) **big.Int { return &x.That }}, {"cc", func(x *vfAgg) **big.Int { return &x.IP.Cc }},
		{"a", func(x *vfAgg) **big.Int { return &x.IP.A }}, {"b", func(x *vfAgg) **big.Int { return &x.IP.B }},
	}
	for i, s := range nums {
		cur := *s.get(&a)
		for name, v := range map[string]*big.Int{"+1": f.add(cur, big.NewInt(1)), "neg": f.neg(cur), "=0": new(big.Int), "=other": *s.get(&other)} {
			b := a.clone()
			*s.get(&b) = v
			out[s.name+name] = b
		}
		for name, v := range vfScalarsLike(cur, f.q) {
			if name == "+q" || name == "-q" { // the same scalar
				continue
			}
			b := a.clone()
			*s.get(&b) = v
			out[s.name+" "+name] = b
			if s.name == "that" {
				b := b.clone()
				b.IP.Cc = v
				out["that,cc "+name] = b
			}
		}
		b := a.clone()
		o := nums[(i+1)%len(nums)]
		*s.get(&b), *o.get(&b) = *o.get(&a), *s.get(&a)
		out[s.name+"<->"+o.name] = b
	}
	b := a.clone()
	b.That = f.add(a.That, big.NewInt(1))
	b.IP.Cc = b.That
	out["that,cc+1"] = b
	return out
}

func vfSortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	for i := range ks {
		for j := i + 1; j < len(ks); j++ {
			if ks[j] < ks[i] {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
	}
	return ks
}

// attack logs honest, tampered and forged transcripts of a given shape.
func vfAttack(t *vfTrace, bits uint, m int, single bool, g *sym.Group, r *vfRng, full bool) {
	fo := vfNewForger(g, bits, m, single, r)
	top := new(big.Int).Lsh(big.NewInt(1), uint(fo.n))
	rv := func() []*big.Int {
		v := make([]*big.Int, m)
		for j := range v {
			v[j] = r.big(top)
		}
		return v
	}
	tag := fmt.Sprintf("N=%d m=%d ", bits, m)
	prove := func(vals []*big.Int) (vfAgg, string) {
		var a vfAgg
		var err error
		msg := vfGuard(func() {
			if single {
				var p bulletproofs.BulletProof
				p, _, err = bulletproofs.Prove(vals[0], fo.params)
				a = vfFromSingle(p)
			} else {
				var p bulletproofs.MultiBulletProof
				p, _, err = bulletproofs.MultiProve(vals, fo.params)
				a = vfFromMulti(p)
			}
		})
		if err != nil {
			msg += err.Error()
		}
		return a, msg
	}
	honest, msg := prove(rv())
	if msg != "" {
		return // completeness is judged elsewhere
	}
	other, msg := prove(rv())
	if msg != "" {
		return
	}
	vfJudge(t, tag+"honest", honest, g, fo.nm, fo.n, m)
	muts := vfMutations(honest, g, fo.params, other)
	for i, k := range vfSortedKeys(muts) {
		if full || i%3 == int(bits+uint(m))%3 {
			vfJudge(t, tag+"tampered "+k, muts[k], g, fo.nm, fo.n, m)
		}
	}
	// the same alterations of what an honest prover makes of a value out of range
	bad := rv()
	bad[m-1] = new(big.Int).Add(top, big.NewInt(3))
	if lie, msg := prove(bad); msg == "" {
		lies := vfMutations(lie, g, fo.params, other)
		for i, k := range vfSortedKeys(lies) {
			if full || i%2 == int(bits+uint(m))%2 || len(lies) < 150 {
				l := lies[k]
				vs := make([]any, len(l.Vs))
				for j := range l.Vs {
					vs[j] = fo.nm.out(vfFormOf(l.Vs[j]))
				}
				t.log(vfEv{"ev": "blind", "id": tag + "out of range, " + k, "why": "", "verdict": l.verify(), "n": fo.n, "m": m, "V": vs})
			}
		}
	}
	// honest prover, value out of range
	for _, d := range []*big.Int{big.NewInt(-1), new(big.Int).Neg(top), top, new(big.Int).Add(top, big.NewInt(1)), new(big.Int).Lsh(top, 1), new(big.Int).Sub(g.N(), big.NewInt(1)), r.big(g.N())} {
		for j := 0; j < m; j++ {
			if j > 0 && !full && j != m-1 {
				continue
			}
			vals := rv()
			vals[j] = d
			if a, msg := prove(vals); msg == "" {
				vfJudge(t, tag+"out of range "+d.String(), a, g, fo.nm, fo.n, m)
			}
		}
	}
	// cheating provers
	out := rv()
	out[m-1] = new(big.Int).Add(top, big.NewInt(7))
	in := rv()
	for j := 0; j < m-1; j++ {
		in[j] = out[j]
	}
	bases := map[string]vfAgg{}
	msg = vfGuard(func() {
		ctl := fo.forge(in, in, "")
		vfJudge(t, tag+"own prover", ctl, g, fo.nm, fo.n, m)
		for _, cheat := range []string{"", "nonbit", "vec", "ip", "scalar"} {
			vals, bv := out, in
			if cheat == "nonbit" {
				bv = out
			}
			a := fo.forge(vals, bv, cheat)
			bases[cheat] = a
			vfJudge(t, tag+"forged "+cheat, a, g, fo.nm, fo.n, m)
		}
	})
	if msg != "" {
		vfNote("%s forging stopped: %s", tag, msg)
	}
	for _, cheat := range vfSortedKeys(bases) {
		a := bases[cheat]
		labels := []string{"A", "S", "T1", "T2", "P"}
		for j := 0; j < m; j++ {
			labels = append(labels, "V"+strconv.Itoa(j))
		}
		for i := range a.IP.L {
			labels = append(labels, "L"+strconv.Itoa(i), "R"+strconv.Itoa(i))
		}
		for _, l := range labels {
			vfGuard(func() {
				if b, ok := fo.late(a, l); ok {
					vfJudge(t, tag+"forged "+cheat+" then "+l, b, g, fo.nm, fo.n, m)
				}
			})
		}
	}
	// cheating provers with degenerate choices
	if int(bits) <= vfPick(4, 8) {
		for k, special := range vfSpecials {
			for ci, cheat := range []string{"honest", "", "nonbit", "vec", "ip", "scalar"} {
				if !full && ci > 1 && (k+ci)%3 != int(bits)%3 {
					continue
				}
				vals, bv, how := out, in, cheat
				switch cheat {
				case "nonbit":
					bv = out
				case "honest":
					vals, how = in, ""
				}
				msg := vfGuard(func() {
					vfProbe(t, tag+"special "+special+" "+cheat, fo.forgeWith(vals, bv, how, special), g, fo.nm, fo.n, m)
				})
				if msg != "" {
					vfNote("%s%s %s: %s", tag, special, cheat, msg)
				}
			}
		}
	}
	fo.compensate(t, tag, honest)
	// more commitments than were proven: each of them enters a relation
	if !single {
		for k := 1; k <= 3; k++ {
			b := honest.clone()
			for j := 0; j < k; j++ {
				b.Vs = append(b.Vs, fo.pedersen(new(big.Int).Add(top, fo.rnd()), fo.rnd()))
			}
			v, rows := b.unknown(g).equations(g, -1)
			used := []int{}
			for j := range b.Vs {
				for _, row := range rows {
					if vfCoef(row, "V"+strconv.Itoa(j)).Sign() != 0 {
						used = append(used, j+1)
						break
					}
				}
			}
			t.log(vfEv{"ev": "commitments", "id": fmt.Sprintf("%s%d more", tag, k), "count": len(b.Vs), "used": used, "verdict": v})
		}
	}
	// structure: every comparison answers "equal"
	shape := func(id string, a vfAgg) {
		v, _ := a.unknown(g).equations(g, -1)
		t.log(vfEv{"ev": "shape", "id": tag + id, "n": fo.n, "m": m, "L": make([]int, len(a.IP.L)), "R": make([]int, len(a.IP.R)),
			"that": new(big.Int).Mod(a.That, fo.f.q).String(), "cc": new(big.Int).Mod(a.IP.Cc, fo.f.q).String(), "verdict": v})
	}
	shape("as is", honest)
	b := honest.clone()
	b.That = fo.rnd()
	shape("other evaluation", b)
	b = honest.clone()
	b.IP.Cc = fo.rnd()
	shape("other inner product", b)
	for _, k := range []uint{0, 1, 8, 16, 31, 32, 63, 64, 65, 127, 128, 160, 192, 200, 224, 240, 250} {
		b = honest.clone()
		b.IP.Cc = fo.f.add(honest.That, new(big.Int).Lsh(big.NewInt(1), k))
		shape(fmt.Sprintf("inner product off by 2^%d", k), b)
	}
	b = honest.clone()
	b.IP.Cc = fo.f.neg(honest.That)
	shape("negated inner product", b)
	// the two scalars as integers outside [0, q)
	b = honest.clone()
	b.That = new(big.Int).Add(fo.rnd(), fo.f.q)
	shape("other evaluation, unreduced", b)
	b = honest.clone()
	b.That = new(big.Int).Sub(fo.rnd(), fo.f.q)
	shape("other evaluation, negative", b)
	b = honest.clone()
	b.IP.Cc = new(big.Int).Add(fo.rnd(), fo.f.q)
	shape("other inner product, unreduced", b)
	b = honest.clone()
	b.IP.Cc = new(big.Int).Sub(fo.rnd(), fo.f.q)
	shape("other inner product, negative", b)
	b = honest.clone()
	b.That = new(big.Int).Neg(honest.IP.Cc)
	shape("evaluation of opposite sign", b)
	b = honest.clone()
	b.IP.Cc = new(big.Int).Neg(honest.That)
	shape("inner product of opposite sign", b)
	b = honest.clone()
	b.That = new(big.Int).Add(fo.rnd(), fo.f.q)
	b.IP.Cc = new(big.Int).Add(fo.rnd(), fo.f.q)
	shape("both other, unreduced", b)
	b = honest.clone()
	b.IP.L = append(b.IP.L, other.A)
	b.IP.R = append(b.IP.R, other.S)
	shape("extra round", b)
	b = honest.clone()
	b.IP.R = append(b.IP.R, other.S)
	shape("extra R", b)
	b = honest.clone()
	b.IP.L = append(b.IP.L, other.S)
	shape("extra L", b)
	if len(honest.IP.L) > 0 {
		b = honest.clone()
		b.IP.L, b.IP.R = b.IP.L[1:], b.IP.R[1:]
		shape("missing round", b)
		b = honest.clone()
		b.IP.L, b.IP.R = nil, nil
		shape("no rounds", b)
		b = honest.clone()
		b.IP.R = b.IP.R[1:]
		shape("missing R", b)
		b = honest.clone()
		b.IP.L = b.IP.L[1:]
		shape("missing L", b)
	}
}

func init() {
	vfSuites["bpattack"] = func() {
		t := vfNewTrace("bpattack")
		defer t.close()
		r := vfNewRng("bpattack")
		g := sym.New("SymEC", vfSymQ)
		for _, b := range []uint{1, 2, 4, 8, 16} {
			if b == 16 && !vfThorough {
				continue
			}
			vfAttack(t, b, 1, true, g, r, vfThorough || b <= 4)
		}
	}
	vfSuites["multiattack"] = func() {
		t := vfNewTrace("multiattack")
		defer t.close()
		r := vfNewRng("multiattack")
		g := sym.New("SymEC", vfSymQ)
		for _, c := range [][2]int{{2, 2}, {4, 2}, {4, 4}, {8, 4}, {8, 1}, {8, 8}, {16, 16}} {
			vfAttack(t, uint(c[0]), c[1], false, g, r, vfThorough)
		}
	}
}
