package main

import (
	"encoding/json"
	"fmt"
	"math/big"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
)

// Ballots and range proofs that carry parameters of the submitter's choice.

// simulate makes an equality proof without knowing a witness, for parameters
// under which the challenge can be guessed.
func vfSimulate(st voteproof.VerCommitments, p voteproof.ProofParams, r *vfRng, tries int) (voteproof.SigmaProof, bool) {
	lo := new(big.Int).Lsh(big.NewInt(1), uint(p.Bx)+uint(p.Bc))
	hi := new(big.Int).Lsh(lo, uint(max(p.Bb, 0)))
	var sp voteproof.SigmaProof
	ff, ec := p.GFF.I, p.GEC.I
	for k := 0; k < tries; k++ {
		c := new(big.Int)
		if p.Bc > 0 {
			c = r.bits(int(p.Bc))
		}
		z := new(big.Int).Add(lo, r.big(new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))))
		s, s1, s2 := r.big(ff.N()), r.big(ec.N()), r.big(ec.N())
		sub := func(g group.Group, l group.Element, x group.Element) group.Element {
			return g.Element().Subtract(l, g.Element().Scale(x, c))
		}
		ped := func(gp voteproof.GroupParameters, m, r *big.Int) group.Element {
			return gp.I.Element().Add(gp.I.Element().BaseScale(m), gp.I.Element().Scale(gp.H, r))
		}
		sp = voteproof.SigmaProof{Params: p}
		sp.W = sub(ff, ff.Element().BaseScale(s), st.Y)
		sp.Kp = sub(ff, ped(p.GFF, z, s), st.Xp)
		sp.Kq1 = sub(ec, ped(p.GEC, z, s1), st.Xq1)
		sp.Kq2 = sub(ec, ped(p.GEC, z, s2), st.Xq2)
		sp.Challenge, sp.Z, sp.Sp, sp.Sq1, sp.Sq2 = c, z, s, s1, s2
		ok := false
		vfGuard(func() { q := sp; ok = q.Verify(st) })
		if ok {
			return sp, true
		}
	}
	return sp, false
}

// statementOf is what the collector checks the equality proof against.
func vfStatementOf(b BallotData, pp PublicParameters) voteproof.VerCommitments {
	ec := pp.ECGroupParams.I
	lo, hi := big.NewInt(int64(pp.candidateMin)), big.NewInt(int64(pp.candidateMax))
	return voteproof.VerCommitments{Y: b.Ballot.U, Xp: b.Ballot.V,
		Xq1: ec.Element().Add(ec.Element().BaseScale(lo), b.BpLower.V),
		Xq2: ec.Element().Subtract(ec.Element().BaseScale(hi), b.BpUpper.V)}
}

// hollow makes a range proof for any value whose inner-product argument holds
// only for the generators it carries: g'_j = lambda_j P, h' = whatever, u' = 1.
func (fo *vfForger) hollow(v *big.Int) (a vfAgg, gamma *big.Int) {
	f, g := fo.f, fo.g
	N := fo.n
	a = fo.skeleton()
	gamma = fo.rnd()
	a.Vs[0] = fo.pedersen(v, gamma)
	alpha := fo.rnd()
	a.A, a.S = g.Element().Scale(fo.params.H, alpha), g.Element().Scale(fo.params.H, fo.rnd())
	rho := vfCoef(vfFormOf(a.S), "M:"+bulletproofs.SEEDH)
	t1, t2, tau1, tau2 := fo.rnd(), fo.rnd(), fo.rnd(), fo.rnd()
	a.T1, a.T2 = fo.pedersen(t1, tau1), fo.pedersen(t2, tau2)
	c := fo.ask(a)
	y, z, x := c.y, c.z, c.x
	sumY, sum2 := new(big.Int), new(big.Int)
	for i := 0; i < N; i++ {
		sumY = f.add(sumY, f.pow(y, i))
		sum2 = f.add(sum2, f.pow(big.NewInt(2), i))
	}
	want := f.mul(f.sub(z, f.mul(z, z)), sumY)
	want = f.sub(want, f.mul(f.pow(z, 3), sum2))
	want = f.add(want, f.mul(f.pow(z, 2), v))
	want = f.add(want, f.add(f.mul(t1, x), f.mul(t2, f.mul(x, x))))
	a.That, a.IP.Cc = want, want
	a.Taux = f.add(f.add(f.mul(tau1, x), f.mul(tau2, f.mul(x, x))), f.mul(f.pow(z, 2), gamma))
	a.Mu = f.add(alpha, f.mul(rho, x))
	// P as the vector relation wants it
	P := g.Element().Scale(fo.params.Gg[0], big.NewInt(0))
	for i := 0; i < N; i++ {
		P = g.Element().Add(P, g.Element().Scale(fo.params.Gg[i], f.neg(z)))
		e := f.add(z, f.mul(f.mul(f.pow(z, 2), f.pow(big.NewInt(2), i)), f.pow(f.inv(y), i)))
		P = g.Element().Add(P, g.Element().Scale(fo.params.Hh[i], e))
	}
	a.IP.P = P
	// generators that make it true
	lam := fo.rndVec(N)
	ip := bulletproofs.InnerProductParams{GP: g, Uu: g.Identity()}
	for i := 0; i < N; i++ {
		ip.Gg = append(ip.Gg, g.Element().Scale(P, lam[i]))
		ip.Hh = append(ip.Hh, fo.params.Hh[i])
	}
	a.IP.Params = ip
	for i := range a.IP.L {
		a.IP.L[i], a.IP.R[i] = g.Identity(), g.Identity()
	}
	a.IP.B = new(big.Int)
	// the folded generator is P times some scalar: find it from the equation
	// of the stand-alone argument
	a.IP.A = big.NewInt(1)
	ip2 := a.IP
	ip2.P = g.Fresh("P", P)
	for i := range ip2.Params.Gg {
		ip2.Params.Gg[i] = g.Fresh("g"+fmt.Sprint(i), ip.Gg[i])
	}
	rec := g.Record(-1)
	vfGuard(func() { ip2.Verify() })
	g.Stop()
	if len(rec.Residuals) > 0 {
		row := rec.Residuals[len(rec.Residuals)-1]
		s := new(big.Int)
		for i := 0; i < N; i++ {
			s = f.add(s, f.mul(vfCoef(row, "g"+fmt.Sprint(i)), lam[i]))
		}
		if s.Sign() != 0 {
			a.IP.A = f.neg(f.mul(vfCoef(row, "P"), f.inv(s)))
		}
	}
	a.IP.Params.Gg = nil
	for i := 0; i < N; i++ {
		a.IP.Params.Gg = append(a.IP.Params.Gg, g.Element().Scale(P, lam[i]))
	}
	return a, gamma
}

// chosenU builds a ballot for any number from range proofs whose inner-product
// arguments carry a generator of the product chosen by the submitter, so that
// they prove nothing about the product: the identity, a multiple of a vector
// generator, or whatever makes the relation true in the end.
func vfChosenU(w *vfSymWorld, fo *vfForger, num, lo, hi int64, r *vfRng, log func(string, BallotData)) {
	for _, side := range []string{"lower", "upper", "both"} {
		for _, kind := range []string{"neutral", "g0", "h0", "last"} {
			var b BallotData
			var g1, g2 *big.Int
			mk := func(v *big.Int, bad bool) (bulletproofs.BulletProof, *big.Int) {
				gm := fo.rnd()
				old := fo.u
				defer func() { fo.u, fo.gammas, fo.tied, fo.tiedH = old, nil, nil, false }()
				fo.gammas = []*big.Int{gm}
				how := ""
				if bad {
					how = "ip"
					switch kind {
					case "neutral":
						fo.u = w.ec.Identity()
					case "g0":
						fo.tied = fo.rnd()
						fo.u = w.ec.Element().Scale(fo.params.Gg[0], fo.tied)
					case "h0":
						fo.tied, fo.tiedH = fo.rnd(), true
						fo.u = w.ec.Element().Scale(fo.params.Hh[0], fo.tied)
					}
				}
				a := fo.forge([]*big.Int{v}, []*big.Int{v}, how)
				if bad && kind == "last" {
					fo.solveU(&a)
				}
				p := a.toSingle()
				p.Params = w.pp.BPParams
				return p, gm
			}
			rp := r.big(vfSymQFF)
			if msg := vfGuard(func() {
				b.BpLower, g1 = mk(new(big.Int).Mod(big.NewInt(num-lo), vfSymQ), side != "upper")
				b.BpUpper, g2 = mk(new(big.Int).Mod(big.NewInt(hi-num), vfSymQ), side != "lower")
			}); msg != "" {
				vfNote("chosen generator: %s", msg)
				continue
			}
			b.Ballot.U = w.ff.Element().BaseScale(rp)
			b.Ballot.V = w.ff.Element().Add(w.ff.Element().BaseScale(big.NewInt(num)), w.ff.Element().Scale(w.pp.EGPK, rp))
			if msg := vfTimed(vfVoteTimeout, func() {
				b.VoteProof = voteproof.Prove(big.NewInt(num), rp, g1, new(big.Int).Sub(vfSymQ, g2), w.pp.RPParams)
			}); msg == "" {
				log(fmt.Sprintf("%d with a chosen product generator (%s), %s", num, kind, side), b)
			}
		}
	}
}

// solveU sets the generator of the product to what makes the argument true.
func (fo *vfForger) solveU(a *vfAgg) {
	b := a.clone()
	b.IP.Params.Uu = fo.g.Fresh("U", fo.u)
	_, rows := b.unknown(fo.g).equations(fo.g, -1)
	for i, res := range fo.residuals(*a) {
		if i < len(rows) && len(res) > 0 {
			if k := vfCoef(rows[i], "U"); k.Sign() != 0 {
				fix := map[string]*big.Int{}
				fo.f.axpy(fix, fo.f.neg(fo.f.inv(k)), res)
				a.IP.Params.Uu = fo.g.Element().Add(fo.u, fo.g.Make(fix))
			}
		}
	}
}

// shifted builds a ballot that is right if the ends of the range count in
// multiples of another generator, carried in the equality proof.
func vfShifted(w *vfSymWorld, num, v1, v2, k int64, den int64, r *vfRng, id string, log func(string, BallotData)) {
	f := vfField{vfSymQ}
	scale := f.mul(new(big.Int).Mod(big.NewInt(k), vfSymQ), f.inv(big.NewInt(den)))
	var b BallotData
	var g1, g2 *big.Int
	var err1, err2 error
	rp := r.big(vfSymQFF)
	b.Ballot.U = w.ff.Element().BaseScale(rp)
	b.Ballot.V = w.ff.Element().Add(w.ff.Element().BaseScale(big.NewInt(num)), w.ff.Element().Scale(w.pp.EGPK, rp))
	if msg := vfTimed(vfVoteTimeout, func() {
		b.BpLower, g1, err1 = bulletproofs.Prove(big.NewInt(v1), w.pp.BPParams)
		b.BpUpper, g2, err2 = bulletproofs.Prove(big.NewInt(v2), w.pp.BPParams)
		b.VoteProof = voteproof.Prove(big.NewInt(num), rp, g1, new(big.Int).Sub(vfSymQ, g2), w.pp.RPParams)
	}); msg != "" || err1 != nil || err2 != nil {
		return
	}
	b.VoteProof.Params.GEC.G = w.ec.Element().BaseScale(scale)
	log(fmt.Sprintf("%d with the range in multiples of %s", num, id), b)
	b.VoteProof.Params.GFF.G = w.ff.Element().BaseScale(big.NewInt(num))
	log(fmt.Sprintf("%d with the range in multiples of %s, other generator", num, id), b)
}

// skewedH builds a ballot whose commitments are to a candidate under the
// election's blinding generator and to another number under the one carried
// in the equality proof.
func vfSkewedH(w *vfSymWorld, fo *vfForger, num, lo, hi int64, r *vfRng, log func(string, BallotData)) {
	const inside = 45
	var b BallotData
	one := big.NewInt(1)
	defer func() { fo.gammas = nil }()
	if msg := vfGuard(func() {
		mk := func(v int64, g *big.Int) bulletproofs.BulletProof {
			fo.gammas = []*big.Int{g}
			a := fo.forge([]*big.Int{big.NewInt(v)}, []*big.Int{big.NewInt(v)}, "")
			p := a.toSingle()
			p.Params = w.pp.BPParams
			return p
		}
		b.BpLower, b.BpUpper = mk(inside-lo, one), mk(hi-inside, new(big.Int).Sub(vfSymQ, one))
	}); msg != "" {
		vfNote("skewed generator: %s", msg)
		return
	}
	rp := r.big(vfSymQFF)
	b.Ballot.U = w.ff.Element().BaseScale(rp)
	b.Ballot.V = w.ff.Element().Add(w.ff.Element().BaseScale(big.NewInt(num)), w.ff.Element().Scale(w.pp.EGPK, rp))
	p := w.pp.RPParams
	p.GEC.H = w.ec.Element().Add(p.GEC.H, w.ec.Element().BaseScale(new(big.Int).Mod(big.NewInt(inside-num), vfSymQ)))
	if msg := vfTimed(vfVoteTimeout, func() { b.VoteProof = voteproof.Prove(big.NewInt(num), rp, one, one, p) }); msg == "" {
		log(fmt.Sprintf("%d under a skewed blinding generator", num), b)
	}
}

func vfSuiteParams() {
	tr := vfNewTrace("params")
	defer tr.close()
	r := vfNewRng("params")
	const lo, hi = 40, 49
	w := vfNewSymWorld(4, 8, 224, lo, hi)
	ec, ff := w.ec, w.ff
	log := func(id string, b BallotData) {
		tr.log(w.describe(b, vfEv{"ev": "params", "id": id, "verdict": func() string {
			// in memory: the range proofs are bound to the election's
			// generators when parsed, everything else is as submitted
			m := vfCloneBallot(b)
			m.BpLower.Params, m.BpUpper.Params = w.pp.BPParams, w.pp.BPParams
			return vfCollect(m, w.pp)
		}(), "json": vfCollectJSON(b, w.pp)}))
	}
	honest, msg := vfCast(w.pp)
	if msg != "" {
		tr.log(vfEv{"ev": "noballot", "id": "honest", "why": msg})
		return
	}
	log("honest", honest)

	// 1. the ballot is honest for another election
	other := func(id string, f func() (PublicParameters, error)) {
		pp, err := f()
		if err != nil {
			return
		}
		for k := 0; k < 6; k++ {
			b, msg := vfCast(pp)
			if msg != "" {
				return
			}
			log("cast for another election: "+id, b)
			// claim the election's own parameters while at it
			b.VoteProof.Params = w.pp.RPParams
			log("cast for another election, parameters relabelled: "+id, b)
		}
	}
	pk := group.Element(ff.Label("PK"))
	other("range 0..15", func() (PublicParameters, error) { return vfMakeParams(ec, ff, pk, 4, 8, 224, 0, 15) })
	other("range 200..209", func() (PublicParameters, error) { return vfMakeParams(ec, ff, pk, 4, 8, 224, 200, 209) })
	other("range 39..50", func() (PublicParameters, error) { return vfMakeParams(ec, ff, pk, 4, 8, 224, 39, 50) })
	other("range 50..59", func() (PublicParameters, error) { return vfMakeParams(ec, ff, pk, 4, 8, 224, 50, 59) })
	other("bits 32", func() (PublicParameters, error) { return vfMakeParams(ec, ff, pk, 32, 16, 224, 0, 65535) })
	other("bits 16", func() (PublicParameters, error) { return vfMakeParams(ec, ff, pk, 16, 16, 224, 0, 65535) })
	other("public key", func() (PublicParameters, error) { return vfMakeParams(ec, ff, ff.Label("PK2"), 4, 8, 224, lo, hi) })
	other("known key", func() (PublicParameters, error) {
		return vfMakeParams(ec, ff, ff.Element().BaseScale(big.NewInt(5)), 4, 8, 224, lo, hi)
	})
	other("short challenge", func() (PublicParameters, error) { return vfMakeParams(ec, ff, pk, 4, 8, 8, lo, hi) })
	other("other window", func() (PublicParameters, error) { return vfMakeParams(ec, ff, pk, 4, 16, 200, lo, hi) })
	other("blinding generator", func() (PublicParameters, error) {
		pp, err := vfMakeParams(ec, ff, pk, 4, 8, 224, lo, hi)
		pp.BPParams.H = ec.Element().BaseScale(big.NewInt(7))
		pp.ECGroupParams.H = pp.BPParams.H
		pp.RPParams.GEC.H = pp.BPParams.H
		return pp, err
	})
	other("vector generators", func() (PublicParameters, error) {
		pp, err := vfMakeParams(ec, ff, pk, 4, 8, 224, lo, hi)
		for i := range pp.BPParams.Gg {
			pp.BPParams.Gg[i] = ec.Element().BaseScale(big.NewInt(int64(3 + i)))
		}
		return pp, err
	})
	// the verifier of the inner-product argument is not told where its
	// generators come from
	vfDeviations(w, r, log)
	// 2. simulated equality proofs for guessable challenges
	for _, num := range []int64{39, 50, 7, 255} {
		for _, q := range []struct {
			id string
			f  func(*voteproof.ProofParams)
		}{
			{"no challenge", func(p *voteproof.ProofParams) { p.Bc = 0 }},
			{"one byte", func(p *voteproof.ProofParams) { p.Bc = 8 }},
			{"no challenge, wide window", func(p *voteproof.ProofParams) { p.Bc, p.Bb = 0, 254 }},
			{"no challenge, other range", func(p *voteproof.ProofParams) { p.Bc, p.RangeLo, p.RangeHi = 0, 0, 255 }},
			{"no challenge, consistent abort bits", func(p *voteproof.ProofParams) { p.Bc = 0; p.Bb = int(p.Bg) - 1 - int(p.Bx) }},
		} {
			rp := r.big(vfSymQFF)
			b := honest
			b.Ballot.U = ff.Element().BaseScale(rp)
			b.Ballot.V = ff.Element().Add(ff.Element().BaseScale(big.NewInt(num)), ff.Element().Scale(pk, rp))
			p := w.pp.RPParams
			q.f(&p)
			sp, ok := vfSimulate(vfStatementOf(b, w.pp), p, r, 3000)
			b.VoteProof = sp
			log(fmt.Sprintf("simulated for %d with %s (%v)", num, q.id, ok), b)
			b.VoteProof.Params = w.pp.RPParams
			log(fmt.Sprintf("simulated for %d with %s, relabelled", num, q.id), b)
		}
	}
	// 3. range proofs that hold only for the generators they carry
	fo := vfNewForger(ec, 4, 1, true, r)
	fo.params = w.pp.BPParams
	for _, num := range []int64{39, 50, 60, 255, 44} {
		for _, side := range []string{"lower", "upper", "both"} {
			lv, uv := new(big.Int).Mod(big.NewInt(num-lo), vfSymQ), new(big.Int).Mod(big.NewInt(hi-num), vfSymQ)
			mk := func(v *big.Int, hollow bool) (bulletproofs.BulletProof, *big.Int, bool) {
				var p bulletproofs.BulletProof
				var gm *big.Int
				msg := vfGuard(func() {
					if hollow {
						var a vfAgg
						a, gm = fo.hollow(v)
						p = a.toSingle()
						p.Params = w.pp.BPParams
					} else {
						p, gm, _ = bulletproofs.Prove(v, w.pp.BPParams)
					}
				})
				if msg != "" {
					vfNote("hollow: %s", msg)
				}
				return p, gm, msg == "" && gm != nil
			}
			l, g1, ok1 := mk(lv, side != "upper")
			u, g2, ok2 := mk(uv, side != "lower")
			if !ok1 || !ok2 {
				continue
			}
			rp := r.big(vfSymQFF)
			b := BallotData{BpLower: l, BpUpper: u}
			b.Ballot.U = ff.Element().BaseScale(rp)
			b.Ballot.V = ff.Element().Add(ff.Element().BaseScale(big.NewInt(num)), ff.Element().Scale(pk, rp))
			if msg := vfTimed(vfVoteTimeout, func() {
				b.VoteProof = voteproof.Prove(big.NewInt(num), rp, g1, new(big.Int).Sub(vfSymQ, g2), w.pp.RPParams)
			}); msg != "" {
				continue
			}
			log(fmt.Sprintf("%d with hollow %s range proof", num, side), b)
			if side == "lower" {
				v := "error"
				if m := vfGuard(func() {
					doc, err := json.Marshal(l)
					if err != nil {
						return
					}
					p, err := bulletproofs.BulletProofUnmarshalJSON(doc, w.pp.BPParams)
					if err != nil {
						return
					}
					v = vfFromSingle(p).verify()
				}); m != "" {
					v = "panic"
				}
				tr.log(vfEv{"ev": "rangeparams", "id": fmt.Sprintf("hollow %d", num), "n": 4, "bits": 4, "V": w.names().out(vfFormOf(l.V)), "verdict": v})
			}
		}
	}
	for _, num := range []int64{39, 50, 255} {
		vfChosenU(w, fo, num, lo, hi, r, log)
		vfSkewedH(w, fo, num, lo, hi, r, log)
	}
	vfShifted(w, 89, 9, 9, 2, 1, r, "2", log)
	vfShifted(w, 0, 0, 0, 0, 1, r, "0", log)
	vfShifted(w, 39, 3, 10, 36, lo, r, "36/lo, lower end", log)
	vfShifted(w, 35, 15, 14, 20, lo, r, "20/lo, lower end", log)
	vfShifted(w, 53, 13, 5, 58, hi, r, "58/hi, upper end", log)
	vfShifted(w, 51, 11, 0, 51, hi, r, "51/hi, upper end", log)
	// 4. range proofs made under other parameters, parsed with the verifier's
	for _, q := range []struct {
		id string
		f  func(*bulletproofs.BulletProofSetupParams)
		v  int64
	}{
		{"32 bits", nil, 1 << 20},
		{"8 bits", nil, 5},
		{"2 bits", nil, 1},
		{"1 bit", nil, 1},
		{"known blinding generator", func(p *bulletproofs.BulletProofSetupParams) { p.H = ec.Element().BaseScale(big.NewInt(9)) }, 3},
		{"identity blinding generator", func(p *bulletproofs.BulletProofSetupParams) { p.H = ec.Identity() }, 3},
		{"equal vector generators", func(p *bulletproofs.BulletProofSetupParams) { p.Gg, p.Hh = p.Hh, p.Hh }, 3},
		{"identity vector generators", func(p *bulletproofs.BulletProofSetupParams) {
			p.Gg, p.Hh = append([]group.Element(nil), p.Gg...), append([]group.Element(nil), p.Hh...)
			for i := range p.Gg {
				p.Gg[i], p.Hh[i] = ec.Identity(), ec.Identity()
			}
		}, 30},
	} {
		bits := uint(4)
		if q.f == nil {
			fmt.Sscanf(q.id, "%d", &bits)
		}
		p, err := bulletproofs.Setup(int64(1)<<bits, ec)
		if err != nil {
			continue
		}
		if q.f != nil {
			q.f(&p)
		}
		for _, dv := range []int64{0, 16, 17} {
			var pr bulletproofs.BulletProof
			v := "error"
			if m := vfGuard(func() {
				var err error
				pr, _, err = bulletproofs.Prove(big.NewInt(q.v+dv), p)
				if err != nil {
					return
				}
				doc, err := json.Marshal(pr)
				if err != nil {
					return
				}
				back, err := bulletproofs.BulletProofUnmarshalJSON(doc, w.pp.BPParams)
				if err != nil {
					return
				}
				v = vfFromSingle(back).verify()
			}); m != "" {
				v = "error" // making the odd proof may fail
			}
			if pr.V == nil {
				continue
			}
			tr.log(vfEv{"ev": "rangeparams", "id": q.id, "n": 4, "bits": int(bits), "V": w.names().out(vfFormOf(pr.V)), "verdict": v})
		}
	}
	vfSuiteParamsReal(tr, r)
}

type vfDeviation struct {
	Dev         []string `json:"dev"`
	Lo, Hi, Num int
}

// Deviations makes the ballots the specification lists: all parts are honest
// for parameters that differ from the election's in some fields.
func vfDeviations(w *vfSymWorld, r *vfRng, log func(string, BallotData)) {
	vfReadLines(vfInDir+"/behaviours.ndjson", func(l []byte) {
		var d vfDeviation
		if err := json.Unmarshal(l, &d); err != nil {
			panic(err)
		}
		bx, bc, pk := uint8(8), uint16(224), group.Element(w.ff.Label("PK"))
		var own, special group.Element
		for _, f := range d.Dev {
			switch f {
			case "key":
				pk = w.ff.Element().BaseScale(big.NewInt(5))
			case "challenge":
				bc = 200
			case "window":
				bx = 16
			case "h":
				own = w.ec.Element().BaseScale(big.NewInt(7))
			case "h=0":
				own = w.ec.Identity()
			case "h=G":
				own = w.ec.Element().BaseScale(big.NewInt(1))
			case "key=0":
				special = w.ff.Identity()
			case "key=G":
				special = w.ff.Element().BaseScale(big.NewInt(1))
			}
		}
		pp, err := vfMakeParams(w.ec, w.ff, pk, 4, bx, bc, uint16(d.Lo), uint16(d.Hi))
		if err != nil {
			return
		}
		if special != nil {
			pp.EGPK, pp.FFGroupParams.H, pp.RPParams.GFF.H = special, special, special
		}
		if own != nil {
			pp.BPParams.H = own
			pp.ECGroupParams.H, pp.RPParams.GEC.H = pp.BPParams.H, pp.BPParams.H
		}
		p := &pp.RPParams
		for _, f := range d.Dev {
			switch f {
			case "abort+": // responses above the election's window
				p.Bb += 20
			case "abort-":
				p.Bb /= 2
			case "secret+":
				p.Bx += 20
			case "secret-": // responses below it
				p.Bx, p.Bb = 4, 4
			}
		}
		num := big.NewInt(int64(d.Num))
		var b BallotData
		if msg := vfTimed(vfVoteTimeout, func() {
			var rp, g1, g2 *big.Int
			b.Ballot, rp = encryptVote(uint16(d.Num), pp.EGPK, w.ff)
			b.BpLower, g1, err = bulletproofs.Prove(big.NewInt(int64(d.Num-d.Lo)), pp.BPParams)
			if err != nil {
				return
			}
			b.BpUpper, g2, err = bulletproofs.Prove(big.NewInt(int64(d.Hi-d.Num)), pp.BPParams)
			if err != nil {
				return
			}
			b.VoteProof = voteproof.Prove(num, rp, g1, new(big.Int).Sub(vfSymQ, g2), pp.RPParams)
		}); msg != "" || err != nil {
			return
		}
		id := fmt.Sprintf("%d made for other %v", d.Num, d.Dev)
		log(id, b)
		b.VoteProof.Params = w.pp.RPParams
		log(id+", relabelled", b)
	})
}

// suiteParamsReal: a ballot for an out-of-range number whose equality proof is
// simulated for an empty challenge, and a proof from another election.
func vfSuiteParamsReal(tr *vfTrace, r *vfRng) {
	ff := vfFfGroup()
	for _, g := range vfRealGroups() {
		pp, err := vfMakeParams(g, ff, ff.Element().BaseScale(big.NewInt(13)), 4, 8, 224, 40, 49)
		if err != nil {
			continue
		}
		b, msg := vfCast(pp)
		if msg != "" {
			continue
		}
		rp := r.big(ff.N())
		b.Ballot.U = ff.Element().BaseScale(rp)
		b.Ballot.V = ff.Element().Add(ff.Element().BaseScale(big.NewInt(77)), ff.Element().Scale(pp.EGPK, rp))
		p := pp.RPParams
		p.Bc = 0
		b.VoteProof, _ = vfSimulate(vfStatementOf(b, pp), p, r, 1)
		tr.log(vfEv{"ev": "paramsreal", "id": g.Name() + " no challenge", "verdict": vfCollect(b, pp)})
		tr.log(vfEv{"ev": "paramsreal", "id": g.Name() + " no challenge, JSON", "verdict": vfCollectJSON(b, pp)})
		for _, o := range [][2]uint16{{50, 59}, {0, 15}} {
			pp2, err := vfMakeParams(g, ff, ff.Element().BaseScale(big.NewInt(13)), 4, 8, 224, o[0], o[1])
			if err != nil {
				continue
			}
			if b, msg := vfCast(pp2); msg == "" {
				tr.log(vfEv{"ev": "paramsreal", "id": fmt.Sprint(g.Name(), " range ", o), "verdict": vfCollect(b, pp)})
				tr.log(vfEv{"ev": "paramsreal", "id": fmt.Sprint(g.Name(), " range, JSON ", o), "verdict": vfCollectJSON(b, pp)})
			}
		}
	}
}

func init() { vfSuites["params"] = vfSuiteParams }
