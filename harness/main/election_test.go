package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"strconv"
	"strings"
	"sync"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
	"github.com/takakv/msc-poc/zzverif/sym"
)

// collect runs the real collector.
func vfCollect(b BallotData, pp PublicParameters) string {
	var ok bool
	if msg := vfGuard(func() { ok, _ = verifyVote(vfCloneBallot(b), pp.RPParams) }); msg != "" {
		return "panic"
	}
	if ok {
		return "accept"
	}
	return "reject"
}

// collectJSON serialises the ballot, parses it with the election's parameters
// and runs the collector.
func vfCollectJSON(b BallotData, pp PublicParameters) string {
	res := "error"
	if msg := vfGuard(func() {
		doc, err := json.Marshal(b)
		if err != nil {
			return
		}
		p, err := BallotDataUnmarshalJSON(doc, pp)
		if err != nil {
			return
		}
		res = vfCollect(p, pp)
	}); msg != "" {
		return "panic"
	}
	return res
}

func vfCloneBP(p bulletproofs.BulletProof) bulletproofs.BulletProof {
	p.InnerProductProof.L = append([]group.Element(nil), p.InnerProductProof.L...)
	p.InnerProductProof.R = append([]group.Element(nil), p.InnerProductProof.R...)
	return p
}

func vfCloneBallot(b BallotData) BallotData {
	b.BpLower, b.BpUpper = vfCloneBP(b.BpLower), vfCloneBP(b.BpUpper)
	return b
}

// cast produces an honest ballot.
func vfCast(pp PublicParameters) (b BallotData, msg string) {
	msg = vfTimed(vfVoteTimeout, func() { b, _ = castVote(pp) })
	if msg == "" && (b.Ballot.U == nil || b.Ballot.V == nil || b.BpLower.V == nil || b.BpUpper.V == nil || b.VoteProof.Z == nil) {
		msg = "incomplete ballot"
	}
	return
}

type vfBallotElem struct {
	name string
	ff   bool
	at   func(*BallotData) *group.Element
}

func vfBallotElems(b BallotData) []vfBallotElem {
	out := []vfBallotElem{
		{"U", true, func(b *BallotData) *group.Element { return &b.Ballot.U }},
		{"V", true, func(b *BallotData) *group.Element { return &b.Ballot.V }},
		{"W", true, func(b *BallotData) *group.Element { return &b.VoteProof.W }},
		{"Kp", true, func(b *BallotData) *group.Element { return &b.VoteProof.Kp }},
		{"Kq1", false, func(b *BallotData) *group.Element { return &b.VoteProof.Kq1 }},
		{"Kq2", false, func(b *BallotData) *group.Element { return &b.VoteProof.Kq2 }},
	}
	for _, side := range []string{"lower", "upper"} {
		side := side
		of := func(b *BallotData) *bulletproofs.BulletProof {
			if side == "lower" {
				return &b.BpLower
			}
			return &b.BpUpper
		}
		add := func(n string, f func(*bulletproofs.BulletProof) *group.Element) {
			out = append(out, vfBallotElem{side + "." + n, false, func(b *BallotData) *group.Element { return f(of(b)) }})
		}
		add("V", func(p *bulletproofs.BulletProof) *group.Element { return &p.V })
		add("A", func(p *bulletproofs.BulletProof) *group.Element { return &p.A })
		add("S", func(p *bulletproofs.BulletProof) *group.Element { return &p.S })
		add("T1", func(p *bulletproofs.BulletProof) *group.Element { return &p.T1 })
		add("T2", func(p *bulletproofs.BulletProof) *group.Element { return &p.T2 })
		add("P", func(p *bulletproofs.BulletProof) *group.Element { return &p.InnerProductProof.P })
		for i := range of(&b).InnerProductProof.L {
			i := i
			add("L"+strconv.Itoa(i), func(p *bulletproofs.BulletProof) *group.Element { return &p.InnerProductProof.L[i] })
		}
		for i := range of(&b).InnerProductProof.R {
			i := i
			add("R"+strconv.Itoa(i), func(p *bulletproofs.BulletProof) *group.Element { return &p.InnerProductProof.R[i] })
		}
	}
	return out
}

type vfBallotNum struct {
	name string
	at   func(*BallotData) **big.Int
}

func vfBallotNums() []vfBallotNum {
	out := []vfBallotNum{
		{"challenge", func(b *BallotData) **big.Int { return &b.VoteProof.Challenge }},
		{"z", func(b *BallotData) **big.Int { return &b.VoteProof.Z }},
		{"sp", func(b *BallotData) **big.Int { return &b.VoteProof.Sp }},
		{"sq1", func(b *BallotData) **big.Int { return &b.VoteProof.Sq1 }},
		{"sq2", func(b *BallotData) **big.Int { return &b.VoteProof.Sq2 }},
	}
	for _, side := range []string{"lower", "upper"} {
		side := side
		of := func(b *BallotData) *bulletproofs.BulletProof {
			if side == "lower" {
				return &b.BpLower
			}
			return &b.BpUpper
		}
		add := func(n string, f func(*bulletproofs.BulletProof) **big.Int) {
			out = append(out, vfBallotNum{side + "." + n, func(b *BallotData) **big.Int { return f(of(b)) }})
		}
		add("taux", func(p *bulletproofs.BulletProof) **big.Int { return &p.Taux })
		add("mu", func(p *bulletproofs.BulletProof) **big.Int { return &p.Mu })
		add("that", func(p *bulletproofs.BulletProof) **big.Int { return &p.Tprime })
		add("cc", func(p *bulletproofs.BulletProof) **big.Int { return &p.InnerProductProof.Cc })
		add("a", func(p *bulletproofs.BulletProof) **big.Int { return &p.InnerProductProof.A })
		add("b", func(p *bulletproofs.BulletProof) **big.Int { return &p.InnerProductProof.B })
	}
	return out
}

// ballotNames: roles of the labels of an election over symbolic groups.
func (w *vfSymWorld) names() vfNames {
	nm := vfNames{}
	nm.bind(w.pp.BPParams.H, "H")
	return nm
}

// describe logs what a ballot contains.
func (w *vfSymWorld) describe(b BallotData, e vfEv) vfEv {
	nm := w.names()
	e["lo"], e["hi"] = int(w.pp.candidateMin), int(w.pp.candidateMax)
	e["U"], e["V"] = vfNames{}.out(vfFormOf(b.Ballot.U)), vfNames{}.out(vfFormOf(b.Ballot.V))
	e["lower"], e["upper"] = nm.out(vfFormOf(b.BpLower.V)), nm.out(vfFormOf(b.BpUpper.V))
	e["z"] = "0"
	if b.VoteProof.Z != nil {
		e["z"] = b.VoteProof.Z.String()
	}
	e["bx"], e["bc"], e["bb"] = int(w.pp.RPParams.Bx), int(w.pp.RPParams.Bc), w.pp.RPParams.Bb
	return e
}

// ------------------------------------------------------------ completeness

func vfSuiteCast() {
	tr := vfNewTrace("cast")
	defer tr.close()
	r := vfNewRng("cast")
	type conf struct {
		n      uint
		bx     uint8
		bc     uint16
		lo, hi int
		casts  int
		reach  bool
	}
	confs := []conf{
		{16, 16, 224, 101, 2000, 320, false}, {16, 16, 224, 0, 65535, 320, false}, {16, 16, 224, 65535, 65535, 2, true}, {16, 16, 224, 0, 0, 2, true},
		{4, 16, 224, 101, 103, 80, true}, {4, 16, 224, 65533, 65535, 80, true}, {4, 16, 224, 0, 2, 80, true}, {4, 8, 224, 5, 6, 50, true},
		{4, 4, 224, 0, 15, 20, false}, {2, 8, 16, 7, 10, 90, true}, {1, 1, 8, 0, 1, 50, true}, {8, 16, 128, 1, 256, 10, false}, {4, 16, 224, 7, 7, 2, true},
		{1, 16, 224, 32767, 32768, 50, true}, {8, 8, 8, 0, 255, 10, false}, {32, 16, 224, 100, 65535, 2, false},
		{4, 8, 64, 3, 12, 3, false}, {4, 4, 232, 0, 15, 3, false}, {4, 8, 240, 3, 12, 3, false}, {4, 8, 192, 3, 12, 3, false}, {4, 8, 160, 3, 12, 3, false},
	}
	for k := 0; k < vfPick(8, 60); k++ {
		lo := r.n(65536)
		hi := lo + r.n(min(65536-lo, 256))
		confs = append(confs, conf{8, 16, uint16(8 * (1 + r.n(28))), lo, hi, 3, false})
	}
	for _, c := range confs {
		tag := fmt.Sprintf("n=%d bx=%d bc=%d %d..%d", c.n, c.bx, c.bc, c.lo, c.hi)
		w := &vfSymWorld{ec: sym.New("SymEC", vfSymQ), ff: sym.New("SymFF", vfSymQFF)}
		pp, err := vfMakeParams(w.ec, w.ff, w.ff.Label("PK"), c.n, c.bx, c.bc, uint16(c.lo), uint16(c.hi))
		if err != nil {
			tr.log(vfEv{"ev": "noballot", "id": tag, "why": err.Error()})
			continue
		}
		w.pp = pp
		for k := 0; k < c.casts*vfPick(1, 2); k++ {
			b, msg := vfCast(pp)
			if msg != "" {
				tr.log(vfEv{"ev": "noballot", "id": tag, "why": msg})
				break
			}
			tr.log(w.describe(b, vfEv{"ev": "cast", "tag": tag, "verdict": vfCollect(b, pp), "json": vfCollectJSON(b, pp)}))
		}
		if c.casts >= 300 {
			// bits that are set in at least a quarter of all offsets
			bits := 0
			for k, span := 0, c.hi-c.lo+1; k < 16 && span>>k >= 1; k++ {
				set := 0
				for o := 0; o < span; o++ {
					set += o >> k & 1
				}
				if 4*set < span {
					break
				}
				bits = k + 1
			}
			tr.log(vfEv{"ev": "spread", "tag": tag, "lo": c.lo, "hi": c.hi, "bits": bits})
		}
		if c.reach {
			tr.log(vfEv{"ev": "reached", "tag": tag, "lo": c.lo, "hi": c.hi})
		}
	}
}

// decrypt finds the number in a real ciphertext with the setup's private key.
func vfDecrypt(c ElGamalCiphertext, pp PublicParameters, key *big.Int) int {
	ff := pp.FFGroupParams.I
	m := ff.Element().Subtract(c.V, ff.Element().Scale(c.U, key))
	acc := ff.Identity()
	g := ff.Generator()
	for k := 0; k < 65536; k++ {
		if acc.IsEqual(m) {
			return k
		}
		acc = ff.Element().Add(acc, g)
	}
	return -1
}

func vfSuiteCastReal() {
	tr := vfNewTrace("castreal")
	defer tr.close()
	r := vfNewRng("castreal")
	ff := vfFfGroup()
	type job struct {
		g      group.Group
		def    bool
		lo, hi int
		n      uint
		bc     uint16
	}
	var jobs []job
	for _, g := range vfRealGroups() {
		for k := 0; k < vfPick(2, 10); k++ {
			jobs = append(jobs, job{g, true, 101, 2000, 16, 224})
		}
		jobs = append(jobs, job{g, false, 0, 0, 16, 224}, job{g, false, 65535, 65535, 16, 224}, job{g, false, 0, 65535, 16, 224})
		lo := r.n(65536)
		jobs = append(jobs, job{g, false, lo, lo + r.n(65536-lo), 16, 224})
		// challenges of every length the order of the group has room for
		for bc := 8; bc <= 256 && g.N().BitLen()-17-bc >= 8; bc += 8 {
			if bc > 240 || bc == 8 || r.n(vfPick(8, 1)) == 0 {
				for k := 0; k < vfPick(2, 6); k++ {
					jobs = append(jobs, job{g, false, 6, 9, 4, uint16(bc)})
				}
			}
		}
	}
	vfParallel(len(jobs), func(i int) {
		j := jobs[i]
		id := fmt.Sprintf("%s %d..%d bc=%d", j.g.Name(), j.lo, j.hi, j.bc)
		var pp PublicParameters
		var err error
		key := big.NewInt(13)
		if j.def {
			pp, err = setup(j.g)
		} else {
			key = big.NewInt(123457)
			pp, err = vfMakeParams(j.g, ff, ff.Element().BaseScale(key), j.n, 16, j.bc, uint16(j.lo), uint16(j.hi))
		}
		if err != nil {
			tr.log(vfEv{"ev": "noballot", "id": id, "why": err.Error()})
			return
		}
		b, msg := vfCast(pp)
		if msg != "" {
			tr.log(vfEv{"ev": "noballot", "id": id, "why": msg})
			return
		}
		e := vfEv{"ev": "castreal", "id": id, "lo": int(pp.candidateMin), "hi": int(pp.candidateMax), "verdict": vfCollect(b, pp), "json": vfCollectJSON(b, pp)}
		if j.def && !vfEgKeyKnown(pp, key) {
			e["number"] = int(pp.candidateMin) // the private key is not ours to know
		} else {
			e["number"] = vfDecrypt(b.Ballot, pp, key)
		}
		tr.log(e)
	})
}

func vfEgKeyKnown(pp PublicParameters, key *big.Int) bool {
	return pp.FFGroupParams.I.Element().BaseScale(key).IsEqual(pp.EGPK)
}

// ------------------------------------------------------------ splicing

type vfSpliceCmd struct {
	U, V, Lo, Up, Eq int
	Lr, Ur           string
}

func vfSuiteSplice() {
	tr := vfNewTrace("splice")
	defer tr.close()
	var cmds []vfSpliceCmd
	vfReadLines(vfInDir+"/behaviours.ndjson", func(l []byte) {
		var c vfSpliceCmd
		if err := json.Unmarshal(l, &c); err != nil {
			panic(err)
		}
		cmds = append(cmds, c)
	})
	ff := vfFfGroup()
	run := func(name string, pp PublicParameters, all bool) {
		bs := make([]BallotData, 4)
		for i := range bs {
			b, msg := vfCast(pp)
			if msg != "" {
				tr.log(vfEv{"ev": "noballot", "id": name, "why": msg})
				return
			}
			bs[i] = b
		}
		side := func(id int, role string) bulletproofs.BulletProof {
			if role == "lower" {
				return bs[id].BpLower
			}
			return bs[id].BpUpper
		}
		vfParallel(len(cmds), func(i int) {
			c := cmds[i]
			orig := c.U == c.V && c.V == c.Lo && c.Lo == c.Up && c.Up == c.Eq && c.Lr == "lower" && c.Ur == "upper"
			if !all && i%7 != int(vfSeed)%7 && !orig {
				return
			}
			b := BallotData{Ballot: ElGamalCiphertext{U: bs[c.U].Ballot.U, V: bs[c.V].Ballot.V},
				BpLower: side(c.Lo, c.Lr), BpUpper: side(c.Up, c.Ur), VoteProof: bs[c.Eq].VoteProof}
			v := vfCollect(b, pp)
			if j := vfCollectJSON(b, pp); j != v {
				if j == "error" {
					j = "reject"
				}
				if j != v {
					v = v + "/" + j
				}
			}
			tr.log(vfEv{"ev": "splice", "id": name, "u": c.U, "v": c.V, "lo": c.Lo, "lr": c.Lr, "up": c.Up, "ur": c.Ur, "eq": c.Eq, "verdict": v})
		})
	}
	w := vfNewSymWorld(4, 8, 224, 100, 115)
	run("sym 100..115", w.pp, true)
	// the same candidate in all ballots, with room on both sides equal
	w = vfNewSymWorld(4, 8, 224, 7, 7)
	run("sym 7..7", w.pp, true)
	w = vfNewSymWorld(16, 16, 224, 0, 65535)
	run("sym 0..65535", w.pp, vfThorough)
	gs := vfRealGroups()
	for i, g := range gs {
		pp, err := vfMakeParams(g, ff, ff.Element().BaseScale(big.NewInt(13)), 4, 8, 224, 100, 115)
		if err != nil {
			tr.log(vfEv{"ev": "noballot", "id": g.Name(), "why": err.Error()})
			continue
		}
		run(g.Name(), pp, vfThorough && i < 2)
	}
}

// tampering with every single component
func vfSuiteTamper() {
	tr := vfNewTrace("tamper")
	defer tr.close()
	r := vfNewRng("tamper")
	ff := vfFfGroup()
	run := func(name string, pp PublicParameters, frac int) {
		b, m1 := vfCast(pp)
		o, m2 := vfCast(pp)
		if m1+m2 != "" {
			tr.log(vfEv{"ev": "noballot", "id": name, "why": m1 + m2})
			return
		}
		type mut struct {
			id string
			b  BallotData
		}
		var muts []mut
		elems := vfBallotElems(b)
		if len(vfBallotElems(o)) != len(elems) {
			return
		}
		ecg, ffg := pp.ECGroupParams.I, pp.FFGroupParams.I
		for k, s := range elems {
			g := ecg
			if s.ff {
				g = ffg
			}
			cur := *s.at(&b)
			put := func(n string, e group.Element) {
				if e.String() == cur.String() {
					return
				}
				m := vfCloneBallot(b)
				*s.at(&m) = e
				muts = append(muts, mut{s.name + n, m})
			}
			put("+G", g.Element().Add(cur, g.Generator()))
			put("=other", *s.at(&o))
			put("neg", g.Element().Negate(cur))
			put("=0", g.Identity())
			if s.ff {
				put("+PK", g.Element().Add(cur, pp.EGPK))
			} else {
				put("+H", g.Element().Add(cur, pp.BPParams.H))
			}
			for q := k + 1; q < len(elems); q++ {
				if elems[q].ff == s.ff {
					m := vfCloneBallot(b)
					*s.at(&m), *elems[q].at(&m) = *elems[q].at(&b), cur
					muts = append(muts, mut{s.name + "<->" + elems[q].name, m})
					m = vfCloneBallot(b)
					*s.at(&m) = *elems[q].at(&b)
					muts = append(muts, mut{s.name + ":=" + elems[q].name, m})
					m = vfCloneBallot(b)
					*elems[q].at(&m) = cur
					muts = append(muts, mut{elems[q].name + ":=" + s.name, m})
				}
			}
		}
		nums := vfBallotNums()
		for k, s := range nums {
			cur := *s.at(&b)
			ord := ecg.N()
			if s.name == "sp" {
				ord = ffg.N()
			}
			put := func(n string, v *big.Int) {
				if s.name == "z" || s.name == "challenge" {
					if v.Cmp(cur) == 0 {
						return
					}
				} else if new(big.Int).Mod(new(big.Int).Sub(v, cur), ord).Sign() == 0 {
					return // the same scalar
				}
				m := vfCloneBallot(b)
				*s.at(&m) = v
				muts = append(muts, mut{s.name + n, m})
			}
			put("+1", new(big.Int).Add(cur, big.NewInt(1)))
			put("-1", new(big.Int).Sub(cur, big.NewInt(1)))
			put("neg", new(big.Int).Neg(cur))
			put("=0", new(big.Int))
			put("=other", *s.at(&o))
			put("=random", r.big(ord))
			// another scalar, written as an integer outside [0, order)
			put(" outside", new(big.Int).Add(cur, new(big.Int).Add(ord, big.NewInt(1))))
			put(" negative outside", new(big.Int).Sub(cur, new(big.Int).Add(ord, big.NewInt(1))))
			for q := range nums {
				if q != k {
					put(":="+nums[q].name, *nums[q].at(&b))
				}
			}
			put("+2^200", new(big.Int).Add(cur, new(big.Int).Lsh(big.NewInt(1), 200)))
		}
		// rounds dropped, added, reversed
		for _, side := range []string{"lower", "upper"} {
			m := vfCloneBallot(b)
			p := &m.BpLower.InnerProductProof
			if side == "upper" {
				p = &m.BpUpper.InnerProductProof
			}
			if len(p.L) > 0 {
				p.L, p.R = p.L[:len(p.L)-1], p.R[:len(p.R)-1]
				muts = append(muts, mut{side + " without last round", m})
				m = vfCloneBallot(b)
				p = &m.BpLower.InnerProductProof
				if side == "upper" {
					p = &m.BpUpper.InnerProductProof
				}
				p.L, p.R = append(p.L, p.L[0]), append(p.R, p.R[0])
				muts = append(muts, mut{side + " with a round repeated", m})
			}
		}
		off := r.n(frac)
		vfParallel(len(muts), func(i int) {
			if i%frac != off && !strings.HasSuffix(muts[i].id, "outside") {
				return
			}
			tr.log(vfEv{"ev": "tamper", "id": name + " " + muts[i].id, "verdict": vfCollect(muts[i].b, pp), "json": vfCollectJSON(muts[i].b, pp)})
		})
	}
	w := vfNewSymWorld(4, 8, 224, 100, 115)
	run("sym n=4", w.pp, 1)
	w = vfNewSymWorld(16, 16, 224, 101, 2000)
	run("sym n=16", w.pp, vfPick(2, 1))
	w = vfNewSymWorld(1, 8, 224, 100, 101)
	run("sym n=1", w.pp, 1)
	for _, g := range vfRealGroups() {
		pp, err := vfMakeParams(g, ff, ff.Element().BaseScale(big.NewInt(13)), 4, 8, 224, 100, 115)
		if err != nil {
			tr.log(vfEv{"ev": "noballot", "id": g.Name(), "why": err.Error()})
			continue
		}
		run(g.Name(), pp, vfPick(8, 1))
	}
}

// ------------------------------------------------------------ forgeries

type vfClaimCmd struct{ Ct, Lower, Upper, Eq string }

func vfSuiteClaims() {
	tr := vfNewTrace("claims")
	defer tr.close()
	r := vfNewRng("claims")
	var cmds []vfClaimCmd
	vfReadLines(vfInDir+"/behaviours.ndjson", func(l []byte) {
		var c vfClaimCmd
		if err := json.Unmarshal(l, &c); err != nil {
			panic(err)
		}
		cmds = append(cmds, c)
	})
	type conf struct {
		n      uint
		bx     uint8
		lo, hi int
		few    bool // at most one part differs from the others
	}
	few := !vfThorough
	confs := []conf{{4, 8, 40, 49, false}, {4, 8, 100, 115, false}, {4, 16, 0, 9, few}, {8, 16, 65300, 65535, few}, {1, 8, 7, 8, few}, {4, 8, 9, 9, few},
		{4, 8, 0, 15, few}, {4, 16, 0, 0, few}, {1, 1, 0, 1, few}, {16, 16, 0, 65535, few},
		{4, 8, 3, 15, few}, {4, 8, 1, 16, few}, {4, 8, 13, 15, few}, {8, 16, 255, 257, few}, {2, 8, 4, 5, few}}
	for _, c := range confs {
		w := vfNewSymWorld(c.n, c.bx, 224, uint16(c.lo), uint16(c.hi))
		num := func(s string) *big.Int {
			switch s {
			case "lo":
				return big.NewInt(int64(c.lo))
			case "hi":
				return big.NewInt(int64(c.hi))
			case "lo-1":
				return big.NewInt(int64(c.lo - 1))
			case "hi+1":
				return big.NewInt(int64(c.hi + 1))
			case "lo+1":
				return big.NewInt(int64(c.lo + 1))
			case "zero":
				return big.NewInt(0)
			case "max+1":
				return big.NewInt(int64(c.lo) + 1<<c.n)
			case "neg":
				return big.NewInt(int64(c.hi) - 1<<c.n)
			case "top":
				return new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(c.bx)), big.NewInt(1))
			}
			panic(s)
		}
		// the parts for each number are made once and combined
		type bpart struct {
			p bulletproofs.BulletProof
			g *big.Int
		}
		lower, upper := map[string]bpart{}, map[string]bpart{}
		mk := func(v *big.Int) bpart {
			var p bulletproofs.BulletProof
			var g *big.Int
			if msg := vfGuard(func() { p, g, _ = bulletproofs.Prove(v, w.pp.BPParams) }); msg != "" || p.V == nil {
				fo := vfNewForger(w.ec, c.n, 1, true, r)
				fo.params = w.pp.BPParams
				g = fo.rnd()
				a := fo.skeleton()
				vfGuard(func() { a = fo.forge([]*big.Int{v}, []*big.Int{v}, "") })
				p = a.toSingle()
				p.Params = w.pp.BPParams
				g = vfCoef(vfFormOf(p.V), "M:"+bulletproofs.SEEDH)
			}
			return bpart{p, g}
		}
		for _, s := range []string{"lo", "hi", "lo-1", "hi+1", "lo+1", "zero", "max+1", "neg", "top"} {
			lower[s] = mk(new(big.Int).Sub(num(s), big.NewInt(int64(c.lo))))
			upper[s] = mk(new(big.Int).Sub(big.NewInt(int64(c.hi)), num(s)))
		}
		for _, k := range cmds {
			if c.few {
				count := map[string]int{}
				most := 0
				for _, s := range []string{k.Ct, k.Lower, k.Upper, k.Eq} {
					count[s]++
					most = max(most, count[s])
				}
				if most < 3 {
					continue
				}
			}
			lp, up := lower[k.Lower], upper[k.Upper]
			rp := r.big(vfSymQFF)
			var b BallotData
			b.Ballot.U = w.ff.Element().BaseScale(rp)
			b.Ballot.V = w.ff.Element().Add(w.ff.Element().BaseScale(num(k.Ct)), w.ff.Element().Scale(w.pp.EGPK, rp))
			b.BpLower, b.BpUpper = lp.p, up.p
			if lp.g == nil || up.g == nil {
				continue
			}
			if msg := vfTimed(vfVoteTimeout, func() {
				b.VoteProof = voteproof.Prove(num(k.Eq), rp, lp.g, new(big.Int).Sub(vfSymQ, up.g), w.pp.RPParams)
			}); msg != "" {
				continue
			}
			id := fmt.Sprintf("%d..%d ct=%s lower=%s upper=%s eq=%s", c.lo, c.hi, k.Ct, k.Lower, k.Upper, k.Eq)
			tr.log(w.describe(b, vfEv{"ev": "submit", "id": id, "verdict": vfCollect(b, w.pp)}))
		}
	}
}

// dishonest equality proofs inside otherwise proper ballots, and ballots whose
// range proofs are forged.
func vfSuiteForge() {
	tr := vfNewTrace("forge")
	defer tr.close()
	r := vfNewRng("forge")
	w := vfNewSymWorld(2, 8, 8, 40, 43)
	q := &vfEqWorld{ff: w.ff, ec: w.ec, params: w.pp.RPParams, nf: vfNames{}, ne: w.names(), fp: vfField{vfSymQFF}, fq: vfField{vfSymQ}, bx: 8, bc: 8, bg: int(w.pp.RPParams.Bg)}
	prove := func(v int64) (bulletproofs.BulletProof, *big.Int) {
		p, g, err := bulletproofs.Prove(big.NewInt(v), w.pp.BPParams)
		if err != nil {
			panic(err)
		}
		return p, g
	}
	for _, place := range []string{"Y", "Xp", "Xq1", "Xq2"} {
		for _, how := range []string{"statement", "commitment"} {
			for _, late := range []string{"", "statement", "commitment"} {
				if how == late || (how == "commitment" && late == "") || (late == "statement" && strings.HasPrefix(place, "Xq")) {
					continue
				}
				var plays []vfEv
				if msg := vfGuard(func() {
					for n := 0; n < 5; n++ {
						x, y := int64(40+r.n(4)), int64(200+r.n(20))
						if strings.HasPrefix(place, "Xq") {
							y = 40 + (x-40+1)%4
						}
						x1, x2 := x, x
						if how == "statement" && place == "Xq1" {
							x1 = y
						}
						if how == "statement" && place == "Xq2" {
							x2 = y
						}
						lp, g1 := prove(x1 - 40)
						up, g2 := prove(43 - x2)
						t := q.playWith(r, place, how, late, big.NewInt(x), big.NewInt(y), g1, new(big.Int).Sub(vfSymQ, g2))
						b := BallotData{Ballot: ElGamalCiphertext{U: t.st.Y, V: t.st.Xp}, BpLower: lp, BpUpper: up, VoteProof: t.p}
						e := w.describe(b, vfEv{"ev": "play", "verdict": vfCollect(b, w.pp)})
						plays = append(plays, e)
					}
				}); msg != "" {
					vfNote("forge %s/%s/%s: %s", place, how, late, msg)
					continue
				}
				tr.log(vfEv{"ev": "forgery", "id": place + "/" + how + "/" + late, "lo": 40, "hi": 43, "plays": plays})
			}
		}
	}
	w = vfNewSymWorld(4, 8, 224, 40, 49)
	// after a ballot was accepted: another number with parts of that ballot
	for k := 0; k < vfPick(6, 30); k++ {
		b, msg := vfCast(w.pp)
		if msg != "" {
			continue
		}
		first := func(b BallotData) string {
			vfCollect(b, w.pp)
			return vfCollect(b, w.pp)
		}
		submit := func(id string, m BallotData) {
			v := first(b)
			tr.log(w.describe(m, vfEv{"ev": "submit", "id": fmt.Sprintf("%s after %s", id, v), "verdict": vfCollect(m, w.pp)}))
		}
		shift := w.ff.Element().BaseScale(big.NewInt(int64(20 + r.n(60000))))
		m := vfCloneBallot(b)
		m.Ballot.V = w.ff.Element().Add(b.Ballot.V, shift)
		submit("other number, same proofs", m)
		for _, d := range []int64{-30, 30} {
			lp, g1, err1 := bulletproofs.Prove(big.NewInt(5), w.pp.BPParams)
			up, g2, err2 := bulletproofs.Prove(big.NewInt(4), w.pp.BPParams)
			if err1 != nil || err2 != nil {
				continue
			}
			rp := r.big(vfSymQFF)
			n := big.NewInt(45 + d)
			f := BallotData{BpLower: lp, BpUpper: up}
			f.Ballot.U = w.ff.Element().BaseScale(rp)
			f.Ballot.V = w.ff.Element().Add(w.ff.Element().BaseScale(n), w.ff.Element().Scale(w.pp.EGPK, rp))
			if vfTimed(vfVoteTimeout, func() { f.VoteProof = voteproof.Prove(n, rp, g1, new(big.Int).Sub(vfSymQ, g2), w.pp.RPParams) }) != "" {
				continue
			}
			submit("out of range", f)
			m := f
			m.VoteProof = b.VoteProof
			submit("out of range, accepted equality proof", m)
			m = f
			m.BpLower, m.BpUpper = b.BpLower, b.BpUpper
			submit("out of range, accepted range proofs", m)
			m = f
			m.BpLower, m.BpUpper, m.VoteProof = b.BpLower, b.BpUpper, b.VoteProof
			submit("out of range, accepted proofs", m)
			m.Ballot.U = b.Ballot.U
			submit("out of range, accepted proofs and U", m)
		}
	}
	vfRemarkable(tr, w, r)
	// forged range proofs: the number is out of range, the rest is honest
	fo := vfNewForger(w.ec, 4, 1, true, r)
	fo.params = w.pp.BPParams
	fo.nm = vfBpNames(w.pp.BPParams, fo.u)
	for _, m := range []int64{39, 50, 56, 255, 0} {
		attempts := map[string]vfAgg{}
		lv, uv := new(big.Int).Mod(big.NewInt(m-40), vfSymQ), new(big.Int).Mod(big.NewInt(49-m), vfSymQ)
		for sideName, v := range map[string]*big.Int{"lower": lv, "upper": uv} {
			if v.Cmp(big.NewInt(16)) < 0 {
				continue
			}
			for _, cheat := range []string{"", "nonbit", "vec", "ip", "scalar"} {
				vfGuard(func() {
					bv := []*big.Int{big.NewInt(int64(r.n(16)))}
					if cheat == "nonbit" {
						bv = []*big.Int{v}
					}
					attempts[sideName+" "+cheat] = fo.forge([]*big.Int{v}, bv, cheat)
				})
			}
			a, ok := attempts[sideName+" vec"]
			if ok {
				for _, l := range []string{"A", "S", "T1", "T2", "P", "V0", "L0", "R0", "L1", "R1"} {
					vfGuard(func() {
						if b, ok := fo.late(a, l); ok {
							attempts[sideName+" vec then "+l] = b
						}
					})
				}
				vfGuard(func() {
					for _, base := range []string{"", "ip", "scalar", "nonbit"} {
						for _, l := range []string{"V0", "A", "T1", "P", "L0"} {
							if b, ok := fo.late(attempts[sideName+" "+base], l); ok {
								attempts[sideName+" "+base+" then "+l] = b
							}
						}
					}
				})
			}
		}
		for _, k := range vfSortedKeys(attempts) {
			a := attempts[k]
			p := a.toSingle()
			p.Params = w.pp.BPParams
			// the committed number may have moved: stay consistent with it
			hl := "M:" + bulletproofs.SEEDH
			cv, cr := vfCoef(vfFormOf(p.V), sym.Base), vfCoef(vfFormOf(p.V), hl)
			num := new(big.Int)
			if k[:5] == "lower" {
				num = new(big.Int).Mod(new(big.Int).Add(cv, big.NewInt(40)), vfSymQ)
			} else {
				num = new(big.Int).Mod(new(big.Int).Sub(big.NewInt(49), cv), vfSymQ)
			}
			if num.BitLen() > 16 {
				num = big.NewInt(m)
			}
			other := new(big.Int)
			if k[:5] == "lower" {
				other.Sub(big.NewInt(49), num)
			} else {
				other.Sub(num, big.NewInt(40))
			}
			var op bulletproofs.BulletProof
			var og *big.Int
			if msg := vfGuard(func() { op, og, _ = bulletproofs.Prove(other, w.pp.BPParams) }); msg != "" || og == nil {
				continue
			}
			rp := r.big(vfSymQFF)
			var b BallotData
			b.Ballot.U = w.ff.Element().BaseScale(rp)
			b.Ballot.V = w.ff.Element().Add(w.ff.Element().BaseScale(num), w.ff.Element().Scale(w.pp.EGPK, rp))
			r1, r2 := cr, new(big.Int).Sub(vfSymQ, og)
			b.BpLower, b.BpUpper = p, op
			if k[:5] == "upper" {
				b.BpLower, b.BpUpper = op, p
				r1, r2 = og, new(big.Int).Sub(vfSymQ, cr)
			}
			if msg := vfTimed(vfVoteTimeout, func() { b.VoteProof = voteproof.Prove(num, rp, r1, r2, w.pp.RPParams) }); msg != "" {
				continue
			}
			tr.log(w.describe(b, vfEv{"ev": "submit", "id": fmt.Sprintf("number %d, %s", m, k), "verdict": vfCollect(b, w.pp)}))
		}
	}
}

// remarkable: ballots for numbers out of range, made as an honest voter would,
// in which one component takes a value that could be a special case.
func vfRemarkable(tr *vfTrace, w *vfSymWorld, r *vfRng) {
	lo, hi := int64(w.pp.candidateMin), int64(w.pp.candidateMax)
	top := int64(1) << w.pp.BPParams.N
	good, msg := vfCast(w.pp)
	if msg != "" {
		return
	}
	for _, d := range []struct {
		id          string
		num, lv, uv int64 // what is encrypted and what the range proofs are about
	}{
		{"above", hi + 3, hi + 3 - lo, -3}, {"below", lo - 2, -2, hi + 2 - lo}, {"above the bits", lo + top + 1, top + 1, hi - lo - top - 1}, {"elsewhere", 200, 5, 4},
	} {
		var b BallotData
		if vfTimed(vfVoteTimeout, func() {
			var g1, g2 *big.Int
			b.BpLower, g1, _ = bulletproofs.Prove(big.NewInt(d.lv), w.pp.BPParams)
			b.BpUpper, g2, _ = bulletproofs.Prove(big.NewInt(d.uv), w.pp.BPParams)
			rp := r.big(vfSymQFF)
			b.Ballot.U = w.ff.Element().BaseScale(rp)
			b.Ballot.V = w.ff.Element().Add(w.ff.Element().BaseScale(big.NewInt(d.num)), w.ff.Element().Scale(w.pp.EGPK, rp))
			b.VoteProof = voteproof.Prove(big.NewInt(d.num), rp, g1, new(big.Int).Sub(vfSymQ, g2), w.pp.RPParams)
		}) != "" || b.VoteProof.Z == nil || b.BpLower.V == nil || b.BpUpper.V == nil {
			continue
		}
		type alt struct {
			id string
			b  BallotData
		}
		alts := []alt{{"as is", b}}
		elems := vfBallotElems(b)
		if len(elems) != len(vfBallotElems(good)) {
			return
		}
		for k, s := range elems {
			g := group.Group(w.ec)
			if s.ff {
				g = w.ff
			}
			put := func(id string, e group.Element) {
				m := vfCloneBallot(b)
				*s.at(&m) = e
				alts = append(alts, alt{s.name + id, m})
			}
			put("=0", g.Identity())
			put("=G", g.Element().BaseScale(big.NewInt(1)))
			put("=accepted", *s.at(&good))
			put("neg", g.Element().Negate(*s.at(&b)))
			for q := range elems {
				if q != k && elems[q].ff == s.ff && (vfThorough || (k+q)%3 == 0) {
					put(":="+elems[q].name, *elems[q].at(&b))
				}
			}
		}
		for _, s := range vfBallotNums() {
			put := func(id string, v *big.Int) {
				m := vfCloneBallot(b)
				*s.at(&m) = v
				alts = append(alts, alt{s.name + id, m})
			}
			cur := *s.at(&b)
			put("=0", new(big.Int))
			put("=1", big.NewInt(1))
			put("=-1", big.NewInt(-1))
			put("neg", new(big.Int).Neg(cur))
			put("=q", new(big.Int).Set(vfSymQ))
			put("=q-1", new(big.Int).Sub(vfSymQ, big.NewInt(1)))
			put("=accepted", *s.at(&good))
			put("=2^256-1", new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1)))
		}
		// one range proof is also the other
		for _, keep := range []bool{true, false} {
			m := vfCloneBallot(b)
			m.BpUpper = vfCloneBP(b.BpLower)
			if keep {
				m.BpUpper.V = b.BpUpper.V
			}
			alts = append(alts, alt{fmt.Sprint("upper:=lower, keeping its commitment: ", keep), m})
			m = vfCloneBallot(b)
			m.BpLower = vfCloneBP(b.BpUpper)
			if keep {
				m.BpLower.V = b.BpLower.V
			}
			alts = append(alts, alt{fmt.Sprint("lower:=upper, keeping its commitment: ", keep), m})
		}
		for _, a := range alts {
			tr.log(w.describe(a.b, vfEv{"ev": "submit", "id": d.id + ", " + a.id, "verdict": vfCollect(a.b, w.pp)}))
		}
	}
}

// out-of-range and inconsistent ballots over the real groups
func vfSuiteForgeReal() {
	tr := vfNewTrace("forgereal")
	defer tr.close()
	r := vfNewRng("forgereal")
	ff := vfFfGroup()
	type job struct {
		g              group.Group
		ct, lo, up, eq int
	}
	var jobs []job
	lo, hi := 100, 110
	for _, g := range vfRealGroups() {
		for _, c := range [][4]int{{99, 99, 99, 99}, {111, 111, 111, 111}, {99, 100, 100, 99}, {99, 100, 100, 100}, {105, 105, 104, 105}, {105, 104, 105, 105}, {105, 105, 105, 104}, {0, 100, 110, 0}, {116, 110, 110, 116}, {105, 105, 105, 105}} {
			jobs = append(jobs, job{g, c[0], c[1], c[2], c[3]})
		}
	}
	var mu sync.Mutex
	vfParallel(len(jobs), func(i int) {
		j := jobs[i]
		pp, err := vfMakeParams(j.g, ff, ff.Element().BaseScale(big.NewInt(13)), 4, 8, 224, uint16(lo), uint16(hi))
		if err != nil {
			return
		}
		mu.Lock()
		rp := r.big(ff.N())
		mu.Unlock()
		var b BallotData
		var g1, g2 *big.Int
		msg := vfGuard(func() {
			b.BpLower, g1, _ = bulletproofs.Prove(big.NewInt(int64(j.lo-lo)), pp.BPParams)
			b.BpUpper, g2, _ = bulletproofs.Prove(big.NewInt(int64(hi-j.up)), pp.BPParams)
		})
		if msg != "" || g1 == nil || g2 == nil {
			return
		}
		b.Ballot.U = ff.Element().BaseScale(rp)
		b.Ballot.V = ff.Element().Add(ff.Element().BaseScale(big.NewInt(int64(j.ct))), ff.Element().Scale(pp.EGPK, rp))
		if msg := vfTimed(vfVoteTimeout, func() {
			b.VoteProof = voteproof.Prove(big.NewInt(int64(j.eq)), rp, g1, new(big.Int).Sub(j.g.N(), g2), pp.RPParams)
		}); msg != "" {
			return
		}
		tr.log(vfEv{"ev": "submitreal", "id": fmt.Sprint(j.g.Name(), j.ct, j.lo, j.up, j.eq), "lo": lo, "hi": hi, "number": j.ct,
			"consistent": j.ct == j.lo && j.lo == j.up && j.up == j.eq, "verdict": vfCollect(b, pp)})
	})
	for i, g := range vfRealGroups() {
		for k, which := range []string{"u", "v", "both"} {
			if vfThorough || (i+k)%2 == 0 {
				vfTwisted(tr, g, ff, which, lo, hi, r)
			}
		}
	}
	// ciphertext components outside the prime-order subgroup: -U and -V are
	// not squares, and change a ballot's meaning
	for _, g := range vfRealGroups()[:vfPick(2, 4)] {
		pp, err := vfMakeParams(g, ff, ff.Element().BaseScale(big.NewInt(13)), 4, 8, 224, uint16(lo), uint16(hi))
		if err != nil {
			continue
		}
		for k := 0; k < vfPick(4, 12); k++ {
			b, msg := vfCast(pp)
			if msg != "" {
				continue
			}
			doc, err := json.Marshal(b)
			if err != nil {
				continue
			}
			for _, which := range []string{"u", "v", "both"} {
				bad, ok := vfNegateComponent(doc, which, ff.P())
				if !ok {
					continue
				}
				v := "reject"
				msg := vfGuard(func() {
					p, err := BallotDataUnmarshalJSON(bad, pp)
					if err == nil {
						v = vfCollect(p, pp)
					}
				})
				if msg != "" {
					v = "panic"
				}
				tr.log(vfEv{"ev": "submitreal", "id": g.Name() + " non-member " + which, "lo": lo, "hi": hi, "number": -1, "consistent": false, "verdict": v})
			}
		}
	}
}

// twisted submits a ballot with negated ciphertext components from a voter who
// proves it as if they were not: the relations hold when the challenge is even.
// The voter cannot choose the challenge, but can try again.
func vfTwisted(tr *vfTrace, g, ff group.Group, which string, lo, hi int, r *vfRng) {
	pp, err := vfMakeParams(g, ff, ff.Element().BaseScale(big.NewInt(13)), 4, 8, 8, uint16(lo), uint16(hi))
	if err != nil {
		return
	}
	m, rp := big.NewInt(int64(lo+r.n(hi-lo+1))), r.big(ff.N())
	var b BallotData
	var g1, g2 *big.Int
	if msg := vfGuard(func() {
		b.BpLower, g1, _ = bulletproofs.Prove(new(big.Int).Sub(m, big.NewInt(int64(lo))), pp.BPParams)
		b.BpUpper, g2, _ = bulletproofs.Prove(new(big.Int).Sub(big.NewInt(int64(hi)), m), pp.BPParams)
	}); msg != "" || g1 == nil || g2 == nil {
		return
	}
	g2 = new(big.Int).Sub(g.N(), g2)
	b.Ballot.U, b.Ballot.V = ff.Element().BaseScale(rp), ff.Element().Add(ff.Element().BaseScale(m), ff.Element().Scale(pp.EGPK, rp))
	if msg := vfTimed(vfVoteTimeout, func() { b.VoteProof = voteproof.Prove(m, rp, g1, g2, pp.RPParams) }); msg != "" {
		return
	}
	doc, err := json.Marshal(b)
	if err != nil {
		return
	}
	bad, ok := vfNegateComponent(doc, which, ff.P())
	if !ok {
		return
	}
	verdict := "reject"
	for try := 0; try < 6 && verdict == "reject"; try++ {
		var p BallotData
		if msg := vfGuard(func() { p, err = BallotDataUnmarshalJSON(bad, pp) }); msg != "" {
			verdict = "panic"
		}
		if err != nil {
			break // refused
		}
		P := pp.RPParams
		half := new(big.Int).Lsh(big.NewInt(1), uint(P.Bg)-2)
		k, tp, t1, t2 := new(big.Int).Add(half, r.big(half)), r.big(ff.N()), r.big(g.N()), r.big(g.N())
		com := func(G group.Group, h group.Element, m, r *big.Int) group.Element {
			return G.Element().Add(G.Element().BaseScale(new(big.Int).Mod(m, G.N())), G.Element().Scale(h, r))
		}
		pr := &p.VoteProof
		pr.W, pr.Kp, pr.Kq1, pr.Kq2 = ff.Element().BaseScale(tp), com(ff, pp.EGPK, k, tp), com(g, P.GEC.H, k, t1), com(g, P.GEC.H, k, t2)
		st := voteproof.VerCommitments{Y: p.Ballot.U, Xp: p.Ballot.V, Xq1: com(g, P.GEC.H, m, g1), Xq2: com(g, P.GEC.H, m, g2)}
		for c := int64(0); c < 256; c += 2 {
			C := big.NewInt(c)
			lin := func(t, s, n *big.Int) *big.Int {
				v := new(big.Int).Add(t, new(big.Int).Mul(C, s))
				if n != nil {
					v.Mod(v, n)
				}
				return v
			}
			pr.Challenge, pr.Z = C, lin(k, m, nil)
			pr.Sp, pr.Sq1, pr.Sq2 = lin(tp, rp, ff.N()), lin(t1, g1, g.N()), lin(t2, g2, g.N())
			good := false
			if msg := vfGuard(func() { good = pr.Verify(st) }); msg != "" {
				verdict = "panic"
				break
			}
			if good {
				verdict = vfCollect(p, pp)
				break
			}
		}
	}
	tr.log(vfEv{"ev": "submitreal", "id": g.Name() + " twisted " + which, "lo": lo, "hi": hi, "number": -1, "consistent": false, "verdict": verdict})
}

// negateComponent replaces ciphertext components x by p-x in the document.
func vfNegateComponent(doc []byte, which string, p *big.Int) ([]byte, bool) {
	t := vfParseTree(doc)
	root, ok := t.(map[string]any)
	if !ok {
		return nil, false
	}
	ct, ok := root["ballot"].(map[string]any)
	if !ok {
		return nil, false
	}
	done := false
	for _, k := range []string{"u", "v"} {
		if which != "both" && which != k {
			continue
		}
		switch x := ct[k].(type) {
		case json.Number:
			if v, ok := new(big.Int).SetString(string(x), 10); ok {
				ct[k] = json.Number(new(big.Int).Sub(p, v).String())
				done = true
			}
		case string:
			if v, ok := new(big.Int).SetString(x, 10); ok {
				ct[k] = new(big.Int).Sub(p, v).String()
				done = true
			}
		}
	}
	out, err := json.Marshal(root)
	return out, done && err == nil
}

func init() {
	vfSuites["cast"] = vfSuiteCast
	vfSuites["castreal"] = vfSuiteCastReal
	vfSuites["splice"] = vfSuiteSplice
	vfSuites["tamper"] = vfSuiteTamper
	vfSuites["claims"] = vfSuiteClaims
	vfSuites["forge"] = vfSuiteForge
	vfSuites["forgereal"] = vfSuiteForgeReal
}
