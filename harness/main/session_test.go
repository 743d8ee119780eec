package main

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
)

// Histories of operations on shared parameters and objects.

type vfSessOp struct {
	T   int    `json:"t"`
	Op  string `json:"op"`
	P   string `json:"p"`
	O   string `json:"o"`
	Arg int    `json:"arg"`
	New string `json:"new"`
}

type vfSessObj struct {
	kind   string // bp, multi, eq, ballot
	pp     *PublicParameters
	bp     bulletproofs.BulletProof
	multi  bulletproofs.MultiBulletProof
	eq     vfEqTranscript
	ballot BallotData
}

type vfSession struct {
	mu     sync.Mutex
	tr     *vfTrace
	params map[string]*PublicParameters
	objs   map[string]*vfSessObj
	inputs map[string]func() string
	groups []group.Group
	ff     group.Group
}

func vfDigest(parts ...string) string {
	h := sha256.Sum256([]byte(strings.Join(parts, "|")))
	return hex.EncodeToString(h[:8])
}

func vfMapDigest(m map[string]string) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []string
	for _, k := range ks {
		out = append(out, k, m[k])
	}
	return vfDigest(out...)
}

func vfBpParamsPrint(p bulletproofs.BulletProofSetupParams) string {
	parts := []string{fmt.Sprint(p.N), vfElemString(p.G), vfElemString(p.H)}
	for i := range p.Gg {
		parts = append(parts, vfElemString(p.Gg[i]))
	}
	for i := range p.Hh {
		parts = append(parts, vfElemString(p.Hh[i]))
	}
	return vfDigest(parts...)
}

func vfGroupParamsPrint(p voteproof.GroupParameters) string {
	return vfDigest(vfElemString(p.G), vfElemString(p.H), vfNumString(p.N), vfNumString(p.F))
}

func vfPpPrint(pp *PublicParameters) string {
	r := pp.RPParams
	return vfDigest(vfGroupParamsPrint(pp.FFGroupParams), vfGroupParamsPrint(pp.ECGroupParams), vfElemString(pp.EGPK),
		fmt.Sprint(pp.candidateMin, pp.candidateMax), vfBpParamsPrint(pp.BPParams),
		fmt.Sprint(r.Bx, r.Bc, r.Bg, r.Bb, r.RangeLo, r.RangeHi), vfGroupParamsPrint(r.GFF), vfGroupParamsPrint(r.GEC))
}

func vfGroupPrint(g group.Group) string {
	return vfDigest(g.Name(), vfElemString(g.Generator()), vfElemString(g.Identity()), vfElemString(g.Element()), vfNumString(g.N()), vfNumString(g.P()))
}

func (o *vfSessObj) print() string {
	m := map[string]string{}
	switch o.kind {
	case "bp":
		vfBpParts(m, "", o.bp)
		m["params"] = vfBpParamsPrint(o.bp.Params)
	case "multi":
		p := o.multi
		vfBpParts(m, "", bulletproofs.BulletProof{V: p.A, A: p.A, S: p.S, T1: p.T1, T2: p.T2, Taux: p.Taux, Mu: p.Mu, Tprime: p.Tprime, InnerProductProof: p.InnerProductProof})
		for i, v := range p.Vs {
			m[fmt.Sprint("V", i)] = vfElemString(v)
		}
		m["params"] = vfBpParamsPrint(p.Params)
	case "eq":
		vfEqParts(m, "", o.eq.p)
		m["st"] = vfElemString(o.eq.st.Y) + vfElemString(o.eq.st.Xp) + vfElemString(o.eq.st.Xq1) + vfElemString(o.eq.st.Xq2)
	case "ballot":
		m = vfBallotParts(o.ballot)
		m["params"] = vfBpParamsPrint(o.ballot.BpLower.Params) + vfBpParamsPrint(o.ballot.BpUpper.Params)
	}
	return vfMapDigest(m)
}

func (s *vfSession) print() {
	things := map[string]string{}
	for k, p := range s.params {
		things["params "+k] = vfPpPrint(p)
	}
	for k, o := range s.objs {
		things["object "+k] = o.print()
	}
	for k, f := range s.inputs {
		things["input "+k] = f()
	}
	for _, g := range append(append([]group.Group{}, s.groups...), s.ff) {
		things["group "+g.Name()] = vfGroupPrint(g)
	}
	s.tr.log(vfEv{"ev": "print", "things": things})
}

func (s *vfSession) input(name string, f func() string) {
	s.mu.Lock()
	s.inputs[name] = f
	s.mu.Unlock()
	s.tr.log(vfEv{"ev": "given", "name": "input " + name, "print": f()})
}

func (s *vfSession) obj(name string) *vfSessObj {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.objs[name]
}

func (s *vfSession) pp(name string) *PublicParameters {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.params[name]
}

func vfPlusG(g group.Group, e group.Element) group.Element { return g.Element().Add(e, g.Generator()) }
func vfPlus1(v *big.Int) *big.Int                          { return new(big.Int).Add(v, big.NewInt(1)) }

func vfAlterBP(p bulletproofs.BulletProof, g group.Group, a int) bulletproofs.BulletProof {
	p = vfCloneBP(p)
	switch a {
	case 0:
		p.V = vfPlusG(g, p.V)
	case 1:
		p.A = vfPlusG(g, p.A)
	case 2:
		p.T1 = vfPlusG(g, p.T1)
	case 3:
		p.Mu = vfPlus1(p.Mu)
	case 4:
		p.Tprime = vfPlus1(p.Tprime)
	default:
		p.InnerProductProof.L[0] = vfPlusG(g, p.InnerProductProof.L[0])
	}
	return p
}

func (o *vfSessObj) alter(a int) *vfSessObj {
	n := *o
	ec, ff := o.pp.ECGroupParams.I, o.pp.FFGroupParams.I
	switch o.kind {
	case "bp":
		n.bp = vfAlterBP(o.bp, ec, a)
	case "multi":
		n.multi.Vs = append([]group.Element(nil), o.multi.Vs...)
		switch a {
		case 0:
			n.multi.Vs[len(n.multi.Vs)-1] = vfPlusG(ec, n.multi.Vs[len(n.multi.Vs)-1])
		case 1:
			n.multi.A = vfPlusG(ec, n.multi.A)
		case 2:
			n.multi.T1 = vfPlusG(ec, n.multi.T1)
		case 3:
			n.multi.Mu = vfPlus1(n.multi.Mu)
		case 4:
			n.multi.Tprime = new(big.Int).Neg(vfPlus1(n.multi.Tprime))
		default:
			n.multi.S = vfPlusG(ec, n.multi.S)
		}
	case "eq":
		switch a {
		case 0:
			n.eq.p.W = vfPlusG(ff, n.eq.p.W)
		case 1:
			n.eq.p.Kq1 = vfPlusG(ec, n.eq.p.Kq1)
		case 2:
			n.eq.p.Z = new(big.Int).Neg(n.eq.p.Z)
		case 3:
			n.eq.p.Sp = vfPlus1(n.eq.p.Sp)
		case 4:
			n.eq.p.Challenge = vfPlus1(n.eq.p.Challenge)
		default:
			n.eq.st.Y = vfPlusG(ff, n.eq.st.Y)
		}
	case "ballot":
		n.ballot = vfCloneBallot(o.ballot)
		switch a {
		case 0:
			n.ballot.Ballot.U = vfPlusG(ff, n.ballot.Ballot.U)
		case 1:
			n.ballot.BpLower = vfAlterBP(n.ballot.BpLower, ec, 0)
		case 2:
			n.ballot.BpUpper = vfAlterBP(n.ballot.BpUpper, ec, 3)
		case 3:
			n.ballot.VoteProof.Z = new(big.Int).Neg(n.ballot.VoteProof.Z)
		case 4:
			n.ballot.VoteProof.Sq2 = vfPlus1(n.ballot.VoteProof.Sq2)
		default:
			n.ballot.VoteProof.Kp = vfPlusG(ff, n.ballot.VoteProof.Kp)
		}
	}
	return &n
}

func (o *vfSessObj) verify() string {
	switch o.kind {
	case "bp":
		p := o.bp // the value is copied, the elements are shared
		ok, _ := p.Verify()
		return vfVerdictOf(ok)
	case "multi":
		p := o.multi
		ok, _ := p.Verify()
		return vfVerdictOf(ok)
	case "eq":
		return vfVerdictOf(o.eq.p.Verify(o.eq.st))
	}
	ok, _ := verifyVote(o.ballot, o.pp.RPParams)
	return vfVerdictOf(ok)
}

func vfVerdictOf(ok bool) string {
	if ok {
		return "accept"
	}
	return "reject"
}

// run performs one operation on the real code.
func (s *vfSession) run(op vfSessOp) (res string) {
	put := func(o *vfSessObj) {
		s.mu.Lock()
		s.objs[op.New] = o
		s.mu.Unlock()
	}
	msg := vfGuard(func() {
		switch op.Op {
		case "setup":
			bits := uint(4) // ten times the bits may be added to the group's number
			if op.Arg >= 10 {
				bits = uint(op.Arg / 10)
			}
			pp, err := vfMakeParams(s.groups[op.Arg%10], s.ff, s.ff.Element().BaseScale(big.NewInt(13)), bits, 8, 224, 100, uint16(99+min(16, 1<<bits)))
			if err != nil {
				res = err.Error()
				return
			}
			s.mu.Lock()
			s.params[op.New] = &pp
			s.mu.Unlock()
		case "prove":
			pp := s.pp(op.P)
			v := big.NewInt(int64(op.Arg*3) % (1 << min(pp.BPParams.N, 16)))
			s.input(op.New, func() string { return v.String() })
			p, gamma, err := bulletproofs.Prove(v, pp.BPParams)
			if err != nil {
				res = err.Error()
				return
			}
			s.input(op.New+" gamma", func() string { return gamma.String() })
			put(&vfSessObj{kind: "bp", pp: pp, bp: p})
		case "multi":
			pp := s.pp(op.P)
			m := min([]int{1, 2, 4, 2, 1, 4}[op.Arg], int(pp.BPParams.N))
			vs := make([]*big.Int, m)
			for j := range vs {
				vs[j] = big.NewInt(int64((j + op.Arg) % 2))
			}
			s.input(op.New, func() string { return fmt.Sprint(vfStrs(vs)) })
			p, _, err := bulletproofs.MultiProve(vs, pp.BPParams)
			if err != nil {
				res = err.Error()
				return
			}
			put(&vfSessObj{kind: "multi", pp: pp, multi: p})
		case "equal":
			pp := s.pp(op.P)
			g := pp.ECGroupParams.I
			x := big.NewInt(int64(100 + op.Arg))
			r := vfNewRng(fmt.Sprint("session", op.New))
			rp, rq1, rq2 := r.big(s.ff.N()), r.big(g.N()), r.big(g.N())
			s.input(op.New, func() string { return fmt.Sprint(x, rp, rq1, rq2) })
			var t vfEqTranscript
			P := pp.RPParams
			t.st.Y = s.ff.Element().BaseScale(rp)
			t.st.Xp = s.ff.Element().Add(s.ff.Element().BaseScale(x), s.ff.Element().Scale(P.GFF.H, rp))
			com := func(r *big.Int) group.Element {
				return g.Element().Add(g.Element().BaseScale(x), g.Element().Scale(P.GEC.H, r))
			}
			t.st.Xq1, t.st.Xq2 = com(rq1), com(rq2)
			t.p = voteproof.Prove(x, rp, rq1, rq2, P)
			put(&vfSessObj{kind: "eq", pp: pp, eq: t})
		case "cast":
			pp := s.pp(op.P)
			b, m := vfCast(*pp)
			if m != "" {
				res = m
				return
			}
			put(&vfSessObj{kind: "ballot", pp: pp, ballot: b})
		case "encrypt":
			pp := s.pp(op.P)
			encryptVote(uint16(100+op.Arg), pp.EGPK, pp.FFGroupParams.I)
		case "alter":
			put(s.obj(op.O).alter(op.Arg))
		case "marshal", "parse":
			o := s.obj(op.O)
			n := *o
			var doc []byte
			var err error
			switch o.kind {
			case "bp":
				doc, err = json.Marshal(o.bp)
			case "multi":
				doc, err = json.Marshal(o.multi)
			case "eq":
				doc, err = json.Marshal(o.eq.p)
			case "ballot":
				doc, err = json.Marshal(o.ballot)
			}
			if err != nil {
				res = err.Error()
				return
			}
			if op.Op == "marshal" {
				break
			}
			s.input(op.New+" doc", func() string { return vfDigest(string(doc)) })
			switch o.kind {
			case "bp":
				n.bp, err = bulletproofs.BulletProofUnmarshalJSON(doc, o.pp.BPParams)
			case "eq":
				n.eq.p, err = voteproof.ProofUnmarshalJSON(doc, o.pp.FFGroupParams.I, o.pp.ECGroupParams.I)
			case "ballot":
				n.ballot, err = BallotDataUnmarshalJSON(doc, *o.pp)
			}
			if err != nil {
				res = err.Error()
				return
			}
			put(&n)
		case "verify":
			res = s.obj(op.O).verify()
		}
	})
	if msg != "" {
		return msg
	}
	if res == "" {
		return "ok"
	}
	return res
}

func (s *vfSession) step(op vfSessOp) bool {
	s.tr.log(vfEv{"ev": "begin", "t": op.T, "op": op})
	r := s.run(op)
	s.tr.log(vfEv{"ev": "end", "t": op.T, "result": r, "was": op.Op})
	return r == "ok" || op.Op == "verify"
}

func vfReadHistories(file string) (out [][]vfSessOp) {
	vfReadLines(file, func(l []byte) {
		var str string
		if json.Unmarshal(l, &str) != nil {
			str = string(l)
		}
		var h []vfSessOp
		if err := json.Unmarshal([]byte(str), &h); err != nil {
			panic(err)
		}
		out = append(out, h)
	})
	return
}

// suiteSessions replays histories: salt "sequence" one operation after the
// other with a print after each, "threads" concurrently.
func vfSuiteSessions() {
	mode := os.Getenv("VERIF_SALT")
	if mode == "cold" {
		vfRunCold()
		return
	}
	hs := vfReadHistories(vfInDir + "/behaviours.ndjson")
	if mode == "threads" {
		for i, h := range hs {
			tr := vfNewTrace(fmt.Sprintf("threads-%d", i))
			vfRunThreads(tr, h, i)
			tr.close()
		}
		return
	}
	// independent histories, each with groups of its own
	vfParallel(len(hs), func(i int) {
		tr := vfNewTrace(fmt.Sprintf("sequence-%02d", i))
		defer tr.close()
		s := vfNewSession(tr)
		tr.log(vfEv{"ev": "session", "id": i})
		s.print()
		for _, op := range hs[i] {
			if !s.step(op) {
				return
			}
			s.print()
		}
	})
}

func vfNewSession(tr *vfTrace) *vfSession {
	return &vfSession{tr: tr, params: map[string]*PublicParameters{}, objs: map[string]*vfSessObj{}, inputs: map[string]func() string{},
		groups: vfRealGroups(), ff: vfFfGroup()}
}

// runCold replays histories in rounds, the very first things this process
// does. Between the begins and the ends of a round the threads share nothing
// of the harness's that would order them.
func vfRunCold() {
	tr := vfNewTrace("cold")
	defer tr.close()
	s := vfNewSession(tr)
	tr.log(vfEv{"ev": "session", "id": "cold"})
	vfReadLines(vfInDir+"/behaviours.ndjson", func(l []byte) {
		var rounds [][]vfSessOp
		if err := json.Unmarshal(l, &rounds); err != nil {
			panic(err)
		}
		for _, ops := range rounds {
			for _, op := range ops {
				tr.log(vfEv{"ev": "begin", "t": op.T, "op": op})
			}
			res := make([]string, len(ops))
			gate := make(chan struct{})
			var wg sync.WaitGroup
			for k := range ops {
				k := k
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-gate
					res[k] = s.run(ops[k])
				}()
			}
			close(gate)
			wg.Wait()
			for k, op := range ops {
				tr.log(vfEv{"ev": "end", "t": op.T, "result": res[k], "was": op.Op})
			}
			for k, op := range ops {
				if op.Op != "verify" && res[k] != "ok" {
					return
				}
			}
		}
		s.print()
	})
}

func vfRunThreads(tr *vfTrace, h []vfSessOp, id int) {
	s := vfNewSession(tr)
	tr.log(vfEv{"ev": "session", "id": id})
	by := map[int][]vfSessOp{}
	for _, op := range h {
		if op.T == 0 {
			if !s.step(op) {
				return
			}
		} else {
			by[op.T] = append(by[op.T], op)
		}
	}
	s.print()
	var wg sync.WaitGroup
	for _, ops := range by {
		ops := ops
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, op := range ops {
				if !s.step(op) {
					return
				}
			}
		}()
	}
	wg.Wait()
	s.print()
}

func init() { vfSuites["sessions"] = vfSuiteSessions }
