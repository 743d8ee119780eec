package main

import (
	"crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"io"
	"math/big"
	"sync"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
	"github.com/takakv/msc-poc/zzverif/sym"
)

// Blinding values, read off the published elements over the symbolic groups.

type vfBlind struct {
	Role string `json:"role"`
	V    string `json:"v"`
	M    string `json:"m"`
}

func vfCoefOf(e group.Element, nm vfNames, role string) string {
	for l, v := range vfFormOf(e) {
		if nm[l] == role || l == role {
			return v.String()
		}
	}
	return "0"
}

func vfBpBlinds(pre string, Vs []group.Element, A, S, T1, T2 group.Element, params bulletproofs.BulletProofSetupParams, q *big.Int) []vfBlind {
	nm := vfBpNames(params, nil)
	m := q.String()
	var out []vfBlind
	for j, v := range Vs {
		out = append(out, vfBlind{fmt.Sprint(pre, "gamma", j), vfCoefOf(v, nm, "H"), m})
	}
	out = append(out, vfBlind{pre + "alpha", vfCoefOf(A, nm, "H"), m}, vfBlind{pre + "rho", vfCoefOf(S, nm, "H"), m},
		vfBlind{pre + "tau1", vfCoefOf(T1, nm, "H"), m}, vfBlind{pre + "tau2", vfCoefOf(T2, nm, "H"), m})
	for i := range params.Gg {
		out = append(out, vfBlind{"s", vfCoefOf(S, nm, fmt.Sprint("g", i)), m}, vfBlind{"s", vfCoefOf(S, nm, fmt.Sprint("h", i)), m})
	}
	return out
}

func vfEqBlinds(p voteproof.SigmaProof, ec vfNames) []vfBlind {
	zm := new(big.Int).Lsh(big.NewInt(1), uint(p.Params.Bx)+uint(p.Params.Bc)+uint(p.Params.Bb)).String()
	return []vfBlind{
		{"tp", vfCoefOf(p.W, nil, sym.Base), vfSymQFF.String()},
		{"tq1", vfCoefOf(p.Kq1, ec, "H"), vfSymQ.String()},
		{"tq2", vfCoefOf(p.Kq2, ec, "H"), vfSymQ.String()},
		{"k", vfCoefOf(p.Kp, nil, sym.Base), zm},
	}
}

func vfRoles(b []vfBlind) (out []string) {
	seen := map[string]bool{}
	for _, x := range b {
		if !seen[x.Role] {
			seen[x.Role] = true
			out = append(out, x.Role)
		}
	}
	return
}

// vfTape is a fixed source of randomness of which one piece is altered.

const vfPiece = 16

type vfTape struct {
	mu   sync.Mutex
	pos  int
	flip int // the piece altered, or -1
	buf  []byte
}

func (s *vfTape) Read(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for i := range p {
		if len(s.buf) == 0 {
			var in [16]byte
			copy(in[:], "vftape")
			binary.BigEndian.PutUint64(in[8:], uint64(s.pos))
			h := sha256.Sum256(in[:])
			s.buf = h[:]
		}
		p[i] = s.buf[0]
		if s.pos%vfPiece == vfPiece-1 && s.pos/vfPiece == s.flip {
			p[i] ^= 1
		}
		s.buf = s.buf[1:]
		s.pos++
	}
	return len(p), nil
}

// vfTied records which pieces of the randomness each blinding value depends on.
func vfTied(tr *vfTrace, scope string, f func() ([]vfBlind, string)) {
	run := func(flip int) ([]vfBlind, int, string) {
		st := &vfTape{flip: flip}
		old := rand.Reader
		rand.Reader = io.Reader(st)
		defer func() { rand.Reader = old }()
		var b []vfBlind
		var why string
		msg := vfGuard(func() { b, why = f() })
		return b, st.pos, msg + why
	}
	base, used, why := run(-1)
	again, _, why2 := run(-1)
	if why != "" || why2 != "" {
		tr.log(vfEv{"ev": "noproof", "scope": scope, "why": why + why2})
		return
	}
	opaque := used == 0 || len(base) != len(again)
	for i := range base {
		if !opaque && base[i] != again[i] {
			opaque = true
		}
	}
	foot := make([][]int, len(base))
	for i := range foot {
		foot[i] = []int{}
	}
	need := []int{}
	roles := []string{}
	for _, b := range base {
		m, _ := new(big.Int).SetString(b.M, 10)
		need = append(need, new(big.Int).Sub(m, big.NewInt(1)).BitLen()/(8*vfPiece))
		roles = append(roles, b.Role)
	}
	for c := 0; !opaque && c*vfPiece < used; c++ {
		b, _, why := run(c)
		if why != "" {
			tr.log(vfEv{"ev": "noproof", "scope": scope, "why": why})
			return
		}
		if len(b) != len(base) {
			opaque = true
			break
		}
		for i := range b {
			if b[i] != base[i] {
				foot[i] = append(foot[i], c)
			}
		}
	}
	tr.log(vfEv{"ev": "tied", "scope": scope, "opaque": opaque, "roles": roles, "need": need, "foot": foot})
}

func vfSuiteHide() {
	tr := vfNewTrace("hide")
	defer tr.close()
	times := vfPick(240, 1500)
	g := sym.New("SymEC", vfSymQ)
	var few bool
	log := func(scope string, f func() ([]vfBlind, string)) {
		var last []vfBlind
		for k := 0; k < times && (!few || k < times/40); k++ {
			var b []vfBlind
			var why string
			if msg := vfGuard(func() { b, why = f() }); msg != "" || why != "" {
				tr.log(vfEv{"ev": "noproof", "scope": scope, "why": msg + why})
				return
			}
			last = b
			tr.log(vfEv{"ev": "fresh", "scope": scope, "vals": b})
		}
		if !few {
			tr.log(vfEv{"ev": "covered", "scope": scope, "roles": vfRoles(last)})
		}
		if len(last) < vfPick(60, 120) {
			vfTied(tr, scope, f)
		}
	}
	// range proofs, for several secrets
	for _, c := range []struct {
		n uint
		v int64
	}{{1, 0}, {1, 1}, {4, 0}, {4, 15}, {2, 2}, {8, 255}, {16, 0}, {16, 40000}, {32, 1 << 31}} {
		c := c
		few = c.n > 4
		params, err := bulletproofs.Setup(int64(1)<<c.n, g)
		if err != nil {
			panic(err)
		}
		log(fmt.Sprintf("range n=%d v=%d", c.n, c.v), func() ([]vfBlind, string) {
			p, _, err := bulletproofs.Prove(big.NewInt(c.v), params)
			if err != nil {
				return nil, err.Error()
			}
			return vfBpBlinds("", []group.Element{p.V}, p.A, p.S, p.T1, p.T2, params, vfSymQ), ""
		})
	}
	// aggregated
	for _, c := range []struct {
		n uint
		v []int64
	}{{4, []int64{0, 0}}, {4, []int64{3, 3}}, {4, []int64{1, 0, 1, 0}}, {8, []int64{1, 1, 0, 0, 1, 0, 1, 1}}, {16, []int64{255, 0}}, {32, make([]int64, 16)}} {
		c := c
		few = c.n > 4
		params, err := bulletproofs.Setup(int64(1)<<c.n, g)
		if err != nil {
			panic(err)
		}
		log(fmt.Sprintf("multi n=%d v=%v", c.n, c.v), func() ([]vfBlind, string) {
			vs := make([]*big.Int, len(c.v))
			for j := range vs {
				vs[j] = big.NewInt(c.v[j])
			}
			p, _, err := bulletproofs.MultiProve(vs, params)
			if err != nil {
				return nil, err.Error()
			}
			return vfBpBlinds("", p.Vs, p.A, p.S, p.T1, p.T2, params, vfSymQ), ""
		})
	}
	few = false
	// equality proofs
	for _, c := range []struct {
		bx uint8
		bc uint16
		x  int64
	}{{16, 224, 0}, {16, 224, 65535}, {8, 128, 7}} {
		w, err := vfNewEqWorld(c.bx, c.bc, 256, 0, uint16(1<<c.bx-1))
		if err != nil {
			panic(err)
		}
		x := big.NewInt(c.x)
		r := vfNewRng("hide eq")
		rp, rq1, rq2 := r.big(vfSymQFF), r.big(vfSymQ), r.big(vfSymQ)
		log(fmt.Sprintf("equality bx=%d bc=%d x=%d", c.bx, c.bc, c.x), func() ([]vfBlind, string) {
			p := voteproof.Prove(x, rp, rq1, rq2, w.params)
			return vfEqBlinds(p, w.ne), ""
		})
	}
	// ciphertexts
	ff := sym.New("SymFF", vfSymQFF)
	for _, choice := range []uint16{0, 65535} {
		choice := choice
		log(fmt.Sprint("ciphertext ", choice), func() ([]vfBlind, string) {
			c, _ := encryptVote(choice, ff.Label("PK"), ff)
			return []vfBlind{{"r", vfCoefOf(c.U, nil, sym.Base), vfSymQFF.String()}}, ""
		})
	}
	// whole ballots
	for _, c := range []struct{ lo, hi uint16 }{{101, 101}, {101, 104}} {
		w := vfNewSymWorld(2, 16, 224, c.lo, c.hi)
		log(fmt.Sprintf("ballot %d..%d", c.lo, c.hi), func() ([]vfBlind, string) {
			b, msg := vfCast(w.pp)
			if msg != "" {
				return nil, msg
			}
			out := []vfBlind{{"r", vfCoefOf(b.Ballot.U, nil, sym.Base), vfSymQFF.String()}}
			for _, s := range []struct {
				pre string
				p   bulletproofs.BulletProof
			}{{"lower ", b.BpLower}, {"upper ", b.BpUpper}} {
				p := s.p
				out = append(out, vfBpBlinds(s.pre, []group.Element{p.V}, p.A, p.S, p.T1, p.T2, w.pp.BPParams, vfSymQ)...)
			}
			return append(out, vfEqBlinds(b.VoteProof, w.names())...), ""
		})
	}
	// the real groups
	rff := vfFfGroup()
	for _, rg := range vfRealGroups() {
		pp, err := vfMakeParams(rg, rff, rff.Element().BaseScale(big.NewInt(13)), 4, 8, 224, 100, 115)
		if err != nil {
			continue
		}
		n := vfPick(4, 40)
		type res struct {
			b   BallotData
			msg string
		}
		out := make([]res, n)
		vfParallel(n, func(i int) { out[i].b, out[i].msg = vfCast(pp) })
		for _, o := range out {
			if o.msg != "" {
				tr.log(vfEv{"ev": "noproof", "scope": rg.Name(), "why": o.msg})
				continue
			}
			parts := []string{}
			for _, s := range vfBallotElems(o.b) {
				parts = append(parts, fmt.Sprint(s.ff, vfElemString(*s.at(&o.b))))
			}
			for _, s := range vfBallotNums() {
				if s.name != "lower.cc" && s.name != "upper.cc" {
					parts = append(parts, vfNumString(*s.at(&o.b)))
				}
			}
			tr.log(vfEv{"ev": "published", "id": rg.Name(), "parts": parts})
		}
	}
}

func init() { vfSuites["hide"] = vfSuiteHide }
