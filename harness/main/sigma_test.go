package main

import (
	"crypto/rand"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"strings"
	"sync"
	"time"

	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
	"github.com/takakv/msc-poc/zzverif/sym"
)

// dull makes the first n bytes of the system's randomness equal to b.
func vfDull(b byte, n int) func() {
	old := rand.Reader
	rand.Reader = &vfDullReader{b: b, n: n, next: old}
	return func() { rand.Reader = old }
}

type vfDullReader struct {
	mu   sync.Mutex
	b    byte
	n    int
	next io.Reader
}

func (d *vfDullReader) Read(p []byte) (int, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	k := min(d.n, len(p))
	d.n -= k
	for i := range p[:k] {
		p[i] = d.b
	}
	if k == len(p) {
		return k, nil
	}
	m, err := io.ReadFull(d.next, p[k:])
	return k + m, err
}

// vfVoteTimeout shrinks once something did not come back in time.
var vfVoteTimeout = 60 * time.Second

// timed runs f (guarded) and gives up waiting after d.
func vfTimed(d time.Duration, f func()) string {
	done := make(chan string, 1)
	go func() { done <- vfGuard(f) }()
	select {
	case m := <-done:
		return m
	case <-time.After(d):
		vfVoteTimeout = 4 * time.Second
		return "timeout"
	}
}

// eqWorld is a pair of symbolic groups with equality-proof parameters.
type vfEqWorld struct {
	ff, ec     *sym.Group
	params     voteproof.ProofParams
	nf, ne     vfNames
	fp, fq     vfField
	bx, bc, bg int
	zeros      bool // neutral elements stay what they are, instead of becoming unknowns
}

func vfNewEqWorld(bx uint8, bc, bg uint16, lo, hi uint16) (*vfEqWorld, error) {
	w := &vfEqWorld{ff: sym.New("SymFF", vfSymQFF), ec: sym.New("SymEC", vfSymQ)}
	h, err := w.ec.Element().MapToGroup("blinding")
	if err != nil {
		return nil, err
	}
	var ap voteproof.AlgebraicParameters
	ap.GFF = voteproof.GroupParameters{G: w.ff.Generator(), H: w.ff.Label("PK"), N: w.ff.N(), F: w.ff.P(), I: w.ff}
	ap.GEC = voteproof.GroupParameters{G: w.ec.Generator(), H: h, N: w.ec.N(), F: w.ec.P(), I: w.ec}
	w.params, err = voteproof.Setup(bx, bc, bg, lo, hi, ap)
	w.nf, w.ne = vfNames{}, vfNames{}
	w.ne.bind(h, "H")
	w.fp, w.fq = vfField{vfSymQFF}, vfField{vfSymQ}
	w.bx, w.bc, w.bg = int(bx), int(bc), int(bg)
	return w, err
}

func (w *vfEqWorld) enc(m, r *big.Int) (group.Element, group.Element) {
	u := w.ff.Element().BaseScale(r)
	v := w.ff.Element().Add(w.ff.Element().BaseScale(m), w.ff.Element().Scale(w.params.GFF.H, r))
	return u, v
}

func (w *vfEqWorld) ped(m, r *big.Int) group.Element {
	return w.ec.Element().Add(w.ec.Element().BaseScale(m), w.ec.Element().Scale(w.params.GEC.H, r))
}

// eqTranscript is a statement with a proof.
type vfEqTranscript struct {
	st voteproof.VerCommitments
	p  voteproof.SigmaProof
}

func (t vfEqTranscript) verify() string {
	var ok bool
	p := t.p
	if msg := vfGuard(func() { ok = p.Verify(t.st) }); msg != "" {
		return "panic"
	}
	if ok {
		return "accept"
	}
	return "reject"
}

// slots of a transcript; the flag tells the ElGamal group apart.
type vfEqSlot struct {
	name string
	ff   bool
	at   func(*vfEqTranscript) *group.Element
}

var vfEqSlots = []vfEqSlot{
	{"Y", true, func(t *vfEqTranscript) *group.Element { return &t.st.Y }},
	{"Xp", true, func(t *vfEqTranscript) *group.Element { return &t.st.Xp }},
	{"Xq1", false, func(t *vfEqTranscript) *group.Element { return &t.st.Xq1 }},
	{"Xq2", false, func(t *vfEqTranscript) *group.Element { return &t.st.Xq2 }},
	{"W", true, func(t *vfEqTranscript) *group.Element { return &t.p.W }},
	{"Kp", true, func(t *vfEqTranscript) *group.Element { return &t.p.Kp }},
	{"Kq1", false, func(t *vfEqTranscript) *group.Element { return &t.p.Kq1 }},
	{"Kq2", false, func(t *vfEqTranscript) *group.Element { return &t.p.Kq2 }},
}

func (w *vfEqWorld) group(s vfEqSlot) *sym.Group {
	if s.ff {
		return w.ff
	}
	return w.ec
}

// unknown replaces all elements by unknowns that hash like the originals.
func (w *vfEqWorld) unknown(t vfEqTranscript) vfEqTranscript {
	for _, s := range vfEqSlots {
		if w.zeros && len(vfFormOf(*s.at(&t))) == 0 {
			continue
		}
		*s.at(&t) = w.group(s).Fresh(s.name, *s.at(&t))
	}
	return t
}

// lie verifies with all group comparisons answered "equal" (except one).
func (w *vfEqWorld) lie(t vfEqTranscript, falseAt int) (string, []map[string]*big.Int, []map[string]*big.Int) {
	u := w.unknown(t)
	fa, fb := falseAt, -1
	if falseAt >= 2 {
		fa, fb = -1, falseAt-2
	}
	r1, r2 := w.ff.Record(fa), w.ec.Record(fb)
	v := u.verify()
	w.ff.Stop()
	w.ec.Stop()
	return v, r1.Residuals, r2.Residuals
}

// mid is a response in the middle of the window.
func (w *vfEqWorld) mid() *big.Int {
	lo := new(big.Int).Lsh(big.NewInt(1), uint(w.bx+w.bc))
	hi := new(big.Int).Lsh(big.NewInt(1), uint(w.bx+w.bc+w.params.Bb))
	return lo.Add(lo, hi).Rsh(lo, 1)
}

// derived tells whether the carried challenge is the one the verifier derives.
func (w *vfEqWorld) derived(t vfEqTranscript) bool {
	t.p.Z = w.mid()
	v, _, _ := w.lie(t, -1)
	return v == "accept"
}

// challenges lists the challenge values accepted for a transcript.
func (w *vfEqWorld) challenges(t vfEqTranscript) []int {
	var acc []int
	for c := 0; c < 1<<uint(w.bc); c++ {
		t.p.Challenge = big.NewInt(int64(c))
		if w.derived(t) {
			acc = append(acc, c)
		}
	}
	return acc
}

func (w *vfEqWorld) event(t vfEqTranscript, name, id string) vfEv {
	e := vfEv{"ev": name, "id": id, "bx": w.bx, "bc": w.bc, "bg": w.bg,
		"c": t.p.Challenge.String(), "z": t.p.Z.String(), "sp": t.p.Sp.String(), "sq1": t.p.Sq1.String(), "sq2": t.p.Sq2.String()}
	for _, s := range vfEqSlots {
		nm := w.ne
		if s.ff {
			nm = w.nf
		}
		e[s.name] = nm.out(vfFormOf(*s.at(&t)))
	}
	return e
}

func (w *vfEqWorld) judge(tr *vfTrace, id string, t vfEqTranscript) {
	e := w.event(t, "judge", id)
	e["verdict"] = t.verify()
	e["derived"] = w.derived(t)
	tr.log(e)
}

// equations logs the equations behind the verdict on a transcript, and what
// becomes of it when one of them fails.
func (w *vfEqWorld) equations(tr *vfTrace, id string, t vfEqTranscript) {
	v, ffr, ecr := w.lie(t, -1)
	if v != "accept" {
		vfNote("%s: verifier says %s although every comparison succeeds", id, v)
		return
	}
	tr.log(vfEv{"ev": "equations", "id": id, "c": t.p.Challenge.String(), "z": t.p.Z.String(), "sp": t.p.Sp.String(), "sq1": t.p.Sq1.String(), "sq2": t.p.Sq2.String(),
		"ff": w.nf.rows(ffr), "ec": w.ne.rows(ecr)})
	for k := 0; k < len(ffr)+len(ecr); k++ {
		kk := k
		if k >= len(ffr) {
			kk = 2 + k - len(ffr)
		}
		if len(ffr) > 2 && k < len(ffr) && k >= 2 {
			continue
		}
		v, _, _ := w.lie(t, kk)
		tr.log(vfEv{"ev": "comparison", "id": id, "k": k, "verdict": v})
	}
}

// special choices of a prover: the named values are zero, a pair is equal.
var vfEqSpecials = []string{"", "x", "rp", "rq1", "rq2", "tp", "tq1", "tq2", "rp tp", "rq1 tq1", "rq2 tq2", "x rp", "x rq1", "x rq2", "rp rq1 rq2", "tp tq1 tq2",
	"x rp rq1 rq2", "rp tp rq1 tq1 rq2 tq2", "rq1=rq2", "tq1=tq2", "rq1=rq2 tq1=tq2", "rp=tp", "rq1=tq1", "rq2=tq2", "rp=rq1", "x rp tp rq1 tq1 rq2 tq2"}

// probe judges transcripts with special choices and one wrong element.
func (w *vfEqWorld) probe(tr *vfTrace, r *vfRng, tag, special string, full bool) {
	one := big.NewInt(1)
	some := func(n *big.Int) *big.Int { return new(big.Int).Add(one, r.big(new(big.Int).Sub(n, one))) }
	lo := new(big.Int).Lsh(one, uint(w.bx+w.bc+1))
	hi := new(big.Int).Lsh(one, uint(w.bx+w.bc+w.params.Bb-1))
	v := map[string]*big.Int{"x": some(new(big.Int).Lsh(one, uint(w.bx))), "k": new(big.Int).Add(lo, r.big(new(big.Int).Sub(hi, lo))),
		"rp": some(vfSymQ), "tp": some(vfSymQ), "rq1": some(vfSymQ), "rq2": some(vfSymQ), "tq1": some(vfSymQ), "tq2": some(vfSymQ)}
	for _, f := range strings.Fields(special) {
		if l, r, ok := strings.Cut(f, "="); ok {
			v[l] = v[r]
		} else {
			v[f] = new(big.Int)
		}
	}
	var t vfEqTranscript
	t.st.Y, t.st.Xp = w.enc(v["x"], v["rp"])
	t.st.Xq1, t.st.Xq2 = w.ped(v["x"], v["rq1"]), w.ped(v["x"], v["rq2"])
	t.p.W, t.p.Kp = w.enc(v["k"], v["tp"])
	t.p.Kq1, t.p.Kq2 = w.ped(v["k"], v["tq1"]), w.ped(v["k"], v["tq2"])
	t.p.Params = w.params
	finish := func(id string, t vfEqTranscript, eqs bool) {
		t.p.Challenge, t.p.Z, t.p.Sp, t.p.Sq1, t.p.Sq2 = new(big.Int), w.mid(), new(big.Int), new(big.Int), new(big.Int)
		cs := w.challenges(t)
		if len(cs) == 0 {
			return
		}
		c := big.NewInt(int64(cs[0]))
		lin := func(t, s string) *big.Int { return new(big.Int).Add(v[t], new(big.Int).Mul(c, v[s])) }
		t.p.Challenge, t.p.Z = c, lin("k", "x")
		t.p.Sp, t.p.Sq1, t.p.Sq2 = w.fp.add(lin("tp", "rp"), new(big.Int)), w.fq.add(lin("tq1", "rq1"), new(big.Int)), w.fq.add(lin("tq2", "rq2"), new(big.Int))
		w.judge(tr, tag+"special "+special+" "+id, t)
		if eqs {
			w.equations(tr, tag+"special "+special+" "+id, t)
		}
	}
	finish("as is", t, true)
	for i, s := range vfEqSlots {
		g, h := w.group(s), w.params.GEC.H
		if s.ff {
			h = w.params.GFF.H
		}
		cur := *s.at(&t)
		for j, e := range []group.Element{g.Element().Add(cur, g.Generator()), g.Element().Add(cur, h), g.Identity()} {
			if !full && j == 1 && i%2 == 0 {
				continue
			}
			m := t
			*s.at(&m) = e
			finish(s.name+[]string{"+G", "+H", "=0"}[j], m, j == 2)
		}
	}
	// a prover who picks the challenge and solves the relations for the first message
	for _, c := range []int64{0, 1, 2, 255, 256, -1} {
		m := t
		C := big.NewInt(c)
		m.p.Challenge, m.p.Z, m.p.Sp, m.p.Sq1, m.p.Sq2 = C, w.mid(), v["tp"], v["tq1"], v["tq2"]
		m.st.Xq2 = w.ec.Element().Add(m.st.Xq2, w.ec.Generator())
		u, e := w.enc(m.p.Z, m.p.Sp)
		m.p.W, m.p.Kp = w.ff.Element().Subtract(u, w.ff.Element().Scale(m.st.Y, C)), w.ff.Element().Subtract(e, w.ff.Element().Scale(m.st.Xp, C))
		m.p.Kq1 = w.ec.Element().Subtract(w.ped(m.p.Z, m.p.Sq1), w.ec.Element().Scale(m.st.Xq1, C))
		m.p.Kq2 = w.ec.Element().Subtract(w.ped(m.p.Z, m.p.Sq2), w.ec.Element().Scale(m.st.Xq2, C))
		w.judge(tr, fmt.Sprintf("%sspecial %s simulated for c=%d", tag, special, c), m)
	}
}

// honest makes a statement and proves it.
func (w *vfEqWorld) honest(x, rp, rq1, rq2 *big.Int) (vfEqTranscript, string) {
	var t vfEqTranscript
	t.st.Y, t.st.Xp = w.enc(x, rp)
	t.st.Xq1, t.st.Xq2 = w.ped(x, rq1), w.ped(x, rq2)
	msg := vfTimed(vfVoteTimeout, func() {
		t.p = voteproof.Prove(new(big.Int).Set(x), new(big.Int).Set(rp), new(big.Int).Set(rq1), new(big.Int).Set(rq2), w.params)
	})
	if msg == "" {
		for _, v := range []*big.Int{t.p.Challenge, t.p.Z, t.p.Sp, t.p.Sq1, t.p.Sq2} {
			if v == nil {
				msg = "incomplete proof"
			}
		}
	}
	return t, msg
}

func (w *vfEqWorld) logProve(tr *vfTrace, id string, x, rp, rq1, rq2 *big.Int) (vfEqTranscript, bool) {
	t, msg := w.honest(x, rp, rq1, rq2)
	if msg != "" {
		tr.log(vfEv{"ev": "noproof", "id": id, "why": msg})
		return t, false
	}
	e := w.event(t, "prove", id)
	e["x"], e["rp"], e["rq1"], e["rq2"] = x.String(), rp.String(), rq1.String(), rq2.String()
	e["verdict"] = t.verify()
	tr.log(e)
	return t, true
}

// strategy: a dishonest prover. place is the relation in which something
// differs, how is what differs, late the element adjusted after the challenge.
func (w *vfEqWorld) play(r *vfRng, place, how, late string) vfEqTranscript {
	x := r.bits(w.bx)
	y := new(big.Int).Mod(new(big.Int).Add(x, big.NewInt(1+int64(r.n(1<<uint(w.bx)-1)))), new(big.Int).Lsh(big.NewInt(1), uint(w.bx)))
	return w.playWith(r, place, how, late, x, y, r.big(vfSymQ), r.big(vfSymQ))
}

// playWith plays for the secret x (y where the secrets differ) and given
// randomness of the two commitments.
func (w *vfEqWorld) playWith(r *vfRng, place, how, late string, x, y, rq1, rq2 *big.Int) vfEqTranscript {
	var t vfEqTranscript
	lo := new(big.Int).Lsh(big.NewInt(1), uint(w.bx+w.bc+1))
	hi := new(big.Int).Lsh(big.NewInt(1), uint(w.bx+w.bc+w.params.Bb-1))
	nonce := func() *big.Int { return new(big.Int).Add(lo, r.big(new(big.Int).Sub(hi, lo))) }
	k, k2 := nonce(), nonce()
	rp, rp2 := r.big(vfSymQFF), r.big(vfSymQFF)
	tp, tp2, tq1, tq2 := r.big(vfSymQFF), r.big(vfSymQFF), r.big(vfSymQ), r.big(vfSymQ)

	pickv := func(at, what string, same, diff *big.Int) *big.Int {
		if place == at && how == what {
			return diff
		}
		return same
	}
	// relation Y uses only rp/tp, relation Xp the secret as well
	t.st.Y, _ = w.enc(x, pickv("Y", "statement", rp, rp2))
	_, t.st.Xp = w.enc(pickv("Xp", "statement", x, y), rp)
	t.st.Xq1 = w.ped(pickv("Xq1", "statement", x, y), rq1)
	t.st.Xq2 = w.ped(pickv("Xq2", "statement", x, y), rq2)
	t.p.W, _ = w.enc(k, pickv("Y", "commitment", tp, tp2))
	_, t.p.Kp = w.enc(pickv("Xp", "commitment", k, k2), tp)
	t.p.Kq1 = w.ped(pickv("Xq1", "commitment", k, k2), tq1)
	t.p.Kq2 = w.ped(pickv("Xq2", "commitment", k, k2), tq2)
	t.p.Params = w.params
	t.p.Challenge, t.p.Z, t.p.Sp, t.p.Sq1, t.p.Sq2 = new(big.Int), w.mid(), new(big.Int), new(big.Int), new(big.Int)
	cs := w.challenges(t)
	if len(cs) == 0 {
		return t
	}
	c := big.NewInt(int64(cs[len(cs)-1]))
	if c.Sign() == 0 {
		return w.playWith(r, place, how, late, x, y, rq1, rq2)
	}
	lin := func(t, s *big.Int) *big.Int { return new(big.Int).Add(t, new(big.Int).Mul(c, s)) }
	t.p.Challenge = c
	t.p.Z = lin(k, x)
	t.p.Sp, t.p.Sq1, t.p.Sq2 = w.fp.add(lin(tp, rp), new(big.Int)), w.fq.add(lin(tq1, rq1), new(big.Int)), w.fq.add(lin(tq2, rq2), new(big.Int))
	if late == "" {
		return t
	}
	// solve the relation of the place for the late element
	var g *sym.Group
	var left group.Element
	switch place {
	case "Y":
		g, left = w.ff, w.ff.Element().BaseScale(t.p.Sp)
	case "Xp":
		g = w.ff
		_, left = w.enc(t.p.Z, t.p.Sp)
	case "Xq1":
		g, left = w.ec, w.ped(t.p.Z, t.p.Sq1)
	case "Xq2":
		g, left = w.ec, w.ped(t.p.Z, t.p.Sq2)
	}
	com := map[string]string{"Y": "W", "Xp": "Kp", "Xq1": "Kq1", "Xq2": "Kq2"}[place]
	var stSlot, comSlot vfEqSlot
	for _, s := range vfEqSlots {
		if s.name == place {
			stSlot = s
		}
		if s.name == com {
			comSlot = s
		}
	}
	if late == "statement" {
		d := g.Element().Subtract(left, *comSlot.at(&t))
		*stSlot.at(&t) = g.Element().Scale(d, new(big.Int).ModInverse(c, g.N()))
	} else {
		*comSlot.at(&t) = g.Element().Subtract(left, g.Element().Scale(*stSlot.at(&t), c))
	}
	return t
}

func (w *vfEqWorld) mutations(t, other vfEqTranscript) map[string]vfEqTranscript {
	out := map[string]vfEqTranscript{}
	for i, s := range vfEqSlots {
		g := w.group(s)
		put := func(n string, e group.Element) {
			m := t
			*s.at(&m) = e
			out[s.name+n] = m
		}
		cur := *s.at(&t)
		put("+G", g.Element().Add(cur, g.Generator()))
		h := w.params.GEC.H
		if s.ff {
			h = w.params.GFF.H
		}
		put("+H", g.Element().Add(cur, h))
		put("neg", g.Element().Negate(cur))
		put("=0", g.Identity())
		put("=other", *s.at(&other))
		for _, o := range vfEqSlots[i+1:] {
			if o.ff == s.ff {
				m := t
				*s.at(&m), *o.at(&m) = *o.at(&t), *s.at(&t)
				out[s.name+"<->"+o.name] = m
			}
		}
	}
	nums := map[string]func(*vfEqTranscript) **big.Int{
		"c": func(t *vfEqTranscript) **big.Int { return &t.p.Challenge }, "z": func(t *vfEqTranscript) **big.Int { return &t.p.Z },
		"sp": func(t *vfEqTranscript) **big.Int { return &t.p.Sp }, "sq1": func(t *vfEqTranscript) **big.Int { return &t.p.Sq1 },
		"sq2": func(t *vfEqTranscript) **big.Int { return &t.p.Sq2 },
	}
	for n, at := range nums {
		cur := *at(&t)
		for name, v := range map[string]*big.Int{"+1": new(big.Int).Add(cur, big.NewInt(1)), "-1": new(big.Int).Sub(cur, big.NewInt(1)),
			"=0": new(big.Int), "neg": new(big.Int).Neg(cur), "=other": *at(&other),
			"+p": new(big.Int).Add(cur, vfSymQFF), "+q": new(big.Int).Add(cur, vfSymQ), "-q": new(big.Int).Sub(cur, vfSymQ),
			"+pq": new(big.Int).Add(cur, new(big.Int).Mul(vfSymQ, vfSymQFF))} {
			m := t
			*at(&m) = v
			out[n+name] = m
		}
	}
	return out
}

type vfEqDims struct {
	bx     uint8
	bc, bg uint16
}

func vfSuiteSigma() {
	tr := vfNewTrace("sigma")
	defer tr.close()
	r := vfNewRng("sigma")
	for _, d := range []vfEqDims{{16, 224, 256}, {16, 8, 256}, {4, 16, 64}, {1, 8, 11}, {8, 8, 24}, {16, 128, 256}} {
		w, err := vfNewEqWorld(d.bx, d.bc, d.bg, 0, uint16(1<<min(d.bx, 15)-1))
		if err != nil {
			tr.log(vfEv{"ev": "noproof", "id": fmt.Sprint(d), "why": err.Error()})
			continue
		}
		tag := fmt.Sprintf("bx=%d bc=%d bg=%d ", d.bx, d.bc, d.bg)
		top := new(big.Int).Lsh(big.NewInt(1), uint(d.bx))
		xs := []*big.Int{big.NewInt(0), new(big.Int).Sub(top, big.NewInt(1))}
		for i := 0; i < vfPick(4, 40); i++ {
			xs = append(xs, r.big(top))
		}
		var last vfEqTranscript
		for i, x := range xs {
			rp, rq1, rq2 := new(big.Int).Add(r.big(new(big.Int).Sub(vfSymQFF, big.NewInt(1))), big.NewInt(1)), r.big(vfSymQ), r.big(vfSymQ)
			switch i {
			case 0:
				rq1 = big.NewInt(0)
			case 1:
				rq2 = big.NewInt(0)
			case 2:
				rp = new(big.Int).Sub(vfSymQFF, big.NewInt(1))
				rq1, rq2 = new(big.Int).Sub(vfSymQ, big.NewInt(1)), big.NewInt(1)
			case 3:
				rq2 = new(big.Int).Set(vfSymQ) // what N - 0 looks like
			}
			t, ok := w.logProve(tr, fmt.Sprintf("%sx=%s", tag, x), x, rp, rq1, rq2)
			if !ok {
				continue
			}
			w.equations(tr, tag, t)
			if i < 2 || vfThorough {
				w.judge(tr, tag+"honest", t)
				if last.p.Z != nil {
					muts := w.mutations(t, last)
					for _, k := range vfSortedKeys(muts) {
						w.judge(tr, tag+k, muts[k])
					}
				}
			}
			if i < vfPick(2, 8) && d.bc <= 8 {
				tr.log(vfEv{"ev": "challenges", "id": tag, "n": 1 << d.bc, "total": 1 << d.bc, "accepted": w.challenges(t)})
			}
			if i == 0 {
				// every bit of the challenge counts, nothing beyond is ignored
				u := t
				u.p.Z = w.mid()
				var alts []*big.Int
				for b := 0; b < int(d.bc)+20; b++ {
					f := new(big.Int).Set(t.p.Challenge)
					alts = append(alts, f.SetBit(f, b, 1-f.Bit(b)))
				}
				alts = append(alts, new(big.Int).Neg(t.p.Challenge), new(big.Int).Add(t.p.Challenge, vfSymQ), new(big.Int).Add(t.p.Challenge, vfSymQFF))
				for _, a := range alts {
					if a.Cmp(t.p.Challenge) == 0 {
						continue
					}
					u.p.Challenge = a
					v, _, _ := w.lie(u, -1)
					tr.log(vfEv{"ev": "otherchallenge", "id": tag, "c": a.String(), "verdict": v})
				}
			}
			last = t
		}
	}
	// the challenges of many accepted proofs
	for _, d := range []vfEqDims{{16, 224, 256}, {8, 8, 40}, {16, 128, 256}, {8, 256, 400}} {
		w, err := vfNewEqWorld(d.bx, d.bc, d.bg, 0, uint16(1<<min(d.bx, 15)-1))
		if err != nil {
			continue
		}
		es := []string{}
		for k := 0; k < 80; k++ {
			u, msg := w.honest(big.NewInt(int64(k)), r.big(vfSymQFF), r.big(vfSymQ), r.big(vfSymQ))
			if msg != "" {
				break
			}
			if u.verify() == "accept" {
				es = append(es, u.p.Challenge.String())
			}
		}
		if len(es) >= 60 {
			tr.log(vfEv{"ev": "challengebits", "id": fmt.Sprint(d), "bc": w.bc, "es": es})
		}
	}
	// dishonest provers
	w, err := vfNewEqWorld(8, 8, 40, 0, 255)
	if err != nil {
		return
	}
	// transcripts whose challenge is a remarkable number
	if t, msg := w.honest(big.NewInt(7), r.big(vfSymQFF), r.big(vfSymQ), r.big(vfSymQ)); msg == "" {
		found := map[int64]bool{}
		for k := 0; k < 6000 && len(found) < 4; k++ {
			sp := r.big(vfSymQFF)
			t.p.W = w.ff.Element().BaseScale(sp)
			for _, c := range []int64{0, 1, 128, 255} {
				if t.p.Challenge = big.NewInt(c); !found[c] && w.derived(t) {
					found[c] = true
					tr.log(vfEv{"ev": "challenges", "id": fmt.Sprint("derived ", c), "n": 256, "total": 256, "accepted": w.challenges(t)})
					w.judge(tr, fmt.Sprint("nothing holds, derived ", c), t)
					u := t
					u.p.Z, u.p.Challenge = new(big.Int).Lsh(big.NewInt(1), 17), big.NewInt(c)
					w.judge(tr, fmt.Sprint("nothing holds, other response, derived ", c), u)
					u.p.Sp = sp // for 0 the first relation holds
					w.judge(tr, fmt.Sprint("the rest does not hold, derived ", c), u)
				}
			}
		}
	}
	for _, special := range vfEqSpecials {
		msg := vfGuard(func() { w.probe(tr, r, "bx=8 bc=8 bg=40 ", special, vfThorough) })
		if msg != "" {
			vfNote("special %s: %s", special, msg)
		}
	}
	// one relation broken, and the responses written in other ways
	for _, place := range []string{"Y", "Xp", "Xq1", "Xq2"} {
		base := w.play(r, place, "commitment", "")
		for _, s := range []string{"sp", "sq1", "sq2", "all"} {
			for _, k := range []int64{-2, -1, 1, 1 << 20} {
				t := base
				shift := func(v, q *big.Int, name string) *big.Int {
					if s == name || s == "all" {
						return new(big.Int).Add(v, new(big.Int).Mul(q, big.NewInt(k)))
					}
					return v
				}
				t.p.Sp, t.p.Sq1, t.p.Sq2 = shift(t.p.Sp, vfSymQFF, "sp"), shift(t.p.Sq1, vfSymQ, "sq1"), shift(t.p.Sq2, vfSymQ, "sq2")
				w.judge(tr, fmt.Sprintf("dishonest %s, %s moved by %d orders", place, s, k), t)
			}
		}
	}
	for _, place := range []string{"Y", "Xp", "Xq1", "Xq2"} {
		for _, how := range []string{"statement", "commitment"} {
			for _, late := range []string{"", "statement", "commitment"} {
				if how == late || (how == "commitment" && late == "") {
					continue
				}
				var plays []vfEv
				for n := 0; n < 5; n++ {
					t := w.play(r, place, how, late)
					w.judge(tr, "dishonest "+place+"/"+how+"/"+late, t)
					e := w.event(t, "play", "")
					e["verdict"] = t.verify()
					plays = append(plays, e)
				}
				tr.log(vfEv{"ev": "forgery", "id": place + "/" + how + "/" + late, "plays": plays})
			}
		}
	}
}

func vfSuiteWindow() {
	tr := vfNewTrace("window")
	defer tr.close()
	r := vfNewRng("window")
	one := big.NewInt(1)
	for _, d := range []vfEqDims{{16, 224, 256}, {16, 224, 242}, {16, 8, 256}, {1, 8, 11}, {8, 8, 18}, {8, 16, 26}, {15, 224, 256}, {255, 256, 600}, {32, 224, 300}, {200, 56, 300}, {0, 8, 20}} {
		hi := uint16(0)
		if d.bx > 0 {
			hi = uint16(1<<min(d.bx, 15) - 1)
		}
		w, err := vfNewEqWorld(d.bx, d.bc, d.bg, 0, hi)
		if err != nil {
			continue // refused parameters need not work
		}
		tag := fmt.Sprintf("bx=%d bc=%d bg=%d ", d.bx, d.bc, d.bg)
		top := new(big.Int).Lsh(one, uint(d.bx))
		var t vfEqTranscript
		ok, stuck := false, false
		for k := 0; k < vfPick(20, 100); k++ {
			x := r.big(top)
			switch {
			case k == 0:
				x = new(big.Int)
			case k%3 == 1:
				x = new(big.Int).Sub(top, one)
			}
			u, fine := w.logProve(tr, fmt.Sprintf("%sx=%s", tag, x), x, r.big(vfSymQFF), r.big(vfSymQ), r.big(vfSymQ))
			if !fine {
				stuck = true
				break
			}
			t, ok = u, true
		}
		if !ok {
			continue
		}
		lo := new(big.Int).Lsh(one, uint(d.bx)+uint(d.bc))
		up := new(big.Int).Lsh(lo, uint(w.params.Bb))
		cands := []*big.Int{new(big.Int), one, big.NewInt(-1), new(big.Int).Neg(lo), new(big.Int).Neg(new(big.Int).Sub(up, one)),
			new(big.Int).Sub(lo, one), lo, new(big.Int).Add(lo, one), new(big.Int).Sub(up, one), up, new(big.Int).Add(up, one),
			new(big.Int).Lsh(up, 1), new(big.Int).Mul(vfSymQ, vfSymQFF), new(big.Int).Rsh(lo, 1), new(big.Int).Rsh(up, 1),
			new(big.Int).Add(t.p.Z, new(big.Int).Mul(vfSymQ, vfSymQFF)), new(big.Int).Neg(t.p.Z)}
		for b := 0; b < 620; b += 1 {
			cands = append(cands, new(big.Int).Lsh(one, uint(b)))
		}
		for k := 0; k < vfPick(10, 200); k++ {
			cands = append(cands, r.big(up), new(big.Int).Add(lo, r.big(new(big.Int).Sub(up, lo))))
		}
		for _, z := range cands {
			u := t
			u.p.Z = z
			v, _, _ := w.lie(u, -1)
			tr.log(vfEv{"ev": "window", "id": tag, "bx": w.bx, "bc": w.bc, "bg": w.bg, "z": z.String(), "verdict": v})
		}
		if stuck {
			continue
		}
		// a source of randomness whose first bytes are all alike
		for _, b := range []byte{0, 1, 0x80, 0xff} {
			for _, n := range []int{100, 3000, vfPick(60000, 1000000)} {
				func() {
					defer vfDull(b, n)()
					x := []*big.Int{new(big.Int), new(big.Int).Sub(top, one), r.big(top)}[n%3]
					w.logProve(tr, fmt.Sprintf("%sx=%s after %d bytes %d", tag, x, n, b), x, r.big(vfSymQFF), r.big(vfSymQ), r.big(vfSymQ))
				}()
			}
		}
	}
	// spread of the responses, with few abort bits and with many
	for _, d := range []vfEqDims{{4, 8, 14}, {4, 8, 15}, {4, 8, 16}, {4, 8, 17}, {16, 8, 26}, {8, 16, 32}, {16, 224, 256}} {
		w, err := vfNewEqWorld(d.bx, d.bc, d.bg, 0, uint16(1<<min(d.bx, 15)-1))
		if err != nil {
			continue
		}
		top := new(big.Int).Lsh(one, uint(d.bx))
		for _, x := range []*big.Int{new(big.Int), new(big.Int).Sub(top, one), r.big(top)} {
			var zs, ks, cs []string
			many := vfPick(400, 1500)
			if int(d.bg)-1-int(d.bx)-int(d.bc) == 1 {
				many = max(many, 800) // where an uneven mask shows most
			}
			for k := 0; k < many; k++ {
				t, msg := w.honest(x, r.big(vfSymQFF), r.big(vfSymQ), r.big(vfSymQ))
				if msg != "" {
					zs = nil
					break
				}
				zs, cs = append(zs, t.p.Z.String()), append(cs, t.p.Challenge.String())
				// with short nonces repetitions are expected
				if d.bc > 200 {
					ks = append(ks, vfCoef(vfFormOf(t.p.Kq1), sym.Base).String(), vfCoef(vfFormOf(t.p.Kq1), "M:blinding").String(), vfCoef(vfFormOf(t.p.Kq2), "M:blinding").String(),
						vfCoef(vfFormOf(t.p.W), sym.Base).String())
				}
			}
			if ks == nil {
				ks = []string{}
			}
			if zs == nil {
				tr.log(vfEv{"ev": "noproof", "id": fmt.Sprint(d)})
				continue
			}
			tr.log(vfEv{"ev": "spread", "id": fmt.Sprintf("bx=%d bc=%d bg=%d x=%s", d.bx, d.bc, d.bg, x), "bx": w.bx, "bc": w.bc, "bg": w.bg, "x": x.String(), "zs": zs, "cs": cs, "ks": ks})
		}
	}
}

func vfSuiteEqSetup() {
	tr := vfNewTrace("eqsetup")
	defer tr.close()
	r := vfNewRng("eqsetup")
	bxs := []int{0, 1, 2, 8, 16, 17, 31, 128, 255}
	bcs := []int{0, 1, 7, 8, 12, 16, 100, 224, 225, 248, 256, 257, 264, 512, 65535, 65528}
	ranges := [][2]int{{0, 0}, {0, 1}, {1, 0}, {101, 2000}, {2000, 101}, {0, 65535}, {65535, 65535}, {255, 256}, {3, 3}}
	for _, bx := range bxs {
		for _, bc := range bcs {
			for _, off := range []int{-300, -2, -1, 0, 1, 2, 16, 300} {
				bg := bx + bc + 1 + off
				if bg < 0 || bg > 65535 {
					continue
				}
				for _, rg := range ranges {
					lo, hi := rg[0], rg[1]
					e := vfEv{"ev": "setup", "bx": bx, "bc": bc, "bg": bg, "lo": lo, "hi": hi, "bb": 0, "works": []string{}}
					var w *vfEqWorld
					var err error
					msg := vfGuard(func() { w, err = vfNewEqWorld(uint8(bx), uint16(bc), uint16(bg), uint16(lo), uint16(hi)) })
					switch {
					case msg != "":
						e["result"] = "panic"
					case err != nil:
						e["result"] = "error"
					default:
						e["result"] = "ok"
						e["bb"] = w.params.Bb
						var works []string
						for _, x := range []int{lo, hi} {
							t, msg := w.honest(big.NewInt(int64(x)), r.big(vfSymQFF), r.big(vfSymQ), r.big(vfSymQ))
							if msg != "" {
								works = append(works, msg)
								if msg == "timeout" {
									e["works"] = works
									tr.log(e)
									return
								}
							} else {
								works = append(works, t.verify())
							}
						}
						e["works"] = works
					}
					tr.log(e)
				}
			}
		}
	}
}

// suiteSigmaReal runs equality proofs over pairs of real groups.
func vfSuiteSigmaReal() {
	tr := vfNewTrace("sigmareal")
	defer tr.close()
	r := vfNewRng("sigmareal")
	ff := vfFfGroup()
	for gi, g := range vfRealGroups() {
		pp, err := vfMakeParams(g, ff, ff.Element().BaseScale(big.NewInt(13)), 16, 16, 224, 101, 2000)
		if err != nil {
			panic(err)
		}
		for k := 0; k < vfPick(1, 5); k++ {
			x := big.NewInt(int64(r.n(65536)))
			rp, rq1, rq2 := r.big(ff.N()), r.big(g.N()), r.big(g.N())
			id := fmt.Sprintf("%s x=%s", g.Name(), x)
			var t vfEqTranscript
			P := pp.RPParams
			t.st.Y = ff.Element().BaseScale(rp)
			t.st.Xp = ff.Element().Add(ff.Element().BaseScale(x), ff.Element().Scale(P.GFF.H, rp))
			com := func(r *big.Int) group.Element {
				return g.Element().Add(g.Element().BaseScale(x), g.Element().Scale(P.GEC.H, r))
			}
			t.st.Xq1, t.st.Xq2 = com(rq1), com(rq2)
			if msg := vfTimed(120*time.Second, func() { t.p = voteproof.Prove(x, rp, rq1, rq2, P) }); msg != "" || t.p.Z == nil {
				tr.log(vfEv{"ev": "noproof", "id": id, "why": msg})
				continue
			}
			e := vfEv{"ev": "real", "id": id, "bx": 16, "bc": 224, "bg": g.N().BitLen(), "z": t.p.Z.String(), "honest": t.verify(), "json": "reject"}
			vfGuard(func() {
				b, err := json.Marshal(t.p)
				if err != nil {
					e["json"] = err.Error()
					return
				}
				u := t
				u.p, err = voteproof.ProofUnmarshalJSON(b, ff, g)
				if err != nil {
					e["json"] = err.Error()
					return
				}
				e["json"] = u.verify()
			})
			var damaged []string
			for i, s := range vfEqSlots {
				if !vfThorough && (i+gi)%2 == 1 {
					continue
				}
				var G group.Group = g
				if s.ff {
					G = ff
				}
				m := t
				*s.at(&m) = G.Element().Add(*s.at(&t), G.Generator())
				damaged = append(damaged, m.verify())
			}
			m := t
			m.p.Z = new(big.Int).Add(t.p.Z, big.NewInt(1))
			damaged = append(damaged, m.verify())
			m = t
			m.p.Sq1 = new(big.Int).Add(t.p.Sq1, big.NewInt(1))
			damaged = append(damaged, m.verify())
			m = t
			m.p.Sq2 = new(big.Int).Add(t.p.Sq2, big.NewInt(1))
			damaged = append(damaged, m.verify())
			m = t
			m.p.Sp = new(big.Int).Add(t.p.Sp, big.NewInt(1))
			damaged = append(damaged, m.verify())
			e["damaged"] = damaged
			tr.log(e)
		}
	}
}

func init() {
	vfSuites["sigma"] = vfSuiteSigma
	vfSuites["window"] = vfSuiteWindow
	vfSuites["eqsetup"] = vfSuiteEqSetup
	vfSuites["sigmareal"] = vfSuiteSigmaReal
}
