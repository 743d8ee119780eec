package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"strconv"
	"strings"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
)

// Documents: serialised proofs and ballots, damaged as the specification says.

type vfDamage struct {
	Path []string `json:"path"`
	How  string   `json:"how"`
}

// docKind is one kind of document of one election.
type vfDocKind struct {
	kind   string
	ec, ff group.Group
	doc    []byte
	// read parses and verifies; the parts it saw come back as strings
	read func(doc []byte) (outcome string, parts map[string]string)
}

// ffPath: whether the element at the path belongs to the ElGamal group.
func vfFfPath(p []string) bool {
	for _, k := range p {
		switch k {
		case "u", "v", "W", "Kp", "GFF":
			return true
		}
	}
	return false
}

// outside makes a document of something that is not an element of g.
func vfOutside(g group.Group, cur any, how string, r *vfRng) (any, bool) {
	num := func(v *big.Int) any { return json.Number(v.String()) }
	one := big.NewInt(1)
	switch g.Name() {
	case "SymEC", "SymFF":
		switch how {
		case "outside":
			return map[string]any{"sym": map[string]any{"G": num(g.N())}}, true
		case "partial":
			return map[string]any{"sym": nil}, true
		case "wrap":
			return map[string]any{"sym": map[string]any{"G": num(new(big.Int).Add(g.N(), one))}}, true
		}
		return nil, false
	}
	switch c := cur.(type) {
	case map[string]any: // coordinates
		out := vfCopyTree(c).(map[string]any)
		for k, v := range out {
			n, ok := v.(json.Number)
			if !ok {
				return nil, false
			}
			x, _ := new(big.Int).SetString(string(n), 10)
			switch how {
			case "outside":
				out[k] = num(new(big.Int).Xor(x, one))
			case "partial":
				delete(out, k)
			case "wrap":
				out[k] = num(new(big.Int).Add(x, g.P()))
			}
			if r.n(3) > 0 {
				break
			}
		}
		if how == "outside" { // one coordinate at random may still be missed above
			for k := range out {
				out[k] = c[k]
			}
			for k := range out {
				x, _ := new(big.Int).SetString(string(c[k].(json.Number)), 10)
				out[k] = num(new(big.Int).Xor(x, one))
				break
			}
		}
		return out, true
	case json.Number:
		x, _ := new(big.Int).SetString(string(c), 10)
		switch how {
		case "outside": // the negative is no square modulo a safe prime
			return num(new(big.Int).Sub(g.P(), x)), true
		case "wrap":
			return num(new(big.Int).Add(g.P(), x)), true
		}
		return nil, false
	case string:
		b, err := base64.StdEncoding.DecodeString(c)
		if err != nil || len(b) == 0 {
			return nil, false
		}
		switch how {
		case "outside":
			b[0] ^= 1 // negative: not canonical
		case "partial":
			b = b[:len(b)-1]
		case "wrap":
			b[len(b)-1] |= 0x80
		}
		return base64.StdEncoding.EncodeToString(b), true
	}
	return nil, false
}

func vfForeign(g group.Group) (any, bool) {
	var o group.Group = group.P384()
	switch g.Name() {
	case "SymEC", "SymFF":
		return nil, false
	case o.Name():
		o = group.P256()
	}
	b, err := json.Marshal(o.Generator())
	if err != nil {
		return nil, false
	}
	return vfParseTree(b), true
}

// apply damages a tree; false when there is nothing to damage.
func (k *vfDocKind) apply(tree any, d vfDamage, r *vfRng) (any, bool) {
	var hit bool
	var walk func(v any, p []string) any
	walk = func(v any, p []string) any {
		switch c := v.(type) {
		case map[string]any:
			x, ok := c[p[0]]
			if !ok {
				return v
			}
			if len(p) > 1 {
				c[p[0]] = walk(x, p[1:])
				return c
			}
			if d.How == "absent" {
				delete(c, p[0])
				hit = true
				return c
			}
			if n, ok := k.change(x, d, r); ok {
				hit = true
				c[p[0]] = n
			}
			return c
		case []any:
			i, err := strconv.Atoi(strings.TrimPrefix(p[0], "#"))
			if err != nil || i >= len(c) {
				return v
			}
			if len(p) > 1 {
				c[i] = walk(c[i], p[1:])
				return c
			}
			if d.How == "absent" {
				hit = true
				return append(append([]any(nil), c[:i]...), c[i+1:]...)
			}
			if n, ok := k.change(c[i], d, r); ok {
				hit = true
				c[i] = n
			}
			return c
		}
		return v
	}
	tree = walk(tree, d.Path)
	return tree, hit
}

func (k *vfDocKind) change(x any, d vfDamage, r *vfRng) (any, bool) {
	g := k.ec
	if vfFfPath(d.Path) {
		g = k.ff
	}
	list, isList := x.([]any)
	switch d.How {
	case "null":
		return nil, x != nil
	case "string":
		return "x", true
	case "true":
		return true, true
	case "list":
		return []any{}, true
	case "object":
		return map[string]any{}, true
	case "zero":
		return json.Number("0"), true
	case "number":
		return json.Number("7"), true
	case "negative":
		return json.Number("-4"), true
	case "fraction":
		return json.Number("4.5"), true
	case "hex":
		return "0x10", true
	case "keyed":
		return map[string]any{"value": x}, true
	case "huge":
		n := new(big.Int).Lsh(big.NewInt(3), 40000)
		return json.Number(n.String()), true
	case "outside", "partial":
		return vfOutside(g, x, d.How, r)
	case "wrap":
		if len(d.Path) == 1 && k.kind == "ballot" {
			return []any{x}, true
		}
		if len(d.Path) > 0 && d.Path[len(d.Path)-1] == "InnerProductProof" {
			return []any{x}, true
		}
		return vfOutside(g, x, d.How, r)
	case "foreign":
		return vfForeign(g)
	case "empty":
		return []any{}, isList && len(list) > 0
	case "shorter":
		if !isList || len(list) == 0 {
			return nil, false
		}
		return list[:len(list)-1], true
	case "longer":
		if !isList || len(list) == 0 {
			return nil, false
		}
		return append(append([]any(nil), list...), list[0]), true
	case "repeat":
		if !isList || len(list) == 0 {
			return nil, false
		}
		return append(append([]any(nil), list...), list...), true
	case "shift":
		if !isList || len(list) < 2 {
			return nil, false
		}
		return list[1:], true
	case "nested":
		return []any{x}, isList
	}
	return nil, false
}

func (k *vfDocKind) text(how string, r *vfRng) []byte {
	switch how {
	case "nothing":
		return nil
	case "nulltext":
		return []byte("null")
	case "listtext":
		return []byte("[]")
	case "numbertext":
		return []byte("0")
	case "stringtext":
		return []byte(`"ballot"`)
	case "brace":
		return []byte("{")
	case "emptyobject":
		return []byte("{}")
	case "trailing":
		return append(append([]byte(nil), k.doc...), "}"...)
	case "twice":
		return append(append([]byte(nil), k.doc...), k.doc...)
	case "deep":
		return append(bytes.Repeat([]byte("["), 200000), bytes.Repeat([]byte("]"), 200000)...)
	case "bom":
		return append([]byte("\xef\xbb\xbf"), k.doc...)
	case "cut":
		return k.doc[:r.n(len(k.doc)-1)+1]
	}
	panic(how)
}

func vfElemString(e group.Element) string {
	if e == nil {
		return "nil"
	}
	return e.String()
}

func vfNumString(v *big.Int) string {
	if v == nil {
		return "nil"
	}
	return v.String()
}

func vfBpParts(m map[string]string, pre string, p bulletproofs.BulletProof) {
	for n, e := range map[string]group.Element{"V": p.V, "A": p.A, "S": p.S, "T1": p.T1, "T2": p.T2, "P": p.InnerProductProof.P} {
		m[pre+n] = vfElemString(e)
	}
	for n, v := range map[string]*big.Int{"Taux": p.Taux, "Mu": p.Mu, "Tprime": p.Tprime, "Cc": p.InnerProductProof.Cc, "a": p.InnerProductProof.A, "b": p.InnerProductProof.B} {
		m[pre+n] = vfNumString(v)
	}
	for n, l := range map[string][]group.Element{"L": p.InnerProductProof.L, "R": p.InnerProductProof.R} {
		m[pre+n] = strconv.Itoa(len(l))
		for i := range l {
			m[pre+n+strconv.Itoa(i)] = vfElemString(l[i])
		}
	}
}

func vfEqParts(m map[string]string, pre string, p voteproof.SigmaProof) {
	for n, e := range map[string]group.Element{"W": p.W, "Kp": p.Kp, "Kq1": p.Kq1, "Kq2": p.Kq2} {
		m[pre+n] = vfElemString(e)
	}
	for n, v := range map[string]*big.Int{"Challenge": p.Challenge, "Z": p.Z, "Sp": p.Sp, "Sq1": p.Sq1, "Sq2": p.Sq2} {
		m[pre+n] = vfNumString(v)
	}
	P := p.Params
	m[pre+"params"] = fmt.Sprint(P.Bx, P.Bc, P.Bg, P.Bb, P.RangeLo, P.RangeHi, P.GFF.N, P.GFF.F, P.GEC.N, P.GEC.F,
		vfElemString(P.GFF.G), vfElemString(P.GFF.H), vfElemString(P.GEC.G), vfElemString(P.GEC.H))
}

func vfBallotParts(b BallotData) map[string]string {
	m := map[string]string{"u": vfElemString(b.Ballot.U), "v": vfElemString(b.Ballot.V)}
	vfBpParts(m, "lb.", b.BpLower)
	vfBpParts(m, "ub.", b.BpUpper)
	vfEqParts(m, "eq.", b.VoteProof)
	return m
}

func vfMarshal(v any) []byte {
	var b []byte
	if vfGuard(func() { b, _ = json.Marshal(v) }) != "" {
		return nil
	}
	return b
}

// kinds: the four kinds of documents of one ballot.
func vfDocKinds(b BallotData, pp PublicParameters) []vfDocKind {
	ec, ff := pp.ECGroupParams.I, pp.FFGroupParams.I
	st := vfStatementOf(b, pp)
	run := func(f func() (string, map[string]string)) (o string, m map[string]string) {
		if vfGuard(func() { o, m = f() }) != "" {
			return "panic", map[string]string{}
		}
		if m == nil {
			m = map[string]string{}
		}
		return
	}
	verdict := func(ok bool) string {
		if ok {
			return "accept"
		}
		return "reject"
	}
	return []vfDocKind{
		{"ct", ec, ff, vfMarshal(b.Ballot), func(doc []byte) (string, map[string]string) {
			return run(func() (string, map[string]string) {
				c, err := BallotUnmarshalJSON(doc, ff)
				if err != nil {
					return "error", nil
				}
				return "accept", map[string]string{"u": vfElemString(c.U), "v": vfElemString(c.V)}
			})
		}},
		{"bp", ec, ff, vfMarshal(b.BpLower), func(doc []byte) (string, map[string]string) {
			return run(func() (string, map[string]string) {
				p, err := bulletproofs.BulletProofUnmarshalJSON(doc, pp.BPParams)
				if err != nil {
					return "error", nil
				}
				m := map[string]string{}
				vfBpParts(m, "", p)
				ok, _ := p.Verify()
				return verdict(ok), m
			})
		}},
		{"eq", ec, ff, vfMarshal(b.VoteProof), func(doc []byte) (string, map[string]string) {
			return run(func() (string, map[string]string) {
				p, err := voteproof.ProofUnmarshalJSON(doc, ff, ec)
				if err != nil {
					return "error", nil
				}
				m := map[string]string{}
				vfEqParts(m, "", p)
				return verdict(p.Verify(st)), m
			})
		}},
		{"ballot", ec, ff, vfMarshal(b), func(doc []byte) (string, map[string]string) {
			return run(func() (string, map[string]string) {
				p, err := BallotDataUnmarshalJSON(doc, pp)
				if err != nil {
					return "error", nil
				}
				m := vfBallotParts(p)
				ok, _ := verifyVote(p, pp.RPParams)
				return verdict(ok), m
			})
		}},
	}
}

func vfDocWorlds() (ids []string, pps []PublicParameters) {
	w := vfNewSymWorld(4, 8, 224, 100, 115)
	ids, pps = append(ids, "sym"), append(pps, w.pp)
	ff := vfFfGroup()
	for _, g := range vfRealGroups() {
		pp, err := vfMakeParams(g, ff, ff.Element().BaseScale(big.NewInt(13)), 4, 8, 224, 100, 115)
		if err != nil {
			continue
		}
		ids, pps = append(ids, g.Name()), append(pps, pp)
	}
	return
}

// vfHollowBallot is a valid ballot all of whose masks are zero, and which has
// the same range proof on both sides: a part that is left out has the value
// most likely to be put in its place.
func vfHollowBallot(r *vfRng) (b BallotData, pp PublicParameters, ok bool) {
	w := vfNewSymWorld(4, 8, 8, 102, 102)
	q := &vfEqWorld{ff: w.ff, ec: w.ec, params: w.pp.RPParams, nf: vfNames{}, ne: w.names(), fp: vfField{vfSymQFF}, fq: vfField{vfSymQ}, bx: 8, bc: 8, bg: int(w.pp.RPParams.Bg)}
	msg := vfGuard(func() {
		fo := vfNewForger(w.ec, 4, 1, true, r)
		fo.params = w.pp.BPParams
		fo.nm = vfBpNames(w.pp.BPParams, fo.u)
		zero := []*big.Int{new(big.Int)}
		a := fo.forgeWith(zero, zero, "", "gamma=0,alpha=0,rho=0,tau1=0,tau2=0,sL=0,sR=0")
		p := a.toSingle()
		p.Params = w.pp.BPParams
		var t vfEqTranscript
		x, k, none := big.NewInt(102), q.mid(), new(big.Int)
		t.st.Y, t.st.Xp = q.enc(x, none)
		t.st.Xq1, t.st.Xq2 = q.ped(x, none), q.ped(x, none)
		t.p.W, t.p.Kp = q.enc(k, none)
		t.p.Kq1, t.p.Kq2 = q.ped(k, none), q.ped(k, none)
		t.p.Params = w.pp.RPParams
		t.p.Challenge, t.p.Z, t.p.Sp, t.p.Sq1, t.p.Sq2 = none, k, none, none, none
		cs := q.challenges(t)
		if len(cs) != 1 {
			return
		}
		t.p.Challenge = big.NewInt(int64(cs[0]))
		t.p.Z = new(big.Int).Add(k, new(big.Int).Mul(t.p.Challenge, x))
		b = BallotData{Ballot: ElGamalCiphertext{U: t.st.Y, V: t.st.Xp}, BpLower: p, BpUpper: p, VoteProof: t.p}
		pp = w.pp
		ok = vfCollect(b, pp) == "accept"
	})
	return b, pp, ok && msg == ""
}

// suiteDocs replays the damages listed in VERIF_IN for one kind of document.
func vfSuiteDocs() {
	kind := os.Getenv("VERIF_SALT")
	r := vfNewRng("docs" + kind)
	var cmds [][]vfDamage
	vfReadLines(vfInDir+"/behaviours.ndjson", func(l []byte) {
		var c []vfDamage
		if err := json.Unmarshal(l, &c); err != nil {
			panic(err)
		}
		cmds = append(cmds, c)
	})
	tr := vfNewTrace("docs-" + kind)
	defer tr.close()
	ids, pps := vfDocWorlds()
	hollow, hpp, ok := vfHollowBallot(r)
	if ok {
		ids, pps = append(ids, "hollow"), append(pps, hpp)
	} else {
		vfNote("no hollow ballot")
	}
	plain := map[string]bool{"absent": true, "null": true, "string": true, "true": true, "list": true, "object": true}
	for wi, pp := range pps {
		isHollow := ids[wi] == "hollow"
		b, msg := hollow, ""
		if !isHollow {
			b, msg = vfCast(pp)
		}
		if msg != "" {
			tr.log(vfEv{"ev": "noballot", "id": ids[wi], "why": msg})
			continue
		}
		for _, k := range vfDocKinds(b, pp) {
			if k.kind != kind {
				continue
			}
			k := k
			frac := 1 // share of the pairs that is run
			if !vfThorough {
				frac = map[string]int{"bp": 6, "ballot": 60, "eq": 2, "ct": 1}[kind]
				if wi > 0 {
					frac *= 4
				}
			} else if kind == "ballot" {
				frac = 4
				if wi > 0 {
					frac = 12
				}
			}
			off := r.n(frac)
			salt := r.n(1 << 30)
			vfParallel(len(cmds), func(i int) {
				c := cmds[i]
				if isHollow {
					for _, d := range c {
						if len(d.Path) == 0 || !plain[d.How] {
							return
						}
					}
				}
				if len(c) > 1 && i%frac != off {
					return
				}
				rr := vfNewRng(fmt.Sprint("doc", salt, i))
				var doc []byte
				done := []vfDamage{}
				if len(c) == 1 && len(c[0].Path) == 0 {
					doc, done = k.text(c[0].How, rr), c
				} else {
					tree := vfParseTree(k.doc)
					for _, d := range c {
						t, ok := k.apply(tree, d, rr)
						if ok {
							tree, done = t, append(done, d)
						}
					}
					if len(done) < len(c) && len(done) == 0 {
						return
					}
					doc = vfMarshal(tree)
				}
				o, _ := k.read(doc)
				tr.log(vfEv{"ev": "doc", "id": ids[wi], "kind": k.kind, "rounds": 2, "damage": done, "outcome": o})
			})
		}
	}
}

// suiteBytes: cuts at every byte (sampled), flipped and inserted bytes; and
// round trips of honest and of altered objects.
func vfSuiteBytes() {
	tr := vfNewTrace("bytes")
	defer tr.close()
	r := vfNewRng("bytes")
	ids, pps := vfDocWorlds()
	for wi, pp := range pps {
		b, msg := vfCast(pp)
		if msg != "" {
			tr.log(vfEv{"ev": "noballot", "id": ids[wi], "why": msg})
			continue
		}
		for _, k := range vfDocKinds(b, pp) {
			k := k
			_, before := k.read(k.doc)
			n := vfPick(60, 1500)
			type job struct {
				doc []byte
				id  string
			}
			var jobs []job
			for j := 0; j < n; j++ {
				d := append([]byte(nil), k.doc...)
				switch at := r.n(len(d)); j % 5 {
				case 0:
					jobs = append(jobs, job{d[:at], fmt.Sprint("cut ", at)})
				case 1:
					d[at] ^= 1 << r.n(8)
					jobs = append(jobs, job{d, fmt.Sprint("flip ", at)})
				case 2:
					d[at] = byte(r.n(256))
					jobs = append(jobs, job{d, fmt.Sprint("byte ", at)})
				case 3:
					to := min(len(d), at+1+r.n(20))
					jobs = append(jobs, job{append(append([]byte(nil), d[:at]...), d[to:]...), fmt.Sprint("remove ", at, " ", to)})
				case 4:
					ins := []string{"0", "9", "-", "}", "]", "{", "\"", ",", "null", " ", "e1", "."}[r.n(12)]
					jobs = append(jobs, job{append(append(append([]byte(nil), d[:at]...), ins...), k.doc[at:]...), fmt.Sprint("insert ", ins, " at ", at)})
				}
			}
			vfParallel(len(jobs), func(i int) {
				o, after := k.read(jobs[i].doc)
				if o != "accept" {
					after = map[string]string{}
				} else {
					// carried parameters may differ, what is verified may not
					after = vfWithout(after)
				}
				bf := map[string]string{}
				if o == "accept" {
					bf = vfWithout(before)
				}
				tr.log(vfEv{"ev": "bytes", "kind": k.kind, "id": ids[wi] + " " + jobs[i].id, "outcome": o, "before": bf, "after": after})
			})
		}
	}
}

func vfWithout(m map[string]string) map[string]string {
	out := map[string]string{}
	for k, v := range m {
		if !strings.HasSuffix(k, "params") {
			out[k] = v
		}
	}
	return out
}

// vfAllParts lists all components of a ballot, those that take no part in its
// verification included.
func vfAllParts(b BallotData) map[string]string {
	m := vfBallotParts(b)
	for k, p := range map[string]bulletproofs.BulletProof{"lb.": b.BpLower, "ub.": b.BpUpper} {
		ip := p.InnerProductProof.Params
		m[k+"ip.Uu"] = vfElemString(ip.Uu)
		for i := range ip.Gg {
			m[fmt.Sprint(k, "ip.Gg", i)] = vfElemString(ip.Gg[i])
		}
		for i := range ip.Hh {
			m[fmt.Sprint(k, "ip.Hh", i)] = vfElemString(ip.Hh[i])
		}
	}
	return m
}

func vfOddNumbers(cur, q *big.Int) []*big.Int {
	return []*big.Int{new(big.Int), big.NewInt(-1), new(big.Int).Neg(cur), new(big.Int).Add(cur, q), new(big.Int).Lsh(cur, 300)}
}

func vfSuiteRoundTrip() {
	tr := vfNewTrace("roundtrip")
	defer tr.close()
	r := vfNewRng("roundtrip")
	log := func(id string, b BallotData, pp PublicParameters, honest bool) {
		e := vfEv{"ev": "roundtrip", "id": id, "parsed": "", "before": vfAllParts(b), "after": map[string]string{}, "again": map[string]string{},
			"verdict": vfCollect(b, pp), "back": "none", "honest": honest}
		if msg := vfGuard(func() {
			doc, err := json.Marshal(b)
			if err != nil {
				e["parsed"] = err.Error()
				return
			}
			p, err := BallotDataUnmarshalJSON(doc, pp)
			if err != nil {
				e["parsed"] = err.Error()
				return
			}
			e["after"] = vfAllParts(p)
			again, err := json.Marshal(p)
			if q, err2 := BallotDataUnmarshalJSON(again, pp); err == nil && err2 == nil {
				e["again"] = vfAllParts(q)
			}
			e["back"] = vfCollect(p, pp)
		}); msg != "" {
			e["parsed"] = msg
		}
		tr.log(e)
	}
	run := func(id string, pp PublicParameters, times, alter int) {
		for t := 0; t < times; t++ {
			b, msg := vfCast(pp)
			if msg != "" {
				tr.log(vfEv{"ev": "noballot", "id": id, "why": msg})
				continue
			}
			log(id+" honest", b, pp, true)
			o, _ := vfCast(pp)
			elems, nums := vfBallotElems(b), vfBallotNums()
			if t == 0 { // every number, also negative, zero and long
				for _, s := range nums {
					for k, v := range vfOddNumbers(*s.at(&b), pp.ECGroupParams.N) {
						m := vfCloneBallot(b)
						*s.at(&m) = v
						log(fmt.Sprint(id, " altered ", s.name, " ", k), m, pp, false)
					}
				}
			}
			for j := 0; j < alter; j++ {
				m := vfCloneBallot(b)
				if r.n(2) == 0 {
					s := elems[r.n(len(elems))]
					g := pp.ECGroupParams.I
					if s.ff {
						g = pp.FFGroupParams.I
					}
					switch r.n(3) {
					case 0:
						*s.at(&m) = g.Identity()
					case 1:
						*s.at(&m) = *s.at(&o)
					case 2:
						*s.at(&m) = g.Element().BaseScale(r.bits(64))
					}
					log(id+" altered "+s.name, m, pp, false)
				} else {
					s := nums[r.n(len(nums))]
					cur := *s.at(&m)
					*s.at(&m) = append(vfOddNumbers(cur, pp.ECGroupParams.N), *s.at(&o))[r.n(6)]
					log(id+" altered "+s.name, m, pp, false)
				}
			}
		}
	}
	for _, n := range []uint{1, 2, 4, 8, 16} {
		hi := uint16(min(100+(1<<n)-1, 60000))
		w := vfNewSymWorld(n, 16, 224, 100, hi)
		run(fmt.Sprint("sym n=", n), w.pp, vfPick(2, 8), vfPick(10, 60))
	}
	ff := vfFfGroup()
	for _, g := range vfRealGroups() {
		pp, err := vfMakeParams(g, ff, ff.Element().BaseScale(big.NewInt(13)), 4, 8, 224, 100, 115)
		if err != nil {
			continue
		}
		run(g.Name(), pp, vfPick(1, 4), vfPick(8, 40))
	}
}

func init() {
	vfSuites["docs"] = vfSuiteDocs
	vfSuites["bytes"] = vfSuiteBytes
	vfSuites["roundtrip"] = vfSuiteRoundTrip
}
