package main

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/zzverif/sym"
)

// Which transcript component changes which challenge. Challenges are read off
// the equations the verifier evaluates; round challenges as their squares.

func (c vfChal) out(f vfField) map[string]string {
	r := map[string]string{"y": c.y.String(), "z": c.z.String(), "x": c.x.String(), "xu": c.xu.String()}
	for i, x := range c.xs {
		r["x"+strconv.Itoa(i)] = f.mul(x, x).String()
	}
	return r
}

// drawn collects the values each challenge took over many transcripts.
type vfDrawn map[string][]string

func (d vfDrawn) add(c map[string]string) {
	for name, v := range c {
		old := false
		for _, o := range d[name] {
			old = old || o == v
		}
		if !old && len(d[name]) < 120 {
			d[name] = append(d[name], v)
		}
	}
}

// log writes them down, for challenges of which there are enough values.
func (d vfDrawn) log(t *vfTrace, id string) {
	for name, v := range d {
		if len(v) < 60 {
			delete(d, name)
		}
	}
	if len(d) > 0 {
		t.log(vfEv{"ev": "spread", "id": id, "bits": vfSymQ.BitLen(), "drawn": d})
	}
}

type vfAggSlot struct {
	name string
	at   func(*vfAgg) *group.Element
}

func vfAggSlots(a vfAgg) []vfAggSlot {
	s := []vfAggSlot{
		{"A", func(x *vfAgg) *group.Element { return &x.A }}, {"S", func(x *vfAgg) *group.Element { return &x.S }},
		{"T1", func(x *vfAgg) *group.Element { return &x.T1 }}, {"T2", func(x *vfAgg) *group.Element { return &x.T2 }},
		{"P", func(x *vfAgg) *group.Element { return &x.IP.P }},
	}
	for j := range a.Vs {
		j := j
		s = append(s, vfAggSlot{"V" + strconv.Itoa(j), func(x *vfAgg) *group.Element { return &x.Vs[j] }})
	}
	for j := range a.IP.L {
		j := j
		s = append(s, vfAggSlot{"L" + strconv.Itoa(j), func(x *vfAgg) *group.Element { return &x.IP.L[j] }},
			vfAggSlot{"R" + strconv.Itoa(j), func(x *vfAgg) *group.Element { return &x.IP.R[j] }})
	}
	return s
}

// similar are two strings, as long as elements of the largest groups write
// themselves, that differ in one place.
func vfSimilar(place int) (string, string) {
	x := []byte(strings.Repeat("8314159265", 130))
	if place < 0 {
		place += len(x)
	}
	y := append([]byte(nil), x...)
	y[place] = 'f'
	return string(x), string(y)
}

var vfPlaces = []int{0, 1, 16, 31, 32, 63, 64, 80, 95, 96, 127, 128, 160, 192, 255, 256, 400, 511, 512, 700, 924, 1023, 1024, -2, -1}

func vfBindRange(t *vfTrace, bits, m int, single bool, g *sym.Group, r *vfRng) {
	f := vfField{g.N()}
	fo := vfNewForger(g, uint(bits), m, single, r)
	id := fmt.Sprintf("range N=%d m=%d", bits, m)
	vals := make([]*big.Int, m)
	for j := range vals {
		vals[j] = r.big(new(big.Int).Lsh(big.NewInt(1), uint(bits/m)))
	}
	var a vfAgg
	var err error
	msg := vfGuard(func() {
		if single {
			var p bulletproofs.BulletProof
			p, _, err = bulletproofs.Prove(vals[0], fo.params)
			a = vfFromSingle(p)
		} else {
			var p bulletproofs.MultiBulletProof
			p, _, err = bulletproofs.MultiProve(vals, fo.params)
			a = vfFromMulti(p)
		}
	})
	if msg != "" || err != nil {
		return // completeness is judged elsewhere
	}
	k := len(a.IP.L)
	t.log(vfEv{"ev": "session", "kind": "range", "id": id, "m": m, "k": k, "n": bits, "verdict": a.verify()})
	read := func(x vfAgg) (map[string]string, string) {
		x.That = x.IP.Cc
		var c vfChal
		var why string
		if msg := vfGuard(func() { c, _, why = vfChallengesOf(x, g, fo.nm) }); msg != "" {
			return nil, msg
		}
		if why != "" {
			return nil, why
		}
		return c.out(f), ""
	}
	base, why := read(a)
	if why != "" {
		t.log(vfEv{"ev": "opaque", "id": id, "why": why})
		return
	}
	t.log(vfEv{"ev": "drawn", "id": id, "after": base})
	all := vfDrawn{}
	all.add(base)
	defer func() { all.log(t, id) }()
	report := func(how string, comps []string, before map[string]string, b vfAgg) {
		after, why := read(b)
		if why != "" {
			t.log(vfEv{"ev": "refused", "id": id, "how": how, "why": why})
			return
		}
		t.log(vfEv{"ev": "bind", "id": id, "how": how, "comps": comps, "before": before, "after": after})
		all.add(before)
		all.add(after)
	}
	slots := vfAggSlots(a)
	for _, s := range slots {
		cur := *s.at(&a)
		for how, e := range map[string]group.Element{
			"other": g.Element().Add(cur, g.Element().BaseScale(fo.rnd())), "plusH": g.Element().Add(cur, fo.params.H),
			"negated": g.Element().Negate(cur), "zero": g.Identity()} {
			b := a.clone()
			*s.at(&b) = e
			report(how, []string{s.name}, base, b)
		}
	}
	for i, s := range slots {
		for k, p := range vfPlaces {
			if len(slots) > 20 && !vfThorough && (i+k)%5 != 0 {
				continue
			}
			one, two := a.clone(), a.clone()
			x, y := vfSimilar(p)
			*s.at(&one), *s.at(&two) = g.Fake(x), g.Fake(y)
			if before, why := read(one); why == "" {
				report("similar at "+strconv.Itoa(p), []string{s.name}, before, two)
			}
		}
	}
	b := a.clone()
	b.IP.Cc = f.add(a.IP.Cc, big.NewInt(1))
	report("other", []string{"c"}, base, b)
	b = a.clone()
	b.IP.Cc = f.neg(a.IP.Cc)
	report("negated", []string{"c"}, base, b)
	b = a.clone()
	b.IP.Cc = new(big.Int).Neg(a.IP.Cc)
	report("sign", []string{"c"}, base, b)
	// exchanged, and the boundary between two components moved
	for i, s := range slots {
		for j, o := range slots {
			if i == j || len(slots) > 20 && !vfThorough && j != i+1 && (i+j)%17 != 0 {
				continue
			}
			if i < j {
				b := a.clone()
				*s.at(&b), *o.at(&b) = *o.at(&a), *s.at(&a)
				report("exchanged", []string{s.name, o.name}, base, b)
				b, c := a.clone(), a.clone()
				*s.at(&b), *o.at(&c) = g.Identity(), g.Identity()
				*o.at(&b), *s.at(&c) = *s.at(&a), *s.at(&a)
				if before, why := read(b); why == "" {
					report("neutral element moved", []string{s.name, o.name}, before, c)
				}
			}
			one, two := a.clone(), a.clone()
			*s.at(&one), *o.at(&one) = g.Fake("123456"), g.Fake("789")
			*s.at(&two), *o.at(&two) = g.Fake("1234"), g.Fake("56789")
			if before, why := read(one); why == "" {
				report("boundary", []string{s.name, o.name}, before, two)
			}
		}
	}
}

func vfBindProduct(t *vfTrace, n int, g *sym.Group, r *vfRng) {
	f := vfField{g.N()}
	id := fmt.Sprintf("product n=%d", n)
	mk := func(l string, n int) []group.Element {
		v := make([]group.Element, n)
		for i := range v {
			v[i] = g.Label(l + strconv.Itoa(i))
		}
		return v
	}
	gs, hs := mk("g", n), mk("h", n)
	params, err := bulletproofs.VerifIPSetup(gs, hs, int64(n), g)
	if err != nil {
		panic(err)
	}
	nm := vfNames{}
	nm.bind(params.Uu, "U")
	a, b := make([]*big.Int, n), make([]*big.Int, n)
	for i := range a {
		a[i], b[i] = r.big(f.q), r.big(f.q)
	}
	P := bulletproofs.VerifIPCommit(gs, hs, a, b, g)
	var p vfIpp
	if msg := vfGuard(func() { p, err = bulletproofs.VerifIPProve(a, b, P, f.ip(a, b), params) }); msg != "" || err != nil {
		return
	}
	t.log(vfEv{"ev": "session", "kind": "product", "id": id, "m": 0, "k": len(p.L), "n": n, "verdict": vfIpVerify(p)})
	read := func(x vfIpp) (map[string]string, string) {
		// the generators must be told apart by their labels, whatever they hash like
		var xu *big.Int
		var xs []*big.Int
		var why string
		if msg := vfGuard(func() { xu, xs, why = vfIpChallenges(x, g, nm) }); msg != "" {
			return nil, msg
		}
		if why != "" {
			return nil, why
		}
		m := map[string]string{"xu": xu.String()}
		for i, x := range xs {
			m["x"+strconv.Itoa(i)] = f.mul(x, x).String()
			if len(xs) == 1 {
				m["x0"] = x.String() // of several, only the product's sign is known
			}
		}
		return m, ""
	}
	base, why := read(p)
	if why != "" {
		t.log(vfEv{"ev": "opaque", "id": id, "why": why})
		return
	}
	t.log(vfEv{"ev": "drawn", "id": id, "after": base})
	all := vfDrawn{}
	all.add(base)
	defer func() { all.log(t, id) }()
	report := func(how string, comps []string, before map[string]string, q vfIpp) {
		after, why := read(q)
		if why != "" {
			t.log(vfEv{"ev": "refused", "id": id, "how": how, "why": why})
			return
		}
		t.log(vfEv{"ev": "bind", "id": id, "how": how, "comps": comps, "before": before, "after": after})
		all.add(before)
		all.add(after)
	}
	type slot struct {
		name string
		lab  string
		at   func(*vfIpp) *group.Element
	}
	clone := func(p vfIpp) vfIpp {
		q := vfIpClone(p)
		q.Params.Gg = append([]group.Element(nil), p.Params.Gg...)
		q.Params.Hh = append([]group.Element(nil), p.Params.Hh...)
		return q
	}
	slots := []slot{{"P", "", func(x *vfIpp) *group.Element { return &x.P }}}
	for i := 0; i < n; i++ {
		i := i
		slots = append(slots, slot{"g" + strconv.Itoa(i), "g" + strconv.Itoa(i), func(x *vfIpp) *group.Element { return &x.Params.Gg[i] }},
			slot{"h" + strconv.Itoa(i), "h" + strconv.Itoa(i), func(x *vfIpp) *group.Element { return &x.Params.Hh[i] }})
	}
	for i := range p.L {
		i := i
		slots = append(slots, slot{"L" + strconv.Itoa(i), "", func(x *vfIpp) *group.Element { return &x.L[i] }},
			slot{"R" + strconv.Itoa(i), "", func(x *vfIpp) *group.Element { return &x.R[i] }})
	}
	like := func(s slot, e group.Element) group.Element {
		if s.lab != "" {
			return g.Fresh(s.lab, e) // same generator, hashing like e
		}
		return e
	}
	for _, s := range slots {
		q := clone(p)
		*s.at(&q) = like(s, g.Element().BaseScale(r.big(f.q)))
		report("other", []string{s.name}, base, q)
	}
	for i, s := range slots {
		for k, p0 := range vfPlaces {
			if len(slots) > 20 && !vfThorough && (i+k)%5 != 0 {
				continue
			}
			one, two := clone(p), clone(p)
			x, y := vfSimilar(p0)
			*s.at(&one), *s.at(&two) = like(s, g.Fake(x)), like(s, g.Fake(y))
			if before, why := read(one); why == "" {
				report("similar at "+strconv.Itoa(p0), []string{s.name}, before, two)
			}
		}
	}
	// every bit of the claimed product counts
	for k := 0; k < 256; k += 5 {
		q := clone(p)
		q.Cc = new(big.Int).SetBit(p.Cc, k, 1-p.Cc.Bit(k))
		if q.Cc.Cmp(f.q) < 0 {
			report("bit "+strconv.Itoa(k), []string{"c"}, base, q)
		}
	}
	q := clone(p)
	q.Cc = f.add(p.Cc, big.NewInt(1))
	report("other", []string{"c"}, base, q)
	q = clone(p)
	q.Cc = new(big.Int).Neg(p.Cc)
	report("sign", []string{"c"}, base, q)
	for i, s := range slots {
		for j, o := range slots {
			if i == j || len(slots) > 20 && !vfThorough && j != i+1 && (i+j)%17 != 0 {
				continue
			}
			if i < j {
				q := clone(p)
				*s.at(&q), *o.at(&q) = like(s, *o.at(&p)), like(o, *s.at(&p))
				report("exchanged", []string{s.name, o.name}, base, q)
				b, c := clone(p), clone(p)
				*s.at(&b), *o.at(&c) = like(s, g.Identity()), like(o, g.Identity())
				*o.at(&b), *s.at(&c) = like(o, *s.at(&p)), like(s, *s.at(&p))
				if before, why := read(b); why == "" {
					report("neutral element moved", []string{s.name, o.name}, before, c)
				}
			}
			one, two := clone(p), clone(p)
			*s.at(&one), *o.at(&one) = like(s, g.Fake("123456")), like(o, g.Fake("789"))
			*s.at(&two), *o.at(&two) = like(s, g.Fake("1234")), like(o, g.Fake("56789"))
			if before, why := read(one); why == "" {
				report("boundary", []string{s.name, o.name}, before, two)
			}
		}
	}
}

// bindEqual: the equality proof carries its challenge, and the verifier must
// refuse any other, even if all group comparisons succeed.
func vfBindEqual(t *vfTrace, bc uint16, r *vfRng) {
	w, err := vfNewEqWorld(8, bc, 256, 3, 200)
	if err != nil {
		return
	}
	id := fmt.Sprintf("equal bc=%d", bc)
	hon, msg := w.honest(big.NewInt(77), r.big(vfSymQFF), r.big(vfSymQ), r.big(vfSymQ))
	if msg != "" {
		return
	}
	t.log(vfEv{"ev": "session", "kind": "equal", "id": id, "m": 0, "k": 0, "n": 0, "verdict": hon.verify()})
	acc := func(x vfEqTranscript) string { v, _, _ := w.lie(x, -1); return v }
	t.log(vfEv{"ev": "carried", "id": id, "how": "none", "comps": []string{}, "verdict": acc(hon)})
	es := []string{}
	for k := 0; k < 80; k++ {
		u, msg := w.honest(big.NewInt(int64(3+k)), r.big(vfSymQFF), r.big(vfSymQ), r.big(vfSymQ))
		if msg == "" && u.verify() == "accept" {
			es = append(es, u.p.Challenge.String())
		}
	}
	if len(es) >= 60 {
		t.log(vfEv{"ev": "spread", "id": id, "bits": int(bc), "drawn": map[string][]string{"e": es}})
	}
	report := func(how string, comps []string, x vfEqTranscript) {
		t.log(vfEv{"ev": "carried", "id": id, "how": how, "comps": comps, "verdict": acc(x)})
	}
	other := func(s vfEqSlot, e group.Element) group.Element {
		g := w.group(s)
		return g.Element().Add(e, g.Element().BaseScale(r.big(g.N())))
	}
	for i, s := range vfEqSlots {
		x := hon
		*s.at(&x) = other(s, *s.at(&hon))
		report("other", []string{s.name}, x)
		x = hon
		*s.at(&x) = w.group(s).Element().Negate(*s.at(&hon))
		report("negated", []string{s.name}, x)
		x = hon
		*s.at(&x) = w.group(s).Identity()
		report("zero", []string{s.name}, x)
		for j, o := range vfEqSlots {
			if i < j && s.ff == o.ff {
				x = hon
				*s.at(&x), *o.at(&x) = *o.at(&hon), *s.at(&hon)
				report("exchanged", []string{s.name, o.name}, x)
			}
		}
	}
	c := hon.p.Challenge
	for how, v := range map[string]*big.Int{
		"plus1": new(big.Int).Add(c, big.NewInt(1)), "minus1": new(big.Int).Sub(c, big.NewInt(1)), "zero": new(big.Int),
		"negated": new(big.Int).Neg(c), "one": big.NewInt(1), "plus2^bc": new(big.Int).Add(c, new(big.Int).Lsh(big.NewInt(1), uint(bc))),
		"plusQ": new(big.Int).Add(c, vfSymQ), "plusP": new(big.Int).Add(c, vfSymQFF), "half": new(big.Int).Rsh(c, 1),
		"topbit": new(big.Int).Xor(c, new(big.Int).Lsh(big.NewInt(1), uint(bc)-1)), "lowbyte": new(big.Int).Xor(c, big.NewInt(0x80))} {
		if v.Cmp(c) == 0 {
			continue
		}
		x := hon
		x.p.Challenge = v
		report(how, []string{"challenge"}, x)
	}
}

// bindCoarse finds the derived challenge by trial, for short challenges. Two
// transcripts that differ may have the same one by chance; but not over and
// over again.
func vfBindCoarse(t *vfTrace, r *vfRng) {
	w, err := vfNewEqWorld(8, 8, 40, 3, 200)
	if err != nil {
		return
	}
	hon, msg := w.honest(big.NewInt(77), r.big(vfSymQFF), r.big(vfSymQ), r.big(vfSymQ))
	if msg != "" {
		return
	}
	t.log(vfEv{"ev": "session", "kind": "equal", "id": "equal bc=8", "m": 0, "k": 0, "n": 0, "verdict": hon.verify()})
	const plays = 4
	pair := func(how string, comps []string, f func(k int) (vfEqTranscript, vfEqTranscript)) {
		same := []bool{}
		for k := 0; k < plays; k++ {
			one, two := f(k)
			a, b := w.challenges(one), w.challenges(two)
			same = append(same, len(a) == 1 && len(b) == 1 && a[0] == b[0])
		}
		t.log(vfEv{"ev": "coarse", "how": how, "comps": comps, "same": same})
	}
	for i, s := range vfEqSlots {
		g := w.group(s)
		for _, p := range vfPlaces {
			pair("similar at "+strconv.Itoa(p), []string{s.name}, func(k int) (vfEqTranscript, vfEqTranscript) {
				one, two := hon, hon
				x, y := vfSimilar(p)
				pad := strings.Repeat("0", k)
				if p < 0 {
					*s.at(&one), *s.at(&two) = g.Fake(pad+x), g.Fake(pad+y)
				} else {
					*s.at(&one), *s.at(&two) = g.Fake(x+pad), g.Fake(y+pad)
				}
				return one, two
			})
		}
		for j, o := range vfEqSlots {
			if i == j {
				continue
			}
			h := w.group(o)
			pair("boundary", []string{s.name, o.name}, func(k int) (vfEqTranscript, vfEqTranscript) {
				one, two := hon, hon
				n := strconv.Itoa(k)
				*s.at(&one), *o.at(&one) = g.Fake("123456"), h.Fake("789"+n)
				*s.at(&two), *o.at(&two) = g.Fake("1234"), h.Fake("56789"+n)
				return one, two
			})
			if i < j && s.ff == o.ff {
				w.zeros = true
				pair("neutral element moved", []string{s.name, o.name}, func(k int) (vfEqTranscript, vfEqTranscript) {
					one, two := hon, hon
					x := g.Fake("135" + strconv.Itoa(k))
					*s.at(&one), *o.at(&one) = x, h.Identity()
					*s.at(&two), *o.at(&two) = g.Identity(), x
					return one, two
				})
				w.zeros = false
			}
			if i < j {
				pair("exchanged", []string{s.name, o.name}, func(k int) (vfEqTranscript, vfEqTranscript) {
					one, two := hon, hon
					x, y := "135"+strconv.Itoa(k), "246"+strconv.Itoa(k)
					*s.at(&one), *o.at(&one) = g.Fake(x), h.Fake(y)
					*s.at(&two), *o.at(&two) = g.Fake(y), h.Fake(x)
					return one, two
				})
			}
		}
	}
}

func init() {
	vfSuites["fs"] = func() {
		t := vfNewTrace("fs")
		defer t.close()
		r := vfNewRng("fs")
		g := sym.New("SymEC", vfSymQ)
		for _, b := range []int{2, 4, 8, 16, 32} {
			vfBindRange(t, b, 1, true, g, r)
		}
		for _, s := range [][2]int{{4, 1}, {4, 2}, {8, 4}, {8, 8}, {16, 16}, {32, 8}} {
			vfBindRange(t, s[0], s[1], false, g, r)
		}
		for _, n := range []int{1, 2, 4, 8, 16, 32} {
			vfBindProduct(t, n, g, r)
		}
		for _, bc := range []uint16{64, 128, 224, 240} {
			vfBindEqual(t, bc, r)
		}
		vfBindCoarse(t, r)
	}
}
