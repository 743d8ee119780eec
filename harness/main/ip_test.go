package main

import (
	"fmt"
	"math/big"
	"strconv"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/zzverif/sym"
)

type vfIpp = bulletproofs.InnerProductProof

// vfScalarsLike lists values that resemble v, by name, in a fixed order of names.
func vfScalarsLike(v, q *big.Int) map[string]*big.Int {
	n := func() *big.Int { return new(big.Int) }
	return map[string]*big.Int{
		"0": n(), "1": big.NewInt(1), "-1": big.NewInt(-1), "neg": n().Neg(v), "-q": n().Sub(v, q), "neg-q": n().Sub(n().Neg(v), q), "+q": n().Add(v, q), "flip low": n().Xor(v, big.NewInt(1)),
		"+2^64": n().Add(v, n().Lsh(big.NewInt(1), 64)), "+2^256": n().Add(v, n().Lsh(big.NewInt(1), 256)), "half": n().Rsh(v, 1), "low word": n().And(v, n().SetUint64(1<<64-1)),
	}
}

func vfIpVerify(p vfIpp) string {
	var ok bool
	if msg := vfGuard(func() { ok, _ = p.Verify() }); msg != "" {
		return "panic"
	}
	if ok {
		return "accept"
	}
	return "reject"
}

func vfIpClone(p vfIpp) vfIpp {
	p.L = append([]group.Element(nil), p.L...)
	p.R = append([]group.Element(nil), p.R...)
	return p
}

// ipLie records the equations with P, L and R unknown.
func vfIpLie(p vfIpp, g *sym.Group, falseAt int) (string, []map[string]*big.Int) {
	u := vfIpClone(p)
	u.P = g.Fresh("P", p.P)
	for i := range u.L {
		u.L[i] = g.Fresh("L"+strconv.Itoa(i), p.L[i])
	}
	for i := range u.R {
		u.R[i] = g.Fresh("R"+strconv.Itoa(i), p.R[i])
	}
	rec := g.Record(falseAt)
	v := vfIpVerify(u)
	g.Stop()
	return v, rec.Residuals
}

// ipChallenges reads xu and the round challenges off the equation.
func vfIpChallenges(p vfIpp, g *sym.Group, nm vfNames) (xu *big.Int, xs []*big.Int, why string) {
	f := vfField{g.N()}
	q := p
	q.A, q.B = big.NewInt(1), big.NewInt(1)
	if new(big.Int).Mod(new(big.Int).Sub(p.Cc, big.NewInt(1)), f.q).Sign() == 0 {
		q.A = big.NewInt(2)
	}
	v, rows := vfIpLie(q, g, -1)
	if v != "accept" || len(rows) == 0 {
		return nil, nil, "verdict " + v
	}
	row := map[string]*big.Int{}
	for l, c := range rows[len(rows)-1] {
		if r, ok := nm[l]; ok {
			l = r
		}
		row[l] = c
	}
	cp := vfCoef(row, "P")
	if cp.Sign() == 0 {
		return nil, nil, "no P"
	}
	inv := f.inv(cp)
	d := f.sub(p.Cc, f.mul(q.A, q.B))
	xu = f.mul(f.mul(vfCoef(row, "U"), inv), f.inv(d))
	prod := big.NewInt(1)
	for i := range p.L {
		x := new(big.Int).ModSqrt(f.mul(vfCoef(row, "L"+strconv.Itoa(i)), inv), f.q)
		if x == nil || x.Sign() == 0 {
			return nil, nil, "round challenge"
		}
		xs = append(xs, x)
		prod = f.mul(prod, x)
	}
	if len(xs) > 0 {
		s0 := f.mul(f.neg(f.mul(vfCoef(row, "g0"), inv)), f.inv(q.A))
		if f.mul(s0, prod).Cmp(big.NewInt(1)) != 0 {
			xs[0] = f.neg(xs[0])
		}
	}
	return xu, xs, ""
}

func vfIpEvent(p vfIpp, nm vfNames) vfEv {
	fs := func(es []group.Element) []any {
		r := make([]any, len(es))
		for j := range es {
			r[j] = nm.out(vfFormOf(es[j]))
		}
		return r
	}
	return vfEv{"n": len(p.Params.Gg), "P": nm.out(vfFormOf(p.P)), "c": p.Cc.String(), "L": fs(p.L), "R": fs(p.R), "fa": p.A.String(), "fb": p.B.String()}
}

func vfIpJudge(tr *vfTrace, id string, p vfIpp, g *sym.Group, nm vfNames) {
	e := vfIpEvent(p, nm)
	e["id"], e["verdict"] = id, vfIpVerify(p)
	xu, xs, why := vfIpChallenges(p, g, nm)
	if why != "" {
		e["ev"], e["why"] = "blind", why
	} else {
		e["ev"], e["xu"], e["xs"] = "judge", xu.String(), vfStrs(xs)
	}
	tr.log(e)
}

func vfSuiteIP() {
	tr := vfNewTrace("ip")
	defer tr.close()
	r := vfNewRng("ip")
	g := sym.New("SymEC", vfSymQ)
	f := vfField{vfSymQ}
	odd := []*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(-1), vfSymQ, new(big.Int).Neg(vfSymQ), new(big.Int).Add(vfSymQ, big.NewInt(5)), new(big.Int).Lsh(big.NewInt(1), 300),
		new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(3), 290)), new(big.Int).Sub(vfSymQ, big.NewInt(1))}
	vec := func(n, kind int) []*big.Int {
		v := make([]*big.Int, n)
		for i := range v {
			switch kind {
			case 0:
				v[i] = r.big(vfSymQ)
			case 1:
				v[i] = odd[r.n(len(odd))]
			case 2:
				v[i] = big.NewInt(0)
			case 3:
				v[i] = big.NewInt(int64(i - n/2))
			default:
				v[i] = new(big.Int).Neg(r.bits(280))
			}
		}
		return v
	}
	ns := []int{1, 2, 4, 8, 16, 32}
	if vfThorough {
		ns = append(ns, 64)
	}
	many := vfPick(16, 32) // beyond, honest proofs only
	for _, n := range ns {
		params, err := bulletproofs.VerifIPSetup(nil, nil, int64(n), g)
		if err != nil {
			panic(err)
		}
		nm := vfNames{}
		for i := 0; i < n; i++ {
			nm.bind(params.Gg[i], "g"+strconv.Itoa(i))
			nm.bind(params.Hh[i], "h"+strconv.Itoa(i))
		}
		nm.bind(params.Uu, "U")
		mk := func(a, b []*big.Int, c *big.Int, P group.Element) (vfIpp, string) {
			var p vfIpp
			var err error
			if P == nil {
				P = bulletproofs.VerifIPCommit(params.Gg, params.Hh, a, b, g)
			}
			msg := vfGuard(func() { p, err = bulletproofs.VerifIPProve(a, b, P, c, params) })
			if err != nil {
				msg += err.Error()
			}
			return p, msg
		}
		var honest, other vfIpp
		for k := 0; k < vfPick(6, 30); k++ {
			a, b := vec(n, k%5), vec(n, (k/2)%5)
			c := f.ip(a, b)
			if k%2 == 1 { // the product before reduction stands for the same scalar
				c = new(big.Int)
				for i := range a {
					c.Add(c, new(big.Int).Mul(a[i], b[i]))
				}
			}
			sa, sb := vfStrs(a), vfStrs(b)
			p, msg := mk(a, b, c, nil)
			id := fmt.Sprintf("n=%d #%d", n, k)
			if msg != "" {
				tr.log(vfEv{"ev": "noproof", "id": id, "why": msg})
				continue
			}
			xu, xs, why := vfIpChallenges(p, g, nm)
			e := vfIpEvent(p, nm)
			e["id"], e["a"], e["b"], e["verdict"] = id, sa, sb, vfIpVerify(p)
			if why != "" {
				e["ev"] = "blind"
				if e["verdict"] != "accept" {
					e["ev"] = "noproof"
				} else if n <= many {
					other, honest = honest, p
				}
				tr.log(e)
				continue
			}
			e["ev"], e["xu"], e["xs"] = "prove", xu.String(), vfStrs(xs)
			tr.log(e)
			v, rows := vfIpLie(p, g, -1)
			if v == "accept" && len(rows) > 0 {
				v0, _ := vfIpLie(p, g, 0)
				tr.log(vfEv{"ev": "equation", "id": id, "n": n, "c": p.Cc.String(), "fa": p.A.String(), "fb": p.B.String(), "xu": xu.String(), "xs": vfStrs(xs), "rows": nm.rows(rows), "flipped": v0})
			}
			if n > many {
				continue
			}
			other, honest = honest, p
			// false statements with the same prover
			wrong := []*big.Int{f.add(c, big.NewInt(1)), f.add(c, big.NewInt(-1)), f.add(c, big.NewInt(12345))}
			if c.Sign() != 0 {
				wrong = append(wrong, new(big.Int).Neg(c), new(big.Int).Sub(vfSymQ, c), f.mul(c, big.NewInt(2)))
			}
			for _, cc := range wrong {
				if w, msg := mk(a, b, cc, nil); msg == "" {
					vfIpJudge(tr, id+" wrong product", w, g, nm)
					// repair one message afterwards
					_, rows := vfIpLie(w, g, -1)
					if len(rows) == 0 {
						continue
					}
					row := rows[len(rows)-1]
					res := map[string]*big.Int{}
					at := func(l string) (group.Element, bool) {
						if l == "P" {
							return w.P, true
						}
						if len(l) < 2 || (l[0] != 'L' && l[0] != 'R') {
							return nil, false
						}
						i, err := strconv.Atoi(l[1:])
						if err != nil {
							return nil, false
						}
						if l[0] == 'L' {
							return w.L[i], true
						}
						return w.R[i], true
					}
					for l, v := range row {
						if el, ok := at(l); ok {
							f.axpy(res, v, vfFormOf(el))
						} else {
							f.axpy(res, v, map[string]*big.Int{l: big.NewInt(1)})
						}
					}
					labels := []string{"P"}
					for i := range w.L {
						labels = append(labels, "L"+strconv.Itoa(i), "R"+strconv.Itoa(i))
					}
					for _, l := range labels {
						if vfCoef(row, l).Sign() == 0 {
							continue
						}
						fix := map[string]*big.Int{}
						f.axpy(fix, f.neg(f.inv(vfCoef(row, l))), res)
						el, _ := at(l)
						ne := g.Element().Add(el, g.Make(fix))
						m := vfIpClone(w)
						i := 0
						if l != "P" {
							i, _ = strconv.Atoi(l[1:])
						}
						switch l[0] {
						case 'P':
							m.P = ne
						case 'L':
							m.L[i] = ne
						case 'R':
							m.R[i] = ne
						}
						vfIpJudge(tr, id+" wrong product, then "+l, m, g, nm)
					}
				}
			}
			P := bulletproofs.VerifIPCommit(params.Gg, params.Hh, vec(n, 0), b, g)
			if w, msg := mk(a, b, c, P); msg == "" {
				vfIpJudge(tr, id+" wrong commitment", w, g, nm)
			}
		}
		if honest.P == nil || other.P == nil || len(other.L) != len(honest.L) {
			continue
		}
		// altered components
		tag := fmt.Sprintf("n=%d ", n)
		lies := [2]vfIpp{vfIpClone(honest), vfIpClone(honest)}
		lies[0].Cc = f.add(honest.Cc, big.NewInt(5))
		lies[1].P = g.Element().Add(honest.P, g.Element().Scale(params.Gg[0], big.NewInt(3)))
		put := func(id string, edit func(p *vfIpp)) {
			m := vfIpClone(honest)
			edit(&m)
			vfIpJudge(tr, tag+id, m, g, nm)
			// the same alteration of false claims
			for k, w := range lies {
				m := vfIpClone(w)
				edit(&m)
				e := vfIpEvent(m, nm)
				e["ev"], e["id"], e["verdict"] = "blind", tag+[]string{"claim+5, ", "other P, "}[k]+id, vfIpVerify(m)
				tr.log(e)
			}
		}
		G := params.Gg[0]
		put("honest", func(p *vfIpp) {})
		put("P+g", func(p *vfIpp) { p.P = g.Element().Add(p.P, G) })
		put("P+u", func(p *vfIpp) { p.P = g.Element().Add(p.P, params.Uu) })
		put("P=other", func(p *vfIpp) { p.P = other.P })
		put("P=0", func(p *vfIpp) { p.P = g.Identity() })
		for _, d := range []int64{1, -1} {
			put("c", func(p *vfIpp) { p.Cc = f.add(p.Cc, big.NewInt(d)) })
			put("a", func(p *vfIpp) { p.A = f.add(p.A, big.NewInt(d)) })
			put("b", func(p *vfIpp) { p.B = f.add(p.B, big.NewInt(d)) })
		}
		put("a,b neg", func(p *vfIpp) { p.A, p.B = f.neg(p.A), f.neg(p.B) })
		put("a<->b", func(p *vfIpp) { p.A, p.B = p.B, p.A })
		put("a+q", func(p *vfIpp) { p.A = new(big.Int).Add(p.A, vfSymQ) })
		put("b-q", func(p *vfIpp) { p.B = new(big.Int).Sub(p.B, vfSymQ) })
		// remarkable values in place of each scalar
		for _, at := range []struct {
			name string
			f    func(p *vfIpp) **big.Int
		}{{"c", func(p *vfIpp) **big.Int { return &p.Cc }}, {"a", func(p *vfIpp) **big.Int { return &p.A }}, {"b", func(p *vfIpp) **big.Int { return &p.B }}} {
			at := at
			for how, to := range vfScalarsLike(*at.f(&honest), vfSymQ) {
				put(at.name+" "+how, func(p *vfIpp) { *at.f(p) = to })
			}
		}
		for how, to := range map[string]*big.Int{"1": big.NewInt(1), "-1": big.NewInt(-1), "a": honest.A, "b": honest.B, "c": honest.Cc, "-c": new(big.Int).Neg(honest.Cc)} {
			put("a=b="+how, func(p *vfIpp) { p.A, p.B = to, to })
		}
		// every choice of wrong scalars, each written as an integer elsewhere in its class
		for bits := 0; bits < 8; bits++ {
			for k, move := range []*big.Int{vfSymQ, new(big.Int).Neg(vfSymQ), new(big.Int).Lsh(vfSymQ, 7)} {
				put(fmt.Sprintf("moved %d, wrong %03b", k, bits), func(p *vfIpp) {
					for j, at := range []**big.Int{&p.A, &p.B, &p.Cc} {
						v := new(big.Int).Add(*at, move)
						if bits>>j&1 == 1 {
							v.Add(v, big.NewInt(1))
						}
						*at = v
					}
				})
			}
		}
		put("a=b=0", func(p *vfIpp) { p.A, p.B = new(big.Int), new(big.Int) })
		for i := range honest.L {
			put(fmt.Sprint("L+g ", i), func(p *vfIpp) { p.L[i] = g.Element().Add(p.L[i], G) })
			put(fmt.Sprint("R+u ", i), func(p *vfIpp) { p.R[i] = g.Element().Add(p.R[i], params.Uu) })
			put(fmt.Sprint("L<->R ", i), func(p *vfIpp) { p.L[i], p.R[i] = p.R[i], p.L[i] })
			put(fmt.Sprint("L=0 ", i), func(p *vfIpp) { p.L[i] = g.Identity() })
			put(fmt.Sprint("R=other ", i), func(p *vfIpp) { p.R[i] = other.R[i] })
			if i > 0 {
				put(fmt.Sprint("round swap ", i), func(p *vfIpp) { p.L[i], p.R[i], p.L[0], p.R[0] = p.L[0], p.R[0], p.L[i], p.R[i] })
			}
		}
		shape := func(id string, edit func(p *vfIpp)) {
			m := vfIpClone(honest)
			edit(&m)
			v, _ := vfIpLie(m, g, -1)
			tr.log(vfEv{"ev": "shape", "id": tag + id, "n": len(m.Params.Gg), "l": len(m.L), "r": len(m.R), "verdict": v})
		}
		x := G
		shape("as is", func(p *vfIpp) {})
		shape("extra", func(p *vfIpp) { p.L, p.R = append(p.L, x), append(p.R, x) })
		shape("extra L", func(p *vfIpp) { p.L = append(p.L, x) })
		shape("extra R", func(p *vfIpp) { p.R = append(p.R, x) })
		if len(honest.L) > 0 {
			shape("fewer", func(p *vfIpp) { p.L, p.R = p.L[1:], p.R[1:] })
			shape("none", func(p *vfIpp) { p.L, p.R = nil, nil })
			shape("fewer L", func(p *vfIpp) { p.L = p.L[1:] })
			shape("fewer R", func(p *vfIpp) { p.R = p.R[1:] })
		}
		// different lengths
		for _, d := range [][2]int{{n, n + 1}, {n + 1, n}, {n, 2 * n}, {2 * n, n}} {
			v := "error"
			vfGuard(func() {
				p, err := bulletproofs.VerifIPProve(vec(d[0], 0), vec(d[1], 0), honest.P, honest.Cc, params)
				if err == nil {
					v = vfIpVerify(p)
				}
			})
			tr.log(vfEv{"ev": "mismatch", "id": fmt.Sprint(tag, d), "verdict": v})
		}
	}
	// real groups
	for _, rg := range vfRealGroups() {
		for _, n := range []int{1, 4} {
			params, err := bulletproofs.VerifIPSetup(nil, nil, int64(n), rg)
			if err != nil {
				panic(err)
			}
			a, b := make([]*big.Int, n), make([]*big.Int, n)
			for i := range a {
				a[i], b[i] = r.big(rg.N()), r.big(rg.N())
			}
			a[0] = big.NewInt(-3)
			ff := vfField{rg.N()}
			c := ff.ip(a, b)
			P := bulletproofs.VerifIPCommit(params.Gg, params.Hh, a, b, rg)
			var p vfIpp
			vfGuard(func() { p, _ = bulletproofs.VerifIPProve(a, b, P, c, params) })
			if p.P == nil {
				tr.log(vfEv{"ev": "noproof", "id": rg.Name()})
				continue
			}
			var dmg []string
			m := vfIpClone(p)
			m.Cc = ff.add(p.Cc, big.NewInt(1))
			dmg = append(dmg, vfIpVerify(m))
			m = vfIpClone(p)
			m.A = ff.add(p.A, big.NewInt(1))
			dmg = append(dmg, vfIpVerify(m))
			m = vfIpClone(p)
			m.P = rg.Element().Add(p.P, rg.Generator())
			dmg = append(dmg, vfIpVerify(m))
			tr.log(vfEv{"ev": "real", "id": fmt.Sprint(rg.Name(), " n=", n), "honest": vfIpVerify(p), "damaged": dmg})
		}
	}
}

func init() { vfSuites["ip"] = vfSuiteIP }
