package main

import (
	"fmt"
	"math"
	"math/big"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/util"
	"github.com/takakv/msc-poc/zzverif/sym"
)

// Calls of the vector, scalar and commitment helpers.

type vfArithRun struct {
	tr *vfTrace
	r  *vfRng
}

func vfOutForms(v []group.Element) []map[string]string {
	out := []map[string]string{}
	for _, e := range v {
		m := map[string]string{}
		for l, x := range vfFormOf(e) {
			m[l] = x.String()
		}
		out = append(out, m)
	}
	return out
}

// call logs one call: in() describes the arguments now, f makes the call.
func (a *vfArithRun) call(name string, in func() vfEv, f func() (any, error)) {
	before := in()
	var out any = []string{}
	var err error
	outcome := "ok"
	if msg := vfGuard(func() { out, err = f() }); msg != "" {
		outcome, out = "panic", []string{}
	} else if err != nil {
		outcome, out = "error", []string{}
	}
	a.tr.log(vfEv{"ev": "vec", "f": name, "in": before, "after": in(), "outcome": outcome, "out": out})
}

func (a *vfArithRun) scalar(m *big.Int) *big.Int {
	one := big.NewInt(1)
	switch a.r.n(12) {
	case 0:
		return new(big.Int)
	case 1:
		return big.NewInt(1)
	case 2:
		return big.NewInt(-1)
	case 3:
		return new(big.Int).Sub(m, one)
	case 4:
		return new(big.Int).Set(m)
	case 5:
		return new(big.Int).Add(m, one)
	case 6:
		return new(big.Int).Neg(m)
	case 7:
		return new(big.Int).Neg(a.r.bits(300))
	case 8:
		return a.r.bits(520)
	case 9:
		return new(big.Int).Sub(new(big.Int).Mul(m, m), one)
	}
	return a.r.big(m)
}

func (a *vfArithRun) vec(n int, m *big.Int) []*big.Int {
	out := make([]*big.Int, n)
	for i := range out {
		out[i] = a.scalar(m)
	}
	return out
}

func (a *vfArithRun) elem(g *sym.Group) group.Element {
	e := g.Element()
	for k := 0; k < a.r.n(4); k++ {
		e = g.Element().Add(e, g.Element().Scale(g.Label([]string{"G", "H", "X", "Y"}[a.r.n(4)]), a.scalar(g.N())))
	}
	return e
}

func vfSuiteArith() {
	tr := vfNewTrace("arith")
	defer tr.close()
	a := &vfArithRun{tr, vfNewRng("arith")}
	r := a.r
	prime127 := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 127), big.NewInt(1))
	mods := []*big.Int{big.NewInt(2), big.NewInt(3), big.NewInt(7), big.NewInt(10), big.NewInt(256), prime127, vfSymQ, vfEcOrder, group.P384().N()}
	num := func(v *big.Int, err error) (any, error) {
		if err != nil {
			return nil, err
		}
		return []string{v.String()}, nil
	}
	vec := func(v []*big.Int, err error) (any, error) {
		if err != nil {
			return nil, err
		}
		return vfStrs(v), nil
	}
	for k := 0; k < vfPick(220, 4000); k++ {
		m := mods[r.n(len(mods))]
		n := []int{0, 1, 2, 3, 4, 8, 16, 33}[r.n(8)]
		n2 := n
		if r.n(4) == 0 {
			n2 = []int{0, 1, 2, 3, 4, 8, 16, 33}[r.n(8)]
		}
		x, y, c := a.vec(n, m), a.vec(n2, m), a.scalar(m)
		if n == n2 && r.n(6) == 0 {
			y = x // one vector in both places
		}
		if r.n(5) == 0 && n > 1 {
			x[n-1] = x[0] // shared entries
		}
		mm := new(big.Int).Set(m)
		two := func() vfEv { return vfEv{"a": vfStrs(x), "b": vfStrs(y), "m": mm.String()} }
		one := func() vfEv { return vfEv{"a": vfStrs(x), "k": c.String(), "m": mm.String()} }
		a.call("VectorAdd", two, func() (any, error) { return vec(bulletproofs.VectorAdd(x, y, mm)) })
		a.call("VectorSub", two, func() (any, error) { return vec(bulletproofs.VectorSub(x, y, mm)) })
		a.call("VectorMul", two, func() (any, error) { return vec(bulletproofs.VectorMul(x, y, mm)) })
		a.call("VectorScalarMul", one, func() (any, error) { return vec(bulletproofs.VectorScalarMul(x, c, mm)) })
		a.call("VectorAddConst", one, func() (any, error) { return vfStrs(bulletproofs.VectorAddConst(x, c, mm)), nil })
		if n == n2 {
			a.call("VectorInnerProduct", two, func() (any, error) { return num(bulletproofs.VectorInnerProduct(x, y, mm), nil) })
		}
		if n > 0 {
			a.call("VectorCopy", func() vfEv { return vfEv{"k": c.String(), "n": n} }, func() (any, error) { return vec(bulletproofs.VectorCopy(c, int64(n))) })
		}
		ints64 := make([]int64, n)
		for j := range ints64 {
			ints64[j] = []int64{0, 1, -1, math.MaxInt64, math.MinInt64, int64(r.n(1 << 30))}[r.n(6)]
		}
		some := n
		if n > 0 {
			some = r.n(n + 1)
		}
		asText := func() []string {
			o := make([]string, n)
			for j := range o {
				o[j] = fmt.Sprint(ints64[j])
			}
			return o
		}
		a.call("VectorConvertToBig", func() vfEv { return vfEv{"a": asText(), "n": some} },
			func() (any, error) { return vec(bulletproofs.VectorConvertToBig(ints64, int64(some))) })
		// groups of several orders
		g := sym.New("SymEC", []*big.Int{vfSymQ, big.NewInt(7), big.NewInt(23), vfEcOrder, prime127}[r.n(5)])
		in := func() vfEv { return vfEv{"a": vfStrs(x), "b": vfStrs(y), "m": g.N().String()} }
		a.call("ScalarProduct", in, func() (any, error) { return num(bulletproofs.ScalarProduct(x, y, g)) })
		a.call("powerOf", func() vfEv { return vfEv{"k": c.String(), "n": n, "m": g.N().String()} },
			func() (any, error) { return vfStrs(bulletproofs.VerifPowerOf(c, int64(n), g)), nil })
		// elements
		short := min(n, 8)
		p, q := make([]group.Element, short), make([]group.Element, min(n2, 8))
		for j := range p {
			p[j] = a.elem(g)
		}
		for j := range q {
			q[j] = a.elem(g)
		}
		es := y[:min(n2, 8)]
		a.call("VectorExp", func() vfEv { return vfEv{"a": vfOutForms(p), "b": vfStrs(es), "m": g.N().String()} },
			func() (any, error) {
				e, err := bulletproofs.VectorExp(p, es, g)
				if err != nil {
					return nil, err
				}
				return vfOutForms([]group.Element{e}), nil
			})
		a.call("VectorECAdd", func() vfEv { return vfEv{"a": vfOutForms(p), "b": vfOutForms(q), "m": g.N().String()} },
			func() (any, error) {
				e, err := bulletproofs.VectorECAdd(p, q, g)
				if err != nil {
					return nil, err
				}
				return vfOutForms(e), nil
			})
		h, s, t := a.elem(g), a.scalar(g.N()), a.scalar(g.N())
		hIn := func() vfEv {
			return vfEv{"a": []string{s.String()}, "b": []string{t.String()}, "k": vfOutForms([]group.Element{h})[0], "m": g.N().String()}
		}
		a.call("PedersenCommit", hIn, func() (any, error) { return vfOutForms([]group.Element{util.PedersenCommit(s, t, h, g)}), nil })
		// digits
		base := []int64{2, 3, 10, 16, 1 << 31, 1<<62 + 1, int64(2 + r.n(1000))}[r.n(7)]
		digits := r.n(40)
		a.call("Decompose", func() vfEv { return vfEv{"k": c.String(), "m": fmt.Sprint(base), "n": digits} },
			func() (any, error) {
				d := util.Decompose(c, base, int64(digits))
				o := make([]string, len(d))
				for j := range d {
					o[j] = fmt.Sprint(d[j])
				}
				return o, nil
			})
	}
	// the same over the real groups: results have the logarithms prescribed
	for _, g := range append(vfRealGroups(), vfFfGroup()) {
		for k := 0; k < vfPick(6, 60); k++ {
			n := 1 + r.n(5)
			gs, es, logs := make([]group.Element, n), make([]*big.Int, n), make([]*big.Int, n)
			sum := new(big.Int)
			for j := range gs {
				logs[j] = a.scalar(g.N())
				gs[j] = g.Element().BaseScale(logs[j])
				es[j] = a.scalar(g.N())
				sum.Add(sum, new(big.Int).Mul(logs[j], es[j]))
			}
			before := fmt.Sprint(es)
			var strsBefore, strsAfter []string
			for _, e := range gs {
				strsBefore = append(strsBefore, e.String())
			}
			equal := false
			vfGuard(func() {
				e, err := bulletproofs.VectorExp(gs, es, g)
				c := util.PedersenCommit(es[0], es[n-1], gs[0], g)
				want := new(big.Int).Add(es[0], new(big.Int).Mul(es[n-1], logs[0]))
				s, err2 := bulletproofs.VectorECAdd(gs, gs, g)
				equal = err == nil && err2 == nil && e.IsEqual(g.Element().BaseScale(sum)) && c.IsEqual(g.Element().BaseScale(want)) &&
					s[n-1].IsEqual(g.Element().BaseScale(new(big.Int).Lsh(logs[n-1], 1)))
			})
			for _, e := range gs {
				strsAfter = append(strsAfter, e.String())
			}
			tr.log(vfEv{"ev": "realvec", "id": g.Name(), "equal": equal, "kept": before == fmt.Sprint(es) && fmt.Sprint(strsBefore) == fmt.Sprint(strsAfter)})
		}
	}
}

func init() { vfSuites["arith"] = vfSuiteArith }
