package main

import (
	"math"
	"math/big"
	"strings"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/zzverif/sym"
)

type vfInterval struct {
	from, to int64
	what     string
}

// runs groups consecutive arguments with the same outcome.
func vfRuns(args []int64, f func(int64) string) []vfInterval {
	var out []vfInterval
	for _, a := range args {
		w := f(a)
		if n := len(out); n > 0 && out[n-1].what == w && out[n-1].to == a-1 {
			out[n-1].to = a
		} else {
			out = append(out, vfInterval{a, a, w})
		}
	}
	return out
}

func vfSetupArgs(r *vfRng) []int64 {
	var args []int64
	for a := int64(-300); a < int64(vfPick(70000, 600000)); a++ {
		args = append(args, a)
	}
	for k := uint(17); k < 63; k++ {
		p := int64(1) << k
		if p > 700000 {
			args = append(args, p-2, p-1, p, p+1, p+2, p+p/2, -p)
		}
	}
	args = append(args, math.MaxInt64-1, math.MaxInt64, math.MinInt64, math.MinInt64+1)
	for i := 0; i < vfPick(300, 3000); i++ {
		args = append(args, r.big(new(big.Int).Lsh(big.NewInt(1), uint(20+r.n(43)))).Int64())
	}
	return args
}

// seedOf is the string a symbolic generator is the image of.
func vfSeedOf(e group.Element) string {
	f := vfFormOf(e)
	if len(f) != 1 {
		return ""
	}
	for l, c := range f {
		if strings.HasPrefix(l, "M:") && c.Cmp(big.NewInt(1)) == 0 {
			return l
		}
	}
	return ""
}

func vfSuiteBPSetup() {
	t := vfNewTrace("bpsetup")
	defer t.close()
	r := vfNewRng("bpsetup")
	g := sym.New("SymEC", vfSymQ)
	args := vfSetupArgs(r)
	for _, iv := range vfRuns(args, func(b int64) (w string) {
		if msg := vfGuard(func() {
			p, err := bulletproofs.Setup(b, g)
			if err != nil {
				w = "error"
			} else if p.N < 1 || p.N > 62 || int64(1)<<uint(p.N) != b || int64(len(p.Gg)) != p.N || int64(len(p.Hh)) != p.N || p.GP != group.Group(g) {
				w = "wrong"
			} else {
				w = "ok"
			}
		}); msg != "" {
			w = "panic"
		}
		return
	}) {
		t.log(vfEv{"ev": "setup", "from": big.NewInt(iv.from).String(), "to": big.NewInt(iv.to).String(), "outcome": iv.what})
	}
	for _, iv := range vfRuns(args, func(b int64) (w string) {
		if msg := vfGuard(func() {
			w = "no"
			if bulletproofs.IsPowerOfTwo(b) {
				w = "yes"
			}
		}); msg != "" {
			w = "panic"
		}
		return
	}) {
		t.log(vfEv{"ev": "power", "from": big.NewInt(iv.from).String(), "to": big.NewInt(iv.to).String(), "outcome": iv.what})
	}
	seeds := map[uint]map[string]string{}
	collect := func(p bulletproofs.BulletProofSetupParams, u group.Element) ([]string, []group.Element) {
		names := []string{"H", "U"}
		els := []group.Element{p.H, u}
		for i := range p.Gg {
			names = append(names, "g"+vfItoa(i))
			els = append(els, p.Gg[i])
		}
		for i := range p.Hh {
			names = append(names, "h"+vfItoa(i))
			els = append(els, p.Hh[i])
		}
		return names, els
	}
	for _, n := range []uint{1, 2, 4, 8, 16, 32} {
		p, err := bulletproofs.Setup(int64(1)<<n, g)
		if err != nil {
			continue // reported above
		}
		ip, err := bulletproofs.VerifIPSetup(p.Gg, p.Hh, p.N, g)
		if err != nil {
			t.log(vfEv{"ev": "gens", "group": "symbolic", "n": int(n), "seeds": map[string]string{}, "base": false})
			continue
		}
		ns, els := collect(p, ip.Uu)
		m := map[string]string{}
		for i := range ns {
			m[ns[i]] = vfSeedOf(els[i])
		}
		seeds[n] = m
		gen := vfFormOf(p.G)
		t.log(vfEv{"ev": "gens", "group": "symbolic", "n": int(n), "seeds": m, "base": len(gen) == 1 && vfCoef(gen, sym.Base).Cmp(big.NewInt(1)) == 0})
		// the inner-product setup makes its own generators when given none
		if ip2, err := bulletproofs.VerifIPSetup(nil, nil, int64(n), g); err == nil {
			p2 := p
			p2.Gg, p2.Hh = ip2.Gg, ip2.Hh
			ns, els := collect(p2, ip2.Uu)
			m := map[string]string{}
			for i := range ns {
				m[ns[i]] = vfSeedOf(els[i])
			}
			t.log(vfEv{"ev": "gens", "group": "symbolic, own", "n": int(n), "seeds": m, "base": true})
		}
	}
	for _, rg := range vfRealGroups() {
		for _, n := range []uint{1, 2, 4, 8, 16, 32} {
			p, err := bulletproofs.Setup(int64(1)<<n, rg)
			if err != nil {
				t.log(vfEv{"ev": "setup", "from": big.NewInt(1 << n).String(), "to": big.NewInt(1 << n).String(), "outcome": "error"})
				continue
			}
			q, _ := bulletproofs.Setup(int64(1)<<n, rg)
			ip, _ := bulletproofs.VerifIPSetup(p.Gg, p.Hh, p.N, rg)
			ns, els := collect(p, ip.Uu)
			_, again := collect(q, ip.Uu)
			var strsv []string
			same, mapped, proper := true, true, true
			order := new(big.Int).Sub(rg.N(), big.NewInt(1))
			distinct := true
			for i := range els {
				strsv = append(strsv, els[i].String())
				same = same && els[i].IsEqual(again[i])
				s, ok := seeds[n][ns[i]]
				if ok && len(s) > 2 {
					e, err := rg.Element().MapToGroup(s[2:])
					mapped = mapped && err == nil && els[i].IsEqual(e)
				}
				// of the group's order, and neither base nor identity
				neg := rg.Element().Scale(els[i], order)
				proper = proper && !els[i].IsIdentity() && !els[i].IsEqual(p.G) && rg.Element().Add(neg, els[i]).IsIdentity() && !els[i].IsEqual(rg.Identity())
				for j := 0; j < i; j++ {
					distinct = distinct && !els[i].IsEqual(els[j])
				}
			}
			t.log(vfEv{"ev": "realgens", "group": rg.Name(), "n": int(n), "strings": append(strsv, p.G.String()), "distinct": distinct,
				"same": same, "mapped": mapped, "proper": proper, "base": p.G.IsEqual(rg.Generator()), "bits": int(p.N), "ng": len(p.Gg), "nh": len(p.Hh)})
		}
	}
}

func vfItoa(i int) string { return big.NewInt(int64(i)).String() }

func init() { vfSuites["bpsetup"] = vfSuiteBPSetup }
