package main

import (
	"encoding/json"
	"math/big"

	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
	"github.com/takakv/msc-poc/zzverif/sym"
)

// vfPlain writes an element of any group: coordinates, or the form of a
// symbolic one.
func vfPlain(e group.Element) []string {
	if e == nil {
		return []string{"missing"}
	}
	if _, ok := e.(*sym.Elem); ok {
		return []string{e.String()}
	}
	return vfCoords(e)
}

func vfBigStr(x *big.Int) string {
	if x == nil {
		return "missing"
	}
	return x.String()
}

func vfDescribe(p voteproof.GroupParameters) vfEv {
	d := vfEv{"N": vfBigStr(p.N), "F": vfBigStr(p.F), "G": vfPlain(p.G), "H": vfPlain(p.H),
		"iN": "missing", "iF": "missing", "iG": []string{"missing"}, "name": "missing"}
	if p.I != nil {
		d["iN"], d["iF"], d["iG"], d["name"] = vfBigStr(p.I.N()), vfBigStr(p.I.P()), vfPlain(p.I.Generator()), p.I.Name()
	}
	return d
}

// vfSetupEvent is everything setup decides about an election.
func vfSetupEvent(g group.Group) (e vfEv) {
	e = vfEv{"ev": "setup", "cg": vfEv{"name": g.Name(), "n": g.N().String(), "p": g.P().String(), "g": vfPlain(g.Generator())}}
	if msg := vfGuard(func() {
		pp, err := setup(g)
		if err != nil {
			e["outcome"] = "error"
			return
		}
		e["outcome"] = "ok"
		e["ff"], e["ec"] = vfDescribe(pp.FFGroupParams), vfDescribe(pp.ECGroupParams)
		e["rff"], e["rec"] = vfDescribe(pp.RPParams.GFF), vfDescribe(pp.RPParams.GEC)
		e["pk"] = vfPlain(pp.EGPK)
		e["lo"], e["hi"] = int(pp.candidateMin), int(pp.candidateMax)
		e["sizes"] = vfEv{"bx": int(pp.RPParams.Bx), "bc": int(pp.RPParams.Bc), "bg": int(pp.RPParams.Bg), "bb": pp.RPParams.Bb,
			"lo": int(pp.RPParams.RangeLo), "hi": int(pp.RPParams.RangeHi)}
		var gg, hh []any
		for _, x := range pp.BPParams.Gg {
			gg = append(gg, vfPlain(x))
		}
		for _, x := range pp.BPParams.Hh {
			hh = append(hh, vfPlain(x))
		}
		e["bp"] = vfEv{"n": int(pp.BPParams.N), "gg": len(gg), "hh": len(hh), "G": vfPlain(pp.BPParams.G), "H": vfPlain(pp.BPParams.H),
			"gens": []any{gg, hh}, "name": pp.BPParams.GP.Name()}
	}); msg != "" {
		e["outcome"] = "panic"
	}
	return
}

func vfSuiteElectionSetup() {
	t := vfNewTrace("electionsetup")
	defer t.close()
	gs := vfRealGroups()
	r := vfNewRng("electionsetup")
	order := func(bits int) *big.Int {
		top := new(big.Int).Lsh(big.NewInt(1), uint(bits-1))
		for {
			q := new(big.Int).Add(top, r.big(top))
			if q.ProbablyPrime(10) {
				return q
			}
		}
	}
	lens := []int{3, 8, 16, 17, 64, 128, 160, 192, 224, 384, 512, 521, 1024}
	for b := 225; b <= 272; b++ {
		lens = append(lens, b)
	}
	for _, b := range lens {
		gs = append(gs, sym.New("SymEC"+vfItoa(b), order(b)))
	}
	// shortest and longest orders of the lengths around the limit
	for b := uint(238); b <= 246; b++ {
		p := new(big.Int).Lsh(big.NewInt(1), b-1)
		lo := new(big.Int).Add(p, big.NewInt(1))
		for !lo.ProbablyPrime(10) {
			lo.Add(lo, big.NewInt(2))
		}
		hi := new(big.Int).Sub(new(big.Int).Lsh(p, 1), big.NewInt(1))
		for !hi.ProbablyPrime(10) {
			hi.Sub(hi, big.NewInt(2))
		}
		gs = append(gs, sym.New("SymLo"+vfItoa(int(b)), lo), sym.New("SymHi"+vfItoa(int(b)), hi))
	}
	var evs []vfEv
	for _, g := range gs {
		evs = append(evs, vfSetupEvent(g))
	}
	str := func(e vfEv) string {
		b, err := json.Marshal(e)
		if err != nil {
			panic(err)
		}
		return string(b)
	}
	for i, e := range evs {
		e["again"] = str(vfSetupEvent(gs[i])) == str(e)
	}
	for _, e := range evs {
		if bp, ok := e["bp"].(vfEv); ok {
			delete(bp, "gens")
		}
		t.log(e)
	}
}

func init() { vfSuites["electionsetup"] = vfSuiteElectionSetup }
