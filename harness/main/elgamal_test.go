package main

import (
	"fmt"
	"math/big"

	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/zzverif/sym"
)

func vfSuiteElGamal() {
	tr := vfNewTrace("elgamal")
	defer tr.close()
	r := vfNewRng("elgamal")
	nm := vfNames{}
	// symbolic: the key is a generator of its own
	for s := 0; s < vfPick(12, 120); s++ {
		tr.log(vfEv{"ev": "session", "id": s})
		ff := sym.New("SymFF", vfSymQFF)
		pk := ff.Label("PK")
		var cts []ElGamalCiphertext
		var ids []string
		for k := 0; k < 12; k++ {
			m := []int{0, 1, 65535, 101, 2000, r.n(65536)}[r.n(6)]
			before := pk.String()
			var ct ElGamalCiphertext
			var rnd *big.Int
			if msg := vfGuard(func() { ct, rnd = encryptVote(uint16(m), pk, ff) }); msg != "" || ct.U == nil || ct.V == nil || rnd == nil {
				tr.log(vfEv{"ev": "failed", "why": msg})
				return
			}
			id := fmt.Sprint("c", k)
			tr.log(vfEv{"ev": "encrypt", "id": id, "m": m, "r": rnd.String(), "U": nm.out(vfFormOf(ct.U)), "V": nm.out(vfFormOf(ct.V)), "kept": before == pk.String()})
			cts, ids = append(cts, ct), append(ids, id)
		}
		for k := 0; k < 6; k++ {
			n := 1 + r.n(12)
			u, v := ff.Identity(), ff.Identity()
			pickd := []string{}
			for j := 0; j < n; j++ {
				c := r.n(len(cts))
				u, v = ff.Element().Add(u, cts[c].U), ff.Element().Add(v, cts[c].V)
				pickd = append(pickd, ids[c])
			}
			tr.log(vfEv{"ev": "combine", "ids": pickd, "U": nm.out(vfFormOf(u)), "V": nm.out(vfFormOf(v))})
		}
	}
	// real groups: every group can serve as the ElGamal group
	gs := append([]group.Group{vfFfGroup()}, append(vfToyGroups(), vfRealGroups()...)...)
	for _, g := range gs {
		keys := []*big.Int{big.NewInt(13), big.NewInt(1), new(big.Int).Sub(g.N(), big.NewInt(1)), r.big(g.N())}
		for _, key := range keys {
			key := new(big.Int).Mod(key, g.N())
			if key.Sign() == 0 {
				key.SetInt64(1)
			}
			pk := g.Element().BaseScale(key)
			U, V := g.Identity(), g.Identity()
			total := new(big.Int)
			for k := 0; k < vfPick(3, 20); k++ {
				m := []int{0, 1, 65535, 101, 2000, r.n(65536)}[r.n(6)]
				before := pk.String() + g.Generator().String() + g.N().String()
				var ct ElGamalCiphertext
				var rnd *big.Int
				if msg := vfGuard(func() { ct, rnd = encryptVote(uint16(m), pk, g) }); msg != "" || ct.U == nil || ct.V == nil || rnd == nil {
					tr.log(vfEv{"ev": "failed", "why": msg})
					return
				}
				ve := new(big.Int).Mul(rnd, key)
				ve.Add(ve, big.NewInt(int64(m))).Mod(ve, g.N())
				plain := g.Element().Subtract(ct.V, g.Element().Scale(ct.U, key))
				tr.log(vfEv{"ev": "realencrypt", "id": g.Name(), "m": m, "r": rnd.String(), "order": g.N().String(), "key": key.String(),
					"uIs": rnd.String(), "vIs": ve.String(),
					"uEq": ct.U.IsEqual(g.Element().BaseScale(rnd)), "vEq": ct.V.IsEqual(g.Element().BaseScale(ve)),
					"plainEq": plain.IsEqual(g.Element().BaseScale(big.NewInt(int64(m)))),
					"kept":    before == pk.String()+g.Generator().String()+g.N().String()})
				U, V = g.Element().Add(U, ct.U), g.Element().Add(V, ct.V)
				total.Add(total, big.NewInt(int64(m)))
			}
			plain := g.Element().Subtract(V, g.Element().Scale(U, key))
			tr.log(vfEv{"ev": "realsum", "id": g.Name(), "total": total.String(), "want": total.String(),
				"equal": plain.IsEqual(g.Element().BaseScale(total))})
		}
	}
}

func init() { vfSuites["elgamal"] = vfSuiteElGamal }
