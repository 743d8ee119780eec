package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"strconv"
	"strings"

	"github.com/takakv/msc-poc/group"
)

type vfGroupOp struct {
	Op      string
	D, A, B int
	S       string
}

// coords reads the canonical numbers of an element off its binary encoding.
func vfCoords(e group.Element) (out []string) {
	out = []string{"unreadable"}
	vfGuard(func() {
		b, err := e.MarshalBinary()
		if err != nil {
			return
		}
		num := func(b []byte) string { return new(big.Int).SetBytes(b).String() }
		le := func(b []byte) string {
			r := make([]byte, len(b))
			for i := range b {
				r[len(b)-1-i] = b[i]
			}
			return num(r)
		}
		switch e.(type) {
		case *group.ModPElement:
			out = []string{num(b)}
			return
		}
		switch {
		case len(b) == 32:
			out = []string{le(b)}
		case len(b) == 1 && b[0] == 0:
			out = []string{}
		case len(b) == 64:
			out = []string{num(b[:32]), num(b[32:])}
			if out[0] == "0" && out[1] == "0" {
				out = []string{}
			}
		case b[0] == 4 && len(b)%2 == 1:
			h := (len(b) - 1) / 2
			out = []string{num(b[1 : 1+h]), num(b[1+h:])}
		}
	})
	return
}

func vfScalarNamed(s string, q *big.Int, r *vfRng) *big.Int {
	n := new(big.Int)
	switch s {
	case "q":
		return n.Set(q)
	case "q-1":
		return n.Sub(q, big.NewInt(1))
	case "q+1":
		return n.Add(q, big.NewInt(1))
	case "-q":
		return n.Neg(q)
	case "2q":
		return n.Lsh(q, 1)
	case "half":
		return n.Rsh(q, 1)
	case "big":
		return n.Lsh(q, 67).Add(n, big.NewInt(11))
	case "-big":
		return n.Lsh(q, 67).Add(n, big.NewInt(11)).Neg(n)
	case "rnd":
		return r.big(q)
	case "cube", "cube2": // a root of x^3 = 1 modulo q, where there is one besides 1
		e := new(big.Int).Div(new(big.Int).Sub(q, big.NewInt(1)), big.NewInt(3))
		for b := int64(2); n.BitLen() < 2 && b < 50; b++ {
			n.Exp(big.NewInt(b), e, q)
		}
		if s == "cube2" {
			n.Exp(n, big.NewInt(2), q)
		}
		return n
	}
	// p, m, w and a width: 2^width, 2^width-1, a random number of that width
	t := strings.TrimPrefix(s, "-")
	if i := strings.IndexAny(t, "pmw"); i == 0 {
		w, _ := strconv.Atoi(t[1:])
		n.Lsh(big.NewInt(1), uint(w))
		switch t[0] {
		case 'm':
			n.Sub(n, big.NewInt(1))
		case 'w':
			n.Rsh(n, 1)
			n.Add(n, r.big(n))
		}
		if t != s {
			n.Neg(n)
		}
		return n
	}
	n.SetString(s, 10)
	return n
}

func vfSameStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// mapArg is the string hashed to the group; the long ones differ at the end.
func vfMapArg(s string) string {
	if strings.HasPrefix(s, "long") {
		return "map/" + strings.Repeat("0123456789", 40) + s
	}
	return "map/" + s
}

// runProgram executes a program on fresh registers.
func vfRunProgram(t *vfTrace, id string, g group.Group, prog []vfGroupOp, r *vfRng) {
	_, modp := g.(*group.ModPGroup)
	mk := func(s string) group.Element {
		if modp {
			h := vfNewRng("map/" + s)
			return g.Element().BaseScale(h.big(g.N()))
		}
		e, err := g.Element().MapToGroup("start" + s)
		if err != nil {
			panic(err)
		}
		return e
	}
	regs := []group.Element{mk("v"), mk("w"), g.Identity()}
	all := func() [][]string {
		o := make([][]string, len(regs))
		for i := range regs {
			o[i] = vfCoords(regs[i])
		}
		return o
	}
	gen0, p0, n0 := vfCoords(g.Generator()), g.P().String(), g.N().String()
	t.log(vfEv{"ev": "session", "id": id, "group": g.Name(), "p": p0, "n": n0, "g": gen0, "zero": vfCoords(g.Identity()), "regs": all()})
	for _, o := range prog {
		if o.Op == "map" && modp {
			continue // not offered by this group
		}
		e := vfEv{"ev": "op", "op": o.Op, "d": o.D, "a": o.A, "b": o.B, "s": o.S}
		d, a, b := regs[o.D-1], regs[o.A-1], regs[o.B-1]
		var s, s0 *big.Int
		if o.Op == "scale" || o.Op == "base" {
			s = vfScalarNamed(o.S, g.N(), r)
			s0 = new(big.Int).Set(s)
			e["s"] = s.String()
		}
		var ret group.Element
		msg := vfGuard(func() {
			switch o.Op {
			case "add":
				ret = d.Add(a, b)
			case "sub":
				ret = d.Subtract(a, b)
			case "neg":
				ret = d.Negate(a)
			case "set":
				ret = d.Set(a)
			case "scale":
				ret = d.Scale(a, s)
			case "base":
				ret = d.BaseScale(s)
			case "gen":
				regs[o.D-1] = g.Generator()
				ret = regs[o.D-1]
			case "idn":
				regs[o.D-1] = g.Identity()
				ret = regs[o.D-1]
			case "map":
				var err error
				ret, err = d.MapToGroup(vfMapArg(o.S))
				if err != nil {
					panic(err)
				}
			case "bin":
				enc, err := a.MarshalBinary()
				if err == nil {
					err = d.UnmarshalBinary(enc)
				}
				if err != nil {
					panic(err)
				}
				ret = d
			case "json":
				enc, err := json.Marshal(a)
				if err == nil {
					err = json.Unmarshal(enc, d)
				}
				if err != nil {
					panic(err)
				}
				ret = d
			}
		})
		if msg != "" {
			e["ev"], e["why"] = "panicked", msg
			t.log(e)
			return
		}
		e["returned"] = ret != nil && vfSameStrs(vfCoords(ret), vfCoords(regs[o.D-1]))
		e["kept"] = s == nil || s.Cmp(s0) == 0
		e["consts"] = vfSameStrs(gen0, vfCoords(g.Generator())) && g.Identity().IsIdentity() && g.P().String() == p0 && g.N().String() == n0 &&
			regs[0].GroupOrder().String() == n0 && regs[0].FieldOrder().String() == p0
		eq := make([][]bool, len(regs))
		idv := make([]bool, len(regs))
		cls := make([]int, len(regs))
		for i := range regs {
			eq[i] = make([]bool, len(regs))
			idv[i] = regs[i].IsIdentity()
			cls[i] = i
			for j := range regs {
				eq[i][j] = regs[i].IsEqual(regs[j])
				if j < i && regs[i].String() == regs[j].String() && cls[i] == i {
					cls[i] = cls[j]
				}
			}
		}
		e["regs"], e["eq"], e["id"], e["cls"] = all(), eq, idv, cls
		t.log(e)
	}
}

func vfToyGroups() []group.Group {
	return []group.Group{
		group.NewModPGroup("toy23", "17", "2"),    // 23 = 2*11+1, generator 2
		group.NewModPGroup("toy167", "A7", "2"),   // 167 = 2*83+1
		group.NewModPGroup("toy2039", "7F7", "2"), // 2039 = 2*1019+1
	}
}

func vfReadPrograms(file string) (progs [][]vfGroupOp) {
	if _, err := os.Stat(file); err != nil {
		return
	}
	vfReadLines(file, func(l []byte) {
		var p []vfGroupOp
		if err := json.Unmarshal(l, &p); err != nil {
			// CSVWrite may quote the line
			var s string
			if err2 := json.Unmarshal(l, &s); err2 != nil {
				panic(err)
			}
			if err := json.Unmarshal([]byte(s), &p); err != nil {
				panic(err)
			}
		}
		progs = append(progs, p)
	})
	return
}

// suiteGroups replays the programs of the specification on every group; one
// trace file per group.
func vfSuiteGroups() {
	progs := vfReadPrograms(vfInDir + "/behaviours.ndjson")
	kind := os.Getenv("VERIF_SALT")
	if kind == "mini" {
		vfSamples()
	}
	var gs []group.Group
	switch kind {
	case "pairs":
		gs = vfToyGroups()[:1]
	case "mini":
		gs = append(vfRealGroups(), vfFfGroup())
	default:
		gs = append(append(vfRealGroups(), vfFfGroup()), vfToyGroups()...)
	}
	// the programs are independent: those of a costly group are divided
	const parts = 6
	type job struct{ group, part, of int }
	var jobs []job
	for i := range gs {
		if kind != "pairs" && i == len(vfRealGroups()) {
			for k := 0; k < parts; k++ {
				jobs = append(jobs, job{i, k, parts})
			}
		} else {
			jobs = append(jobs, job{i, 0, 1})
		}
	}
	vfParallel(len(jobs), func(i int) {
		j := jobs[len(jobs)-1-i]
		g := gs[j.group]
		t := vfNewTrace(fmt.Sprintf("group-%s-%d-%d", kind, j.group, j.part))
		defer t.close()
		r := vfNewRng(fmt.Sprint("group/", g.Name(), j.part))
		for k, p := range progs {
			if k%j.of == j.part {
				vfRunProgram(t, fmt.Sprintf("%s %d", kind, k), g, p, r)
			}
		}
	})
}

// vfSamples draws elements of every group with Random.
func vfSamples() {
	t := vfNewTrace("group-random")
	defer t.close()
	for i, g := range append(vfToyGroups()[:1], append(vfRealGroups(), vfFfGroup())...) {
		n, values := 5, [][]string{}
		if i == 0 {
			n = 400
		}
		for k := 0; k < n; k++ {
			v := []string{"panic"}
			vfGuard(func() { v = vfCoords(g.Random()) })
			values = append(values, v)
		}
		t.log(vfEv{"ev": "random", "small": i == 0, "group": g.Name(), "p": g.P().String(), "n": g.N().String(), "g": vfCoords(g.Generator()),
			"zero": vfCoords(g.Identity()), "values": values})
	}
}

func init() { vfSuites["groups"] = vfSuiteGroups }
