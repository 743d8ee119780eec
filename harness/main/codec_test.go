package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"

	"github.com/takakv/msc-poc/group"
)

func vfInts(b []byte) []int {
	r := make([]int, len(b))
	for i := range b {
		r[i] = int(b[i])
	}
	return r
}

type vfCodecRun struct {
	t *vfTrace
	g group.Group
	r *vfRng
	// receivers hold some element before decoding
	recv func() group.Element
	kind string // w, r, m
	wid  int
}

func (c *vfCodecRun) decode(f func(e group.Element) error) (string, []string) {
	e := c.recv()
	var err error
	if msg := vfGuard(func() { err = f(e) }); msg != "" {
		return "panic", nil
	}
	if err != nil {
		return "error", []string{}
	}
	return "ok", vfCoords(e)
}

func (c *vfCodecRun) bytes(id string, b []byte) {
	o, v := c.decode(func(e group.Element) error { return e.UnmarshalBinary(append([]byte(nil), b...)) })
	if c.kind == "m" {
		c.t.log(vfEv{"ev": "number", "id": id, "x": new(big.Int).SetBytes(b).String(), "outcome": o, "value": v})
		return
	}
	c.t.log(vfEv{"ev": "bytes", "id": id, "bytes": vfInts(b), "outcome": o, "value": v})
}

func (c *vfCodecRun) raw(id, shape, doc string, extra vfEv) {
	for _, direct := range []bool{false, true} {
		o, v := c.decode(func(e group.Element) error {
			if direct {
				if !json.Valid([]byte(doc)) {
					// the method may be handed only valid JSON by encoding/json
					return fmt.Errorf("not JSON")
				}
				return e.UnmarshalJSON([]byte(doc))
			}
			return json.Unmarshal([]byte(doc), e)
		})
		x := vfEv{"ev": "doc", "id": id, "shape": shape, "outcome": o, "value": v, "doc": doc}
		for k, w := range extra {
			x[k] = w
		}
		if len(doc) > 700 {
			delete(x, "doc")
		}
		c.t.log(x)
	}
}

func (c *vfCodecRun) pair(id string, x, y *big.Int) {
	c.raw(id, "plain", fmt.Sprintf(`{"x":%s,"y":%s}`, x, y), vfEv{"x": x.String(), "y": y.String()})
	if c.kind != "w" {
		return
	}
	if x.Sign() < 0 || y.Sign() < 0 || x.BitLen() > 8*c.wid || y.BitLen() > 8*c.wid {
		return
	}
	c.bytes(id, c.uncompressed(x, y))
}

func (c *vfCodecRun) uncompressed(x, y *big.Int) []byte {
	b := make([]byte, 2*c.wid)
	x.FillBytes(b[:c.wid])
	y.FillBytes(b[c.wid:])
	if c.g.Name() == group.SecP256k1().Name() {
		return b
	}
	return append([]byte{4}, b...)
}

func (c *vfCodecRun) roundTrip(id string, e group.Element) {
	v := vfCoords(e)
	x := vfEv{"ev": "roundtrip", "id": id, "value": v, "jx": "", "jy": ""}
	back := func(f func(d group.Element) error) ([]string, bool) {
		d := c.recv()
		var err error
		if msg := vfGuard(func() { err = f(d) }); msg != "" || err != nil {
			return []string{"failed"}, false
		}
		return vfCoords(d), d.IsEqual(e) && e.IsEqual(d) && d.String() == e.String()
	}
	x["bin"], x["binEqual"] = back(func(d group.Element) error {
		b, err := e.MarshalBinary()
		if err != nil {
			return err
		}
		return d.UnmarshalBinary(b)
	})
	x["json"], x["jsonEqual"] = back(func(d group.Element) error {
		b, err := json.Marshal(e)
		if err != nil {
			return err
		}
		if c.kind == "w" {
			var p group.ECPoint
			if json.Unmarshal(b, &p) == nil && p.X != nil && p.Y != nil {
				x["jx"], x["jy"] = p.X.String(), p.Y.String()
			}
		}
		return json.Unmarshal(b, d)
	})
	x["kept"] = vfSameStrs(v, vfCoords(e))
	c.t.log(x)
}

func vfCurveB(g group.Group) (a, b *big.Int) {
	// from the standards, only used to find interesting coordinates
	switch g.P().BitLen() {
	case 384:
		return big.NewInt(-3), vfMustHex("b3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef")
	}
	if g.Name() == group.SecP256k1().Name() {
		return big.NewInt(0), big.NewInt(7)
	}
	return big.NewInt(-3), vfMustHex("5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b")
}

// yOf returns a square root of x^3+ax+b, or nil.
func vfYOf(g group.Group, x *big.Int) *big.Int {
	a, b := vfCurveB(g)
	p := g.P()
	v := new(big.Int).Exp(x, big.NewInt(3), p)
	v.Add(v, new(big.Int).Mul(a, x))
	v.Add(v, b)
	v.Mod(v, p)
	return new(big.Int).ModSqrt(v, p)
}

func vfSuiteCodec() {
	gs := append(vfRealGroups(), vfFfGroup())
	gs = append(gs, vfToyGroups()...)
	vfParallel(len(gs), func(i int) {
		g := gs[i]
		t := vfNewTrace(fmt.Sprintf("codec-%d", i))
		defer t.close()
		r := vfNewRng("codec/" + g.Name())
		c := &vfCodecRun{t: t, g: g, r: r, wid: (g.P().BitLen() + 7) / 8}
		n := 0
		c.recv = func() group.Element {
			n++
			switch n % 3 {
			case 0:
				return g.Element()
			case 1:
				return g.Element().BaseScale(big.NewInt(int64(n)))
			}
			return g.Identity()
		}
		switch {
		case len(vfCoords(g.Generator())) == 2:
			c.kind = "w"
		case g.Name() == group.Ristretto255().Name():
			c.kind = "r"
		default:
			c.kind = "m"
		}
		t.log(vfEv{"ev": "session", "group": g.Name(), "p": g.P().String(), "g": vfCoords(g.Generator())})
		elems := c.members()
		switch c.kind {
		case "w":
			c.curve(elems)
		case "r":
			c.ristretto(elems)
		case "m":
			c.residues(elems)
		}
		for _, d := range []string{`null`, `{}`, `[]`, `""`, `"a"`, `true`, `1.5`, `{"x":1}`, `{"y":1}`, `{"x":null,"y":null}`, `{"x":1,"y":null}`, `{"x":null,"y":1}`,
			`{"x":"a","y":"b"}`, `{"x":[1],"y":[2]}`, `{"x":{},"y":{}}`, `{"x":true,"y":false}`, `{"x":1.5,"y":2.5}`, `[1,2]`, `{"x":1e3,"y":1}`, `1e2`, `-1.0`, `{"x":`, `{`, ``, `nul`,
			`"AAAA"`, `"!!!!"`, `{"X":{"x":1}}`, `-1`, `{"x":-1,"y":-1}`, `{"x":-0,"y":}`} {
			shape := "broken"
			if c.kind == "m" && d == "-1" {
				c.raw("odd", "plain", d, vfEv{"x": "-1", "y": "0"})
				continue
			}
			if c.kind == "w" && d == `{"x":-1,"y":-1}` {
				c.raw("odd", "plain", d, vfEv{"x": "-1", "y": "-1"})
				continue
			}
			c.raw("odd", shape, d, nil)
		}
	})
}

// members returns elements with all kinds of encodings.
func (c *vfCodecRun) members() []group.Element {
	g := c.g
	out := []group.Element{g.Identity(), g.Generator(), g.Element().Negate(g.Generator()),
		g.Element().Add(g.Generator(), g.Element().Negate(g.Generator())), g.Element().Scale(g.Generator(), g.N()),
		g.Element().Subtract(g.Identity(), g.Identity()), g.Element().BaseScale(new(big.Int)), g.Element().Set(g.Identity()), g.Element().Negate(g.Identity())}
	for i := 0; i < vfPick(12, 60); i++ {
		e := g.Element().BaseScale(c.r.big(g.N()))
		out = append(out, e)
	}
	// coordinates with remarkable first or last bytes, wherever they occur
	e := g.Generator()
	met := map[string]int{}
	for k := 0; k < vfPick(3000, 12000); k++ {
		e = g.Element().Add(e, g.Generator())
		keep := false
		for i, s := range vfCoords(e) {
			v, _ := new(big.Int).SetString(s, 10)
			if v == nil {
				continue
			}
			top := new(big.Int).Rsh(v, uint(8*(c.wid-1))).Int64()
			low := new(big.Int).And(v, big.NewInt(255)).Int64()
			for _, class := range []string{fmt.Sprint("top", top), fmt.Sprint("low", low)} {
				switch class[3:] {
				case "0", "255", "1", "4", "128":
					class += fmt.Sprint("/", i)
					want := 1
					if class[3] == '0' {
						want = vfPick(4, 20)
					}
					if met[class] < want {
						met[class]++
						keep = true
					}
				}
			}
		}
		if keep {
			out = append(out, e)
		}
	}
	for i, e := range out {
		c.roundTrip(fmt.Sprint("member ", i), e)
	}
	return out
}

func (c *vfCodecRun) curve(elems []group.Element) {
	g, p := c.g, c.g.P()
	num := func(s string) *big.Int { v, _ := new(big.Int).SetString(s, 10); return v }
	one := big.NewInt(1)
	for i, e := range elems {
		v := vfCoords(e)
		if len(v) != 2 || i > vfPick(14, 40) {
			continue
		}
		x, y := num(v[0]), num(v[1])
		add := func(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }
		c.pair("valid", x, y)
		c.pair("other root", x, new(big.Int).Sub(p, y))
		c.pair("y+1", x, add(y, one))
		c.pair("x+1", add(x, one), y)
		c.pair("swapped", y, x)
		c.pair("x+p", add(x, p), y)
		c.pair("y+p", x, add(y, p))
		c.pair("x-p", new(big.Int).Sub(x, p), y)
		c.pair("y-p", x, new(big.Int).Sub(y, p))
		c.pair("-y", x, new(big.Int).Neg(y))
		c.pair("-x", new(big.Int).Neg(x), y)
		c.pair("x,0", x, new(big.Int))
		c.pair("0,y", new(big.Int), y)
		c.pair("both+p", add(x, p), add(y, p))
		c.pair("wide", add(x, new(big.Int).Lsh(one, uint(8*c.wid))), y)
	}
	c.pair("0,0", new(big.Int), new(big.Int))
	c.pair("p,p", p, p)
	c.pair("p,0", p, new(big.Int))
	c.pair("0,p", new(big.Int), p)
	c.pair("0,1", new(big.Int), one)
	c.pair("1,0", one, new(big.Int))
	// small x coordinates, whose x+p still fits the encoding
	for x := int64(0); x < int64(vfPick(12, 60)); x++ {
		bx := big.NewInt(x)
		if y := vfYOf(g, bx); y != nil {
			c.pair("small", bx, y)
			c.pair("small+p", new(big.Int).Add(bx, p), y)
			c.pair("small,-y", bx, new(big.Int).Sub(p, y))
			c.pair("small,y+p", bx, new(big.Int).Add(y, p))
			c.bytes("small compressed", append([]byte{2}, vfPad(bx, c.wid)...))
			c.bytes("small compressed odd", append([]byte{3}, vfPad(bx, c.wid)...))
		} else {
			c.pair("no root", bx, one)
			c.bytes("no root compressed", append([]byte{2}, vfPad(bx, c.wid)...))
		}
	}
	enc, err := elems[1].MarshalBinary()
	if err != nil || len(enc) == 0 {
		return
	}
	for l := 0; l <= len(enc)+2; l++ {
		b := append(append([]byte(nil), enc...), 0, 0)
		if l == len(enc) {
			continue
		}
		c.bytes("length", b[:l])
		if l == c.wid+1 || l == 2*c.wid || l == 64 || l == 65 {
			for tag := 0; tag < 8; tag++ {
				b[0] = byte(tag)
				c.bytes("length and tag", b[:l])
			}
		}
	}
	for tag := 0; tag < 256; tag++ {
		b := append([]byte(nil), enc...)
		b[0] = byte(tag)
		c.bytes("first byte", b)
	}
	for k := range enc {
		b := append([]byte(nil), enc...)
		b[k] ^= byte(1 << uint(c.r.n(8)))
		c.bytes("flip", b)
	}
	for k := 0; k <= len(enc); k++ {
		for _, more := range [][]byte{{0}, {0, 0}, {4}} {
			b := append([]byte(nil), enc[:k]...)
			c.bytes("inserted", append(append(b, more...), enc[k:]...))
		}
	}
	for l := 0; l < 2*len(enc); l++ {
		c.bytes("zeros", make([]byte, l))
	}
	c.bytes("one zero", []byte{0})
	c.bytes("two zeros", []byte{0, 0})
	c.bytes("one four", []byte{4})
	for _, w := range []byte{0xff, 1, 4} {
		b := make([]byte, len(enc))
		for k := range b {
			b[k] = w
		}
		c.bytes("fill", b)
	}
}

func vfPad(x *big.Int, n int) []byte { return x.FillBytes(make([]byte, n)) }

func (c *vfCodecRun) ristretto(elems []group.Element) {
	str := func(id string, b []byte) {
		c.bytes(id, b)
		c.raw(id, "plain", `"`+base64.StdEncoding.EncodeToString(b)+`"`, vfEv{"bytes": vfInts(b)})
	}
	le := func(v *big.Int) []byte {
		b := vfPad(new(big.Int).Mod(v, new(big.Int).Lsh(big.NewInt(1), 256)), 32)
		for i := 0; i < 16; i++ {
			b[i], b[31-i] = b[31-i], b[i]
		}
		return b
	}
	p := c.g.P()
	for i, e := range elems {
		if i > vfPick(16, 40) {
			break
		}
		b, err := e.MarshalBinary()
		if err != nil {
			continue
		}
		str("valid", b)
		v, _ := new(big.Int).SetString(vfCoords(e)[0], 10)
		str("negative", le(new(big.Int).Sub(p, v)))
		str("s+p", le(new(big.Int).Add(v, p)))
		str("high bit", le(new(big.Int).Add(v, new(big.Int).Lsh(big.NewInt(1), 255))))
		for l := 0; l < 34; l++ {
			x := append(append([]byte(nil), b...), 0, 0)
			if i == 1 && l != 32 {
				str("length", x[:l])
			}
		}
		x := append([]byte(nil), b...)
		x[c.r.n(32)] ^= byte(1 << uint(c.r.n(8)))
		str("flip", x)
	}
	for v := int64(-22); v < int64(vfPick(60, 400)); v++ {
		str("small", le(big.NewInt(v)))
		str("near p", le(new(big.Int).Add(p, big.NewInt(v))))
	}
	for i := 0; i < vfPick(60, 600); i++ {
		str("random", le(c.r.bits(255)))
	}
	c.raw("not base64", "broken", `"%%%%"`, nil)
	c.raw("bytes as array", "broken", `[1,2,3]`, nil)
}

func (c *vfCodecRun) residues(elems []group.Element) {
	p := c.g.P()
	num := func(id string, v *big.Int) {
		c.raw(id, "plain", v.String(), vfEv{"x": v.String()})
		if v.Sign() >= 0 {
			c.bytes(id, v.Bytes())
			c.bytes(id+" padded", append([]byte{0, 0}, v.Bytes()...))
		}
	}
	if p.BitLen() < 12 {
		lim := 3 * p.Int64()
		for v := int64(-30); v < lim; v++ {
			num("all", big.NewInt(v))
		}
	}
	for v := int64(-3); v < 12; v++ {
		b := big.NewInt(v)
		num("small", b)
		num("near p", new(big.Int).Add(p, b))
		num("near q", new(big.Int).Add(c.g.N(), b))
		num("minus", new(big.Int).Sub(new(big.Int).Neg(p), b))
	}
	for i, e := range elems {
		if i > vfPick(12, 40) {
			break
		}
		v, _ := new(big.Int).SetString(vfCoords(e)[0], 10)
		num("member", v)
		num("negated", new(big.Int).Sub(p, v))
		num("minus", new(big.Int).Neg(v))
		num("plus p", new(big.Int).Add(v, p))
		num("times 2p", new(big.Int).Add(v, new(big.Int).Lsh(p, 1)))
	}
	for i := 0; i < vfPick(20, 100); i++ {
		num("random", c.r.big(p))
	}
	c.bytes("empty", []byte{})
}

func init() { vfSuites["codec"] = vfSuiteCodec }
