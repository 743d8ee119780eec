seed('set-shares-state', 'C13',
     [('group/ristretto255.go', '	e.val = group.Ristretto255.NewElement().Set(ca.val)\n', '	e.val = ca.val\n'),
      ('group/ristretto255.go', '	e.val = group.Ristretto255.NewElement().Neg(ca.val)\n', '	e.val.Neg(ca.val)\n')], 'group', r'''
import "testing"

func TestDemo(t *testing.T) {
	for _, g := range []Group{Ristretto255(), P256(), P384(), SecP256k1()} {
		a := g.Random()
		s := a.String()
		b := g.Element().Set(a)
		b.Negate(b)
		if a.String() != s {
			t.Fatal(g.Name(), "negating a copy changed the original")
		}
	}
}
''', 'setting one element to another, then negating the copy in place', 'the original changes too')

seed('json-leading-zero', 'C14',
     [('group/p384.go', 'copy(tmp[1+2*byteLen-len(yBytes):], point.Y.Bytes())', 'copy(tmp[1+byteLen:], yBytes)')], 'group', r'''
import (
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	g := P384()
	for i := int64(1); i < 1500; i++ {
		e := g.Element().BaseScale(big.NewInt(i))
		b, _ := e.MarshalJSON()
		d := g.Element()
		if err := d.UnmarshalJSON(b); err != nil || !d.IsEqual(e) {
			t.Fatal(i, err)
		}
	}
}
''', 'a point whose y coordinate has a leading zero byte (one in 256)', 'its JSON encoding cannot be read back')

seed('scale-order-identity', 'C13',
     [('group/modsafeprime.go', '	e.val.Exp(ex.val, s, e.group.fieldOrder)\n', '''	if s.Cmp(e.group.groupOrder) > 0 {
		s = new(big.Int).Mod(s, e.group.fieldOrder)
	}
	e.val.Exp(ex.val, s, e.group.fieldOrder)
''')], 'group', r'''
import (
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	g := NewModPGroup("toy", "17", "2") // p = 23, order 11
	for s := int64(-60); s < 60; s++ {
		a := g.Element().BaseScale(big.NewInt(3))
		want := g.Element().BaseScale(big.NewInt(((3*s)%11 + 11) % 11))
		if !g.Element().Scale(a, big.NewInt(s)).IsEqual(want) {
			t.Fatal(s)
		}
	}
}
''', 'a scalar not smaller than the field order', 'scaling by it gives another element')

seed('map-ignores-suffix', 'C12',
     [('group/p256.go', '	bs := ([]byte)(s)\n', '	bs := ([]byte)(s)\n	if len(bs) > 38 {\n		bs = bs[:38]\n	}\n')], 'bulletproofs', r'''
import (
	"testing"

	"github.com/takakv/msc-poc/group"
)

func TestDemo(t *testing.T) {
	for _, g := range []group.Group{group.P256(), group.P384(), group.Ristretto255(), group.SecP256k1()} {
		p, err := Setup(65536, g)
		if err != nil {
			t.Fatal(err)
		}
		seen := map[string]bool{p.G.String(): true, p.H.String(): true}
		for _, e := range append(append([]group.Element{}, p.Gg...), p.Hh...) {
			if seen[e.String()] {
				t.Fatal(g.Name(), "two generators coincide")
			}
			seen[e.String()] = true
		}
	}
}
''', 'a range of more than ten bits (seeds with a two-digit index)', 'generators 1 and 10 to 15 coincide, so commitments do not bind')

