package bulletproofs

import (
	"math/big"

	"github.com/takakv/msc-poc/group"
)

func VerifIPCommit(g, h []group.Element, a, b []*big.Int, gp group.Group) group.Element {
	r := gp.Identity()
	for i := range g {
		r = gp.Element().Add(r, gp.Element().Scale(g[i], a[i]))
		r = gp.Element().Add(r, gp.Element().Scale(h[i], b[i]))
	}
	return r
}
