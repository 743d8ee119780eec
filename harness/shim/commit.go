package bulletproofs

import (
	"math/big"

	"github.com/takakv/msc-poc/group"
)

func VerifIPCommit(g, h []group.Element, a, b []*big.Int, gp group.Group) group.Element {
	return commitInnerProduct(g, h, a, b, gp)
}
