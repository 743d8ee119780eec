package bulletproofs

import (
	"math/big"

	"github.com/takakv/msc-poc/group"
)

const VerifIPProver = true

func VerifIPProve(a, b []*big.Int, P group.Element, c *big.Int, params InnerProductParams) (InnerProductProof, error) {
	return proveInnerProduct(a, b, P, c, params)
}
