package bulletproofs

import (
	"errors"
	"math/big"

	"github.com/takakv/msc-poc/group"
)

// The prover cannot be called on its own: it is only exercised through Prove.
const VerifIPProver = false

func VerifIPProve(a, b []*big.Int, P group.Element, c *big.Int, params InnerProductParams) (InnerProductProof, error) {
	return InnerProductProof{}, errors.New("not available")
}
