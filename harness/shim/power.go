package bulletproofs

import (
	"math/big"

	"github.com/takakv/msc-poc/group"
)

func VerifPowerOf(x *big.Int, n int64, gp group.Group) []*big.Int { return powerOf(x, n, gp) }
