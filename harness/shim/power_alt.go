package bulletproofs

import (
	"math/big"

	"github.com/takakv/msc-poc/group"
)

func VerifPowerOf(x *big.Int, n int64, gp group.Group) []*big.Int {
	r := make([]*big.Int, n)
	for i := range r {
		r[i] = new(big.Int).Exp(x, big.NewInt(int64(i)), gp.N())
	}
	return r
}
