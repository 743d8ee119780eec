package bulletproofs

import (
	"errors"
	"fmt"

	"github.com/takakv/msc-poc/group"
)

func VerifIPSetup(g, h []group.Element, n int64, gp group.Group) (InnerProductParams, error) {
	if n <= 0 {
		return InnerProductParams{}, errors.New("not positive")
	}
	p := InnerProductParams{Gg: g, Hh: h, GP: gp}
	for i := int64(0); g == nil && i < n; i++ {
		e, _ := gp.Element().MapToGroup(SEEDH + "g" + fmt.Sprint(i))
		p.Gg = append(p.Gg, e)
	}
	for i := int64(0); h == nil && i < n; i++ {
		e, _ := gp.Element().MapToGroup(SEEDH + "h" + fmt.Sprint(i))
		p.Hh = append(p.Hh, e)
	}
	p.Uu, _ = gp.Element().MapToGroup(SEEDU)
	return p, nil
}
