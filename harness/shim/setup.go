package bulletproofs

import "github.com/takakv/msc-poc/group"

// The functions Verif* give the harness access to functions of the package
// which the package's own tests also use. Each has a stand-in (*_alt.go) for
// when the function behind it has changed its name or signature.

func VerifIPSetup(g, h []group.Element, n int64, gp group.Group) (InnerProductParams, error) {
	return setupInnerProduct(g, h, n, gp)
}
