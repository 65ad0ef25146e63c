package rules

import (
	"sync"

	ai "mintcheck/absint"
	"mintcheck/check"
)

// Initial is the state after the initialisation of the package: its variables
// hold their initial values.
func Initial(in *ai.Interp) *ai.State {
	s := ai.NewState()
	s.Assume(ai.Mk("gval", "init$guard"), false)
	s.Assume(ai.Mk("gval", "syntax.init$guard"), false)
	for _, o := range in.Run(in.P.Main.SSA.Func("init"), nil, s, in.Ctx("init"), nil) {
		if !o.Panic {
			return o.S
		}
	}
	return s
}

var _ = sync.Once{}
var _ = check.Props
