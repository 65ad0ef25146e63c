package rules

import (
	"fmt"
	"os"

	ai "mintcheck/absint"
	"mintcheck/check"
	"mintcheck/load"
)

// DebugEvents prints the outcomes of a function with events (development aid).
func DebugEvents(p *load.Program, names []string, fn string) {
	c := &check.Ctx{P: p}
	u := newUnit(c)
	base := u.init.Facts()
	_, outs := u.withEvents(names, fn)
	for _, o := range outs {
		fmt.Println("===", p.Pos(o.Pos), o.Ret)
		evs, ok := events(o)
		fmt.Println("  known", ok)
		for _, e := range evs {
			fmt.Println("   ", e)
		}
		for _, l := range factList(o) {
			skip := false
			for f, v := range base {
				if fmt.Sprint(v, " ", f) == l {
					skip = true
				}
			}
			if !skip {
				fmt.Println("      ", l)
			}
		}
		for _, k := range o.S.Objects() {
			if k[0] == '@' && os.Getenv("HEAP") != "" {
				fmt.Println("      ", k, o.S.Heap(k))
			}
		}
	}
	_ = ai.Nil
}
