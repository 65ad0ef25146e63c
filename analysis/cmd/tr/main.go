package main

import (
	"fmt"
	ai "mintcheck/absint"
	"mintcheck/load"
	"mintcheck/rules"
	"os"
)

func main() {
	p, _ := load.Load("/repo", "/verif/analysis/mint.sum")
	in := ai.New(p)
	in.NoInline = map[string]bool{}
	s := rules.Initial(in)
	n := 0
	in.Trace = func(fn string, b, st int, key string) {
		n++
		if n < 60 || n%500 == 0 && n < 5000 {
			if len(key) > 200 {
				key = key[:200]
			}
			fmt.Println(fn, b, st, key)
		}
		if n > 3000 {
			os.Exit(0)
		}
	}
	in.Run(p.Func("HkdfExpand"), []*ai.Term{ai.Int(5), ai.Sym("prk"), ai.Sym("info"), ai.Sym("n")}, s, 0, nil)
}
