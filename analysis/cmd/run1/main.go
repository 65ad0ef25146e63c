// run1 analyses one function with symbolic arguments and prints the outcomes: run1 FUNC [ARG...]
package main

import (
	"fmt"
	"os"
	"sort"
	"strings"

	ai "mintcheck/absint"
	"mintcheck/load"
	"mintcheck/rules"
)

func main() {
	p, err := load.Load("/repo", "/verif/analysis/mint.sum")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	in := ai.New(p)
	in.NoInline = map[string]bool{}
	s := rules.Initial(in)
	in.Unroll = map[string]bool{}
	for _, f := range strings.Fields(os.Getenv("UNROLL")) {
		in.Unroll[f] = true
	}
	name := os.Args[1]
	fn := p.Func(name)
	if i := strings.Index(name, "."); i >= 0 {
		fn = p.Method(name[:i], name[i+1:])
	}
	var args []*ai.Term
	for i, x := range fn.Params {
		a := ai.Sym(x.Name())
		if 2+i < len(os.Args) && os.Args[2+i] != "" {
			fmt.Sscan(os.Args[2+i], new(int))
			var n int64
			if _, err := fmt.Sscan(os.Args[2+i], &n); err == nil {
				a = ai.Int(n)
			}
		}
		if 2+i < len(os.Args) && os.Args[2+i] == "nil" {
			a = ai.Nil
		}
		args = append(args, a)
	}
	base := s.Facts()
	for _, o := range in.Run(fn, args, s, in.Ctx("top"), nil) {
		fmt.Println("=== panic:", o.Panic, p.Pos(o.Pos))
		for i := range o.Ret.Args {
			fmt.Println("  ret", i, o.S.Deep(o.S.Pure(o.Result(i))))
		}
		var l []string
		for f, v := range o.S.Facts() {
			if w, ok := base[f]; ok && v == w {
				continue
			}
			l = append(l, fmt.Sprint("    ", v, " ", f))
		}
		sort.Strings(l)
		fmt.Println(strings.Join(l, "\n"))
		for i, a := range args {
			if d := o.S.Deep(o.S.Load(a)); strings.Contains(fmt.Sprint(d), "deref") == false {
				fmt.Println("  arg", i, d)
			}
		}
	}
	for n := range in.Notes {
		fmt.Println("note", n)
	}
}
