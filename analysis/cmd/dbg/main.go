// dbg prints parts of summaries, for debugging: dbg ROLE MODE [N].
package main

import (
	"fmt"
	"os"
	"sort"
	"strconv"

	"mintcheck/hs"
	"mintcheck/load"
)

func main() {
	p, err := load.Load("/repo", "/verif/analysis/mint.sum")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	r := hs.Client(p)
	if os.Args[1] == "server" {
		r = hs.Server(p)
	}
	skip := 0
	if os.Args[2] == "params" {
		os.Args = append(os.Args, "")[:len(os.Args)]
	}
	if len(os.Args) > 3 && os.Args[2] != "params" {
		skip, _ = strconv.Atoi(os.Args[3])
	}
	if os.Args[2] == "params" {
		seen := map[string]bool{}
		for _, v := range r.Views() {
			for _, f := range os.Args[3:] {
				s := fmt.Sprint(f, " = ", v.Param(f))
				if !seen[s] {
					seen[s] = true
					fmt.Println(s)
				}
			}
		}
		return
	}
	for _, v := range r.Views() {
		if v.Mode() != os.Args[2] {
			continue
		}
		if skip > 0 {
			skip--
			continue
		}
		var l []string
		for f, val := range v.S.Facts() {
			l = append(l, fmt.Sprint(val, " ", f))
		}
		sort.Strings(l)
		for _, x := range l {
			fmt.Println(x)
		}
		fmt.Println(v.S.Deep(v.Final))
		if skip < 0 {
			fmt.Println("=====")
			continue
		}
		break
	}
}
