// hsdump prints the handshake summaries, for debugging.
package main

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	ai "mintcheck/absint"
	"mintcheck/hs"
	"mintcheck/load"
)

func main() {
	repo := "/repo"
	if len(os.Args) > 2 {
		repo = os.Args[2]
	}
	p, err := load.Load(repo, "/verif/analysis/mint.sum")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	t0 := time.Now()
	var r *hs.Role
	if d := os.Getenv("TRACE"); d != "" {
		max := map[string]int{}
		ks := map[string]map[string]bool{}
		n := 0
		cnt := map[string]int{}
		lim, _ := strconv.Atoi(d)
		hs.Trace = func(fn string, b, st int, key string) {
			n++
			k := fmt.Sprintf("%s.%d", fn, b)
			cnt[k]++
			if st > max[k] {
				max[k] = st
			}
			if ks[k] == nil {
				ks[k] = map[string]bool{}
			}
			if len(ks[k]) < 2000 {
				ks[k][key] = true
			}
			if n == lim {
				var l []string
				for k := range max {
					l = append(l, fmt.Sprintf("%6d max %6d visits %s", max[k], cnt[k], k))
				}
				sort.Strings(l)
				for _, x := range l {
					fmt.Println(x)
				}
				if f := os.Getenv("TRACEKEYS"); f != "" {
					var l []string
					for k := range ks[f] {
						l = append(l, k)
					}
					sort.Strings(l)
					for _, x := range l {
						fmt.Println("KEY", x)
					}
				}
				os.Exit(1)
			}
		}
	}
	if os.Args[1] == "client" {
		r = hs.Client(p)
	} else {
		r = hs.Server(p)
	}
	fmt.Println("time", time.Since(t0), "blocks", r.In.Blocks, "calls", r.In.Calls)
	for _, e := range r.Errors {
		fmt.Println("ERROR", e)
	}
	for n := range r.In.Notes {
		fmt.Println("NOTE", n)
	}
	for f, es := range r.Edges {
		fmt.Println("EDGE", f, es)
	}
	var os_ []string
	for o, n := range r.In.Opaque {
		os_ = append(os_, fmt.Sprintf("%s×%d", o, n))
	}
	sort.Strings(os_)
	fmt.Println("OPAQUE", strings.Join(os_, ", "))
	cnt := map[string]int{}
	for _, n := range r.Nodes {
		cnt[strings.Join(n.Stages, ">")+">"+hs.StateType(n.State)]++
	}
	for k, v := range cnt {
		fmt.Println("NODES", v, k)
	}
	for _, x := range r.Exits {
		if x.Alert.String() == `"panic"` {
			fmt.Println("PANIC", x.Stage, p.Pos(x.Pos))
		}
	}
	fmt.Println("DONE", len(r.Done))
	for i, n := range r.Done {
		fmt.Println("======", i, strings.Join(n.Stages, ">"))
		for _, rv := range n.Recvs {
			fmt.Println("  recv", rv.Stage, rv.Msg)
		}
		for j, as := range n.Actions {
			for _, a := range as {
				fmt.Println("  act", n.Stages[j], a, n.S.Deep(a))
			}
		}
		fmt.Println("  state", n.S.Deep(n.State.Args[0]))
		var fs []string
		for f, v := range n.S.Facts() {
			fs = append(fs, fmt.Sprintf("%v %v", v, f))
		}
		sort.Strings(fs)
		for _, f := range fs {
			fmt.Println("   fact", f)
		}
	}
	_ = ai.Nil
}
