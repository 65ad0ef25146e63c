// Command mintcheck decides the properties of /verif/properties.jsonl from the
// current source of the repository, without running it.
package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"mintcheck/check"
	"mintcheck/load"
	_ "mintcheck/rules"
)

func main() {
	props := flag.String("prop", "", "property ids, comma separated (or all)")
	repo := flag.String("repo", "/repo", "repository to analyse")
	verif := flag.String("verif", "/verif", "directory of this framework")
	tier := flag.String("tier", "quick", "quick or thorough")
	prof := flag.String("cpuprofile", "", "write a profile")
	flag.Parse()
	debug.SetGCPercent(800)
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	start := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	p, err := load.Load(*repo, filepath.Join(*verif, "analysis", "mint.sum"))
	var ids []string
	if *props == "all" {
		for id := range check.Props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	} else {
		ids = strings.Split(*props, ",")
	}
	status := 0
	for _, id := range ids {
		prop := check.Props[id]
		if prop == nil {
			fmt.Println("unknown property", id)
			os.Exit(2)
		}
		if len(ids) > 1 {
			start = time.Now()
		}
		if s := check.Run(p, err, prop, *verif, *tier, seed, start); s > status {
			status = s
		}
	}
	if *prof == "" {
		os.Exit(status)
	}
}
