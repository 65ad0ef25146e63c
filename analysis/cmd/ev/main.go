// ev prints the outcomes of a function with events: ev FUNC WATCHED...
package main

import (
	"fmt"
	"os"

	"mintcheck/load"
	"mintcheck/rules"
)

func main() {
	p, err := load.Load("/repo", "/verif/analysis/mint.sum")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	rules.DebugEvents(p, os.Args[2:], os.Args[1])
}
