//go:build go1.22

//go:debug asynctimerchan=0
package main

import (
	"fmt"
	"os"

	"gitlab.com/thorchain/tss/go-tss/verifsim/core"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: sim driver PROP TIER | replay FILE | child ... | gen PROP SEED TIER")
		os.Exit(3)
	}
	core.Main(os.Args[1], os.Args[2:])
}
