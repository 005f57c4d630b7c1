package main

import (
	"fmt"
	_ "hv/checks"
	"hv/core"
	"os"
	"sort"
	"strconv"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: hv check <id> [tier] | worker <id> | replay <file> | list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "list":
		var ids []string
		for k := range core.Checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		for _, k := range ids {
			fmt.Println(k)
		}
	case "worker":
		core.Worker(os.Args[2])
	case "replay":
		os.Exit(core.Replay(os.Args[2]))
	case "gen": // hv gen <id> <index>: print a generated case
		seed, idx := uint64(1), 0
		if len(os.Args) > 3 {
			idx, _ = strconv.Atoi(os.Args[3])
		}
		core.Show(os.Args[2], seed, idx)
	case "check":
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		if tier == "" {
			tier = "quick"
		}
		seed := uint64(1)
		if v, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil && v != 0 {
			seed = uint64(v)
		}
		os.Exit(core.Run(os.Args[2], tier, seed))
	default:
		if f, ok := core.Commands[os.Args[1]]; ok {
			os.Exit(f(os.Args[2:]))
		}
		os.Exit(2)
	}
}
