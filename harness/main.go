// Command harness checks the properties of lpg by generated-input search.
package main

import (
	"flag"
	"fmt"
	"os"
	"strconv"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness check|worker|replay|list ...")
		os.Exit(2)
	}
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = v
		} else {
			seed = int64(hash64(s) >> 1)
		}
	}
	tierDefault := os.Getenv("VERIF_TIER")
	if tierDefault == "" {
		tierDefault = "quick"
	}
	prop := fs.String("prop", "", "property id")
	fs.Int64Var(&seed, "seed", seed, "seed")
	tier := fs.String("tier", tierDefault, "quick or thorough")
	shard := fs.Int("shard", 0, "shard")
	out := fs.String("out", "", "output directory")
	only := fs.String("driver", "", "only this driver")
	tries := fs.Int("tries", 100, "executions of a replayed case")
	fs.Parse(os.Args[2:])
	switch os.Args[1] {
	case "check":
		os.Exit(supervise(*prop, seed, *tier, *only))
	case "worker":
		runWorker(*prop, seed, *tier, *shard, *out, *only)
	case "replay":
		os.Exit(replayFile(fs.Arg(0), *tries))
	case "list":
		for _, d := range drivers {
			fmt.Printf("%s %s quick=%d: %s\n", d.Prop, d.Name, d.Quick, d.Rule)
		}
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}
