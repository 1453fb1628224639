// Command vmon runs the monitors of one property.
package main

import (
	"flag"
	"fmt"
	"os"
	"strconv"

	"verif.local/harness/checks"
	"verif.local/harness/run"
)

func main() {
	prop := flag.String("prop", "", "property id")
	child := flag.Bool("child", false, "serve cases (internal)")
	replay := flag.String("replay", "", "re-run the case of a replay file")
	only := flag.String("only", "", "run only cases whose name contains this")
	root := flag.String("root", "/verif", "root of the verification tree")
	fresh := flag.Int("fresh", 0, "print random values of a fresh process (internal)")
	cold := flag.Bool("cold", false, "start with concurrent calls (internal)")
	canary := flag.Bool("racecanary", false, "race on purpose (internal)")
	flag.Parse()
	if *canary {
		run.RaceCanary()
		return
	}
	if *cold {
		checks.Cold()
		return
	}
	if *fresh != 0 {
		checks.PrintFresh(uint16(*fresh))
		return
	}
	if *replay != "" {
		os.Exit(run.RunReplay(*replay))
	}
	ck := run.Get(*prop)
	if ck == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	if *child {
		run.Child(ck)
		return
	}
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		n, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			fmt.Fprintln(os.Stderr, "bad VERIF_SEED", s)
			os.Exit(2)
		}
		seed = n
	}
	os.Exit(run.Main(ck, tier, seed, *root, *only))
}
