// simrun drives the simulated checks: it hands batches to worker processes,
// minimises what they find and writes the evidence.
package main

import (
	"flag"
	"fmt"
	"os"
	"strconv"

	"verifharness/core"
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "simrun: "+f+"\n", a...)
	os.Exit(3)
}

func envSeed() uint64 {
	s := os.Getenv("VERIF_SEED")
	if s == "" {
		return 1
	}
	v, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		u, err := strconv.ParseUint(s, 10, 64)
		if err != nil {
			return uint64(len(s)) + 1000
		}
		return u
	}
	return uint64(v)
}

func main() {
	if len(os.Args) < 2 {
		die("usage: simrun check|batch|plan|gen|replay|list|digests ...")
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	tier := fs.String("tier", "", "quick or thorough")
	seed := fs.Uint64("seed", envSeed(), "seed")
	batch := fs.Int("batch", 0, "batch")
	to := fs.Int("to", 0, "")
	devs := fs.Bool("devs", false, "report the schedule")
	verif := fs.String("verif", "/verif", "")
	workers := fs.Int("workers", 8, "")
	wall := fs.Int("wall", 0, "seconds after which no new batch is started")
	evidence := fs.Bool("evidence", true, "write the evidence file")
	fs.Parse(os.Args[2:])
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	switch cmd {
	case "list":
		for _, id := range core.IDs() {
			fmt.Println(id)
		}
	case "batch":
		p := core.GenPlan(*prop, *seed, *batch, *tier)
		worker(p, *devs)
	case "plan":
		p, err := core.ReadPlan(fs.Arg(0))
		if err != nil {
			die("%v", err)
		}
		worker(p, *devs)
	case "gen":
		emit(os.Stdout, core.GenPlan(*prop, *seed, *batch, *tier))
	case "replay":
		os.Exit(replay(fs.Arg(0)))
	case "digests":
		digests(*prop, *seed, *tier, *batch, *to, *workers)
	case "check":
		c := &check{prop: core.ByID(*prop), tier: *tier, seed: *seed, verif: *verif, workers: *workers, wall: *wall, evidence: *evidence}
		if c.prop == nil {
			die("no property %q", *prop)
		}
		os.Exit(c.run())
	default:
		die("unknown command %s", cmd)
	}
}
