// h compares instrumented packages with what they did natively.
package main

import (
	"fmt"
	"os"

	"fa"
	_ "verifgen"
	"verifsim/sim"
	"verifsim/simos"
)

func main() {
	want, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	bad, runs := 0, 0
	hashes := map[uint64]bool{}
	for _, pol := range []string{"seq", "rand", "quantum", "pct", "hot", "fine"} {
		for s := uint64(0); s < 60; s++ {
			runs++
			var got, got2 string
			simos.Reset()
			r := sim.Run(sim.Config{Seed: s, Policy: pol, Param: 6}, func() { sim.Fresh(); got = fa.Test() })
			hashes[r.Hash] = true
			if got != string(want) || r.Failure != nil || len(r.Leaked) > 0 {
				if bad++; bad < 4 {
					fmt.Println(pol, s, r.Failure, r.Leaked)
					fmt.Println(got)
				}
			}
			simos.Reset()
			r2 := sim.Run(sim.Config{Seed: s, Policy: "explicit", Devs: r.Devs}, func() { sim.Fresh(); got2 = fa.Test() })
			if r2.Hash != r.Hash || got2 != got {
				if bad++; bad < 4 {
					fmt.Println("replay differs", pol, s, r.Steps, r2.Steps, r.Switches, r2.Switches)
				}
			}
		}
	}
	fmt.Println(runs, "runs,", len(hashes), "distinct schedules,", bad, "bad")
	if bad > 0 {
		os.Exit(1)
	}
}
