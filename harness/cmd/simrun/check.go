package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"verifharness/core"
)

type check struct {
	prop     *core.Prop
	tier     string
	seed     uint64
	verif    string
	workers  int
	wall     int
	evidence bool

	mu       sync.Mutex
	results  map[int]*outcome
	bad      int // lowest batch with an unlisted violation
	known    map[string]int
	start    time.Time
	findings []finding
	batches  int
	launched int
	faultMsg string
	cut      bool
}

// finding is an entry of the known-findings file.
type finding struct {
	prop, class string
	re          *regexp.Regexp
	text        string
}

const batchLimit = 240 * time.Second

func (c *check) loadFindings() {
	b, err := os.ReadFile(filepath.Join(c.verif, "known-findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		// finding: property=<id> class=<class> match=/<regexp>/ <what fails>
		m := regexp.MustCompile(`^finding: property=(\S+) class=(\S+) match=/(.*?)/ (.*)$`).FindStringSubmatch(l)
		if m == nil {
			continue
		}
		if m[1] == c.prop.ID {
			c.findings = append(c.findings, finding{m[1], m[2], regexp.MustCompile(m[3]), m[4]})
		}
	}
}

func (c *check) unlisted(vs []core.FoundViol) []core.FoundViol {
	var out []core.FoundViol
next:
	for _, v := range vs {
		for _, f := range c.findings {
			if f.class == v.Class && f.re.MatchString(v.Msg) {
				c.known[f.text]++
				continue next
			}
		}
		out = append(out, v)
	}
	return out
}

func (c *check) args(b int) []string {
	return []string{"batch", "-prop", c.prop.ID, "-tier", c.tier, "-seed", fmt.Sprint(c.seed), "-batch", fmt.Sprint(b)}
}

func (c *check) run() int {
	c.start = time.Now()
	c.results = map[int]*outcome{}
	c.known = map[string]int{}
	c.bad = -1
	c.loadFindings()
	c.batches = c.prop.Batches(c.tier)
	if c.wall == 0 {
		c.wall = 600
		if c.tier == "thorough" {
			c.wall = 2700
		}
	}
	fmt.Printf("%s: tier %s, seed %d, %d batches, %d workers\n", c.prop.ID, c.tier, c.seed, c.batches, c.workers)
	next := 0
	var wg sync.WaitGroup
	for i := 0; i < c.workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				c.mu.Lock()
				b := next
				stop := b >= c.batches || c.faultMsg != "" || (c.bad >= 0 && b > c.bad)
				if !stop && time.Since(c.start) > time.Duration(c.wall)*time.Second {
					c.cut, stop = true, true
				}
				if stop {
					c.mu.Unlock()
					return
				}
				next++
				c.launched++
				c.mu.Unlock()
				o := spawn(batchLimit, c.args(b)...)
				c.mu.Lock()
				c.results[b] = o
				if o.fault != "" {
					c.faultMsg = fmt.Sprintf("batch %d: %s", b, o.fault)
				}
				if vs := c.unlisted(o.viols()); len(vs) > 0 && (c.bad < 0 || b < c.bad) {
					c.bad = b
				}
				c.mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if c.bad < 0 && c.faultMsg != "" {
		die("%s", c.faultMsg)
	}
	path := ""
	var vs []core.FoundViol
	if c.bad >= 0 {
		path, vs = c.report(c.bad)
	}
	re, mism := 0, 0
	if c.bad < 0 {
		re, mism = c.recheck()
	}
	if c.evidence {
		c.write(re, mism, len(vs), path)
	}
	for t, n := range c.known {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%d times)\n", c.prop.ID, t, n)
	}
	if c.bad >= 0 {
		for i, v := range vs {
			if i < 5 {
				fmt.Printf("violation (%s): %s\n", v.Class, v.Msg)
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop.ID, path)
		return 1
	}
	fmt.Printf("%s: held on %d batches in %.1f s\n", c.prop.ID, len(c.results), time.Since(c.start).Seconds())
	return 0
}

// recheck runs some batches again: the histories have to be the same.
func (c *check) recheck() (n, mism int) {
	var bs []int
	step := len(c.results)/16 + 1
	for b := 0; b < c.batches; b += step {
		if o := c.results[b]; o != nil && o.res != nil {
			bs = append(bs, b)
		}
	}
	var wg sync.WaitGroup
	sem := make(chan bool, c.workers)
	for _, b := range bs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			o := spawn(batchLimit, c.args(b)...)
			<-sem
			c.mu.Lock()
			defer c.mu.Unlock()
			if o.res == nil {
				return
			}
			n++
			if o.res.Digest() != c.results[b].res.Digest() {
				mism++
				fmt.Fprintf(os.Stderr, "%s: batch %d is not repeatable\n", c.prop.ID, b)
			}
		}()
	}
	wg.Wait()
	return
}

func (c *check) write(re, mism, nviol int, replay string) {
	var steps, switches, preempts uint64
	var simt float64
	runs, tasks := 0, 0
	distinct := map[uint64]bool{}
	all := map[uint64]bool{}
	fired := map[string]int{}
	count := map[string]int{}
	pol := map[string]int{}
	killed := 0
	var samples []string
	var keys []int
	for b := range c.results {
		keys = append(keys, b)
	}
	sort.Ints(keys)
	for _, b := range keys {
		o := c.results[b]
		if o.res == nil {
			continue
		}
		for i, r := range o.res.Runs {
			runs++
			steps += r.Steps
			switches += r.Switches
			preempts += r.Preempts
			tasks += r.Tasks
			simt += r.SimTime
			pol[r.Policy]++
			if r.Killed {
				killed++
			}
			k := r.Digest
			all[k] = true
			if !r.Trivial {
				distinct[k] = true
			}
			_ = i
			for f, n := range r.Fired {
				fired[f] += n
			}
		}
		for k, n := range o.res.Count {
			count[k] += n
		}
		if o.res.Sample != "" && len(samples) < 3 {
			samples = append(samples, fmt.Sprintf("batch %d: %s", b, o.res.Sample))
		}
	}
	wall := time.Since(c.start).Seconds()
	cov := map[string]any{
		"evaluations":               runs,
		"distinct_nontrivial":       len(distinct),
		"distinct_histories":        len(all),
		"rule":                      c.prop.Rule + "; distinct: different history digest (schedule hash, results, bytes, final file system)",
		"samples":                   samples,
		"batches":                   len(c.results),
		"batches_planned":           c.batches,
		"simulated_runs":            runs,
		"seeds_per_hour":            int(float64(runs) / wall * 3600),
		"scheduling_steps":          steps,
		"task_switches":             switches,
		"preemptions":               preempts,
		"tasks_created":             tasks,
		"simulated_seconds":         simt,
		"schedule_policies":         pol,
		"faults_fired":              fired,
		"processes_killed":          killed,
		"probes":                    count,
		"real_components":           c.prop.Real,
		"stubbed_components":        c.prop.Stub,
		"batches_rerun":             re,
		"batches_rerun_differently": mism,
		"stopped_early":             c.cut,
		"interleaving_measure":      "a run's history digest covers the hash of its sequence of task switches with their positions",
	}
	if replay != "" {
		cov["replay"] = replay
	}
	if len(c.known) > 0 {
		cov["known_findings"] = c.known
	}
	ev := map[string]any{
		"property": c.prop.ID, "tier": c.tier, "seed": int64(c.seed), "level": "exploration",
		"coverage": cov, "wall_s": wall, "violations": nviol,
		"assumptions": []string{
			"sequentially consistent interleavings at statement granularity (the race check covers the memory model)",
			"seeded search: a clean run is evidence, not proof",
			"the simulated packages behave as the real ones in what the program uses of them",
		},
	}
	dir := filepath.Join(c.verif, "evidence")
	os.MkdirAll(dir, 0755)
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(filepath.Join(dir, c.prop.ID+".json"), append(b, '\n'), 0644); err != nil {
		die("%v", err)
	}
}

// digests prints the digests of a range of batches, for determinism tests.
func digests(prop string, seed uint64, tier string, from, to, workers int) {
	c := &check{prop: core.ByID(prop), tier: tier, seed: seed}
	out := make([]string, to-from)
	var wg sync.WaitGroup
	sem := make(chan bool, workers)
	for b := from; b < to; b++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			o := spawn(batchLimit, c.args(b)...)
			<-sem
			if o.res == nil {
				out[b-from] = fmt.Sprint(b, " ", o.fault, o.crash)
				return
			}
			out[b-from] = fmt.Sprint(b, " ", o.res.Digest(), " ", len(o.res.Runs), " ", len(o.res.Viols))
		}()
	}
	wg.Wait()
	fmt.Println(strings.Join(out, "\n"))
}
