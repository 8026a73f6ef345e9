package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"time"

	"verifharness/core"
)

type mini struct {
	c        *check
	class    string
	dir      string
	n        int
	deadline time.Time
	best     *core.Plan
	limit    time.Duration
}

func clonePlan(p *core.Plan) *core.Plan {
	b, err := json.Marshal(p)
	if err != nil {
		die("%v", err)
	}
	q := &core.Plan{}
	if err := json.Unmarshal(b, q); err != nil {
		die("%v", err)
	}
	return q
}

func (m *mini) eval(p *core.Plan, devs bool) *outcome {
	f, err := os.CreateTemp(m.dir, "plan")
	if err != nil {
		die("%v", err)
	}
	emit(f, p)
	f.Close()
	defer os.Remove(f.Name())
	args := []string{"plan", fmt.Sprintf("-devs=%v", devs), f.Name()}
	return spawn(m.limit, args...)
}

func (m *mini) matches(o *outcome) *core.FoundViol {
	vs := m.c.unlistedQuiet(o.viols())
	for i := range vs {
		if vs[i].Class == m.class {
			return &vs[i]
		}
	}
	return nil
}

func (c *check) unlistedQuiet(vs []core.FoundViol) []core.FoundViol {
	c.mu.Lock()
	defer c.mu.Unlock()
	save := c.known
	c.known = map[string]int{}
	defer func() { c.known = save }()
	return c.unlisted(vs)
}

func (m *mini) over() bool { return time.Now().After(m.deadline) }

// first tries candidates, several at a time, and adopts the first that still
// shows the violation.
func (m *mini) first(cands []*core.Plan) int {
	for i := 0; i < len(cands) && !m.over(); i += m.c.workers {
		j := min(i+m.c.workers, len(cands))
		ok := make([]bool, j-i)
		var wg sync.WaitGroup
		for k := i; k < j; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				ok[k-i] = m.matches(m.eval(cands[k], false)) != nil
			}()
		}
		wg.Wait()
		m.n += j - i
		for k := i; k < j; k++ {
			if ok[k-i] {
				m.best = cands[k]
				return k
			}
		}
	}
	return -1
}

// shrinkList removes chunks of a list as long as the violation stays.
func (m *mini) shrinkList(length func(p *core.Plan) int, remove func(p *core.Plan, from, to int)) {
	size := length(m.best)
	for size > 0 && !m.over() {
		n := length(m.best)
		var cands []*core.Plan
		for from := 0; from < n; from += size {
			p := clonePlan(m.best)
			remove(p, from, min(from+size, n))
			cands = append(cands, p)
		}
		if m.first(cands) < 0 {
			size /= 2
		} else if size > length(m.best) {
			size = length(m.best)
		}
	}
}

func cut[T any](s []T, from, to int) []T { return append(append([]T{}, s[:from]...), s[to:]...) }

func (m *mini) run() {
	// whole runs
	m.shrinkList(func(p *core.Plan) int { return len(p.Runs) }, func(p *core.Plan, a, b int) { p.Runs = cut(p.Runs, a, b) })
	for pass := 0; pass < 2 && !m.over(); pass++ {
		before, _ := json.Marshal(m.best)
		for i := len(m.best.Runs) - 1; i >= 0 && !m.over(); i-- {
			if len(m.best.Runs[i].Clients) > 1 {
				m.shrinkList(func(p *core.Plan) int { return len(p.Runs[i].Clients) }, func(p *core.Plan, a, b int) { p.Runs[i].Clients = cut(p.Runs[i].Clients, a, b) })
			}
			for c := range m.best.Runs[i].Clients {
				m.shrinkList(func(p *core.Plan) int { return len(p.Runs[i].Clients[c]) }, func(p *core.Plan, a, b int) {
					p.Runs[i].Clients[c] = cut(p.Runs[i].Clients[c], a, b)
				})
			}
			m.shrinkList(func(p *core.Plan) int { return len(p.Runs[i].Setup) }, func(p *core.Plan, a, b int) { p.Runs[i].Setup = cut(p.Runs[i].Setup, a, b) })
			m.shrinkList(func(p *core.Plan) int { return len(p.Runs[i].Final) }, func(p *core.Plan, a, b int) { p.Runs[i].Final = cut(p.Runs[i].Final, a, b) })
			m.shrinkList(func(p *core.Plan) int { return len(p.Runs[i].Faults) }, func(p *core.Plan, a, b int) { p.Runs[i].Faults = cut(p.Runs[i].Faults, a, b) })
			m.try(func(p *core.Plan) bool {
				ch := p.Runs[i].Sched.Policy != "seq"
				p.Runs[i].Sched.Policy, p.Runs[i].Sched.Param = "seq", 0
				return ch
			}, func(p *core.Plan) bool { ch := p.Runs[i].CPUs != 0; p.Runs[i].CPUs = 0; return ch })
			m.shrinkOps(i)
		}
		after, _ := json.Marshal(m.best)
		if string(before) == string(after) {
			break
		}
	}
	m.explicit()
}

func (m *mini) try(fs ...func(p *core.Plan) bool) {
	for _, f := range fs {
		if m.over() {
			return
		}
		p := clonePlan(m.best)
		if f(p) {
			m.first([]*core.Plan{p})
		}
	}
}

func allOps(r *core.Run) []*core.Op {
	out := append([]*core.Op{}, r.Setup...)
	for _, c := range r.Clients {
		out = append(out, c...)
	}
	return append(out, r.Final...)
}

func (m *mini) shrinkOps(i int) {
	for k := range allOps(m.best.Runs[i]) {
		if m.over() {
			return
		}
		op := allOps(m.best.Runs[i])[k]
		if op.Req != nil {
			m.shrinkList(func(p *core.Plan) int { return len(allOps(p.Runs[i])[k].Req.Opts) }, func(p *core.Plan, a, b int) {
				r := allOps(p.Runs[i])[k].Req
				r.Opts = cut(r.Opts, a, b)
			})
			for n := 0; n < 14 && len(allOps(m.best.Runs[i])[k].Req.Text) > 1; n++ {
				t := len(allOps(m.best.Runs[i])[k].Req.Text)
				var cands []*core.Plan
				for _, to := range []int{t / 4, t / 2, t - t/4, t - 1} {
					if to < t && to >= 0 {
						p := clonePlan(m.best)
						r := allOps(p.Runs[i])[k].Req
						r.Text = r.Text[:to]
						cands = append(cands, p)
					}
				}
				if m.first(cands) < 0 {
					break
				}
			}
		}
		if op.Wr != nil {
			m.shrinkList(func(p *core.Plan) int { return len(allOps(p.Runs[i])[k].Wr.Opts) }, func(p *core.Plan, a, b int) {
				w := allOps(p.Runs[i])[k].Wr
				w.Opts = cut(w.Opts, a, b)
			})
		}
		if len(op.Args) > 1 {
			m.shrinkList(func(p *core.Plan) int { return len(allOps(p.Runs[i])[k].Args) }, func(p *core.Plan, a, b int) {
				o := allOps(p.Runs[i])[k]
				o.Args = cut(o.Args, a, b)
			})
		}
	}
}

// explicit turns the schedules into lists of deviations from the default order
// and minimises those.
func (m *mini) explicit() {
	o := m.eval(m.best, true)
	if m.matches(o) == nil || o.res == nil {
		return
	}
	p := clonePlan(m.best)
	for i := range o.res.Runs {
		if i < len(p.Runs) && !o.res.Runs[i].DevsLost && len(o.res.Runs[i].Devs) < 20000 {
			s := &p.Runs[i].Sched
			s.Policy, s.Param, s.Devs = "explicit", 0, o.res.Runs[i].Devs
		}
	}
	if m.first([]*core.Plan{p}) < 0 {
		return
	}
	for i := len(m.best.Runs) - 1; i >= 0; i-- {
		m.shrinkList(func(p *core.Plan) int { return len(p.Runs[i].Sched.Devs) }, func(p *core.Plan, a, b int) {
			p.Runs[i].Sched.Devs = cut(p.Runs[i].Sched.Devs, a, b)
		})
	}
}

// report minimises the violation of a batch, writes the replay file and
// confirms it.
func (c *check) report(b int) (string, []core.FoundViol) {
	first := c.unlistedQuiet(c.results[b].viols())
	dir, err := os.MkdirTemp("", "simrun")
	if err != nil {
		die("%v", err)
	}
	defer os.RemoveAll(dir)
	plan := core.GenPlan(c.prop.ID, c.seed, b, c.tier)
	// drop what comes after the violation
	if r := first[0].Run; r >= 0 && r+1 < len(plan.Runs) {
		plan.Runs = plan.Runs[:r+1]
	}
	m := &mini{c: c, class: first[0].Class, dir: dir, best: plan, deadline: time.Now().Add(75 * time.Second), limit: batchLimit}
	repro := false
	for i := 0; i < 4 && !repro; i++ {
		repro = m.matches(m.eval(plan, false)) != nil
	}
	if !repro {
		for _, v := range first {
			fmt.Fprintf(os.Stderr, "seen once (%s): %s\n", v.Class, v.Msg)
		}
		die("batch %d of %s showed a violation which does not happen again: something is outside the simulator's control", b, c.prop.ID)
	}
	m.limit = 60 * time.Second
	m.run()
	m.limit = batchLimit
	var o *outcome
	for i := 0; i < 4; i++ {
		o = m.eval(m.best, false)
		if m.matches(o) != nil {
			break
		}
	}
	best := m.best
	if m.matches(o) == nil { // fall back to what certainly fails
		best = plan
		o = m.eval(plan, false)
	}
	vs := c.unlistedQuiet(o.viols())
	best.Class = m.class
	best.Found = nil
	for _, v := range vs {
		best.Found = append(best.Found, v.Msg)
	}
	if o.res != nil {
		best.Hash = o.res.Digest()
	}
	best.Comment = fmt.Sprintf("found by seed %d, batch %d, tier %s; minimised with %d executions", c.seed, b, c.tier, m.n)
	rd := filepath.Join(c.verif, "replays")
	os.MkdirAll(rd, 0755)
	path := filepath.Join(rd, fmt.Sprintf("%s-seed%d-batch%d.json", c.prop.ID, c.seed, b))
	buf, _ := json.MarshalIndent(best, "", " ")
	if err := os.WriteFile(path, append(buf, '\n'), 0644); err != nil {
		die("%v", err)
	}
	if c.prop.Race && o.stderr != "" {
		fmt.Println(clip(o.stderr, 4000))
	}
	if len(vs) == 0 {
		vs = first
	}
	return path, vs
}

// replay executes a replay file.
func replay(path string) int {
	p, err := core.ReadPlan(path)
	if err != nil {
		die("%v", err)
	}
	o := spawn(batchLimit, "plan", path)
	if o.fault != "" {
		die("%s", o.fault)
	}
	vs := o.viols()
	for _, v := range vs {
		fmt.Printf("violation (%s): %s\n", v.Class, v.Msg)
	}
	if o.stderr != "" {
		fmt.Println(clip(o.stderr, 6000))
	}
	if len(vs) == 0 {
		fmt.Println("no violation")
		return 0
	}
	if o.res != nil {
		same := "the recorded history"
		if o.res.Digest() != p.Hash {
			same = "a different history than recorded (" + p.Hash + ")"
		}
		fmt.Printf("history %s: %s\n", o.res.Digest(), same)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.Prop, path)
	return 1
}
