// Package sim is a deterministic scheduler for instrumented Go code.
//
// Every goroutine of the program under test is a task. Exactly one task runs at
// any moment; which one is decided here, from one seed. Instrumented code calls
// Y before every statement, and all blocking operations (channels, sync, timers,
// simulated I/O) go through this package, so a run is a pure function of its seed
// (or of an explicit list of deviations recorded by an earlier run).
//
// In race builds the scheduler hides its own hand-over from the race detector:
// only the synchronisation the program performs itself orders its memory accesses.
package sim

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"unsafe"
)

const (
	maxTasks = 1 << 14
	maxDevs  = 1 << 16
	never    = ^uint64(0)

	maxGroups = 1000
)

type taskState uint8

const (
	stRunnable taskState = iota
	stBlocked
	stDone
	stDead   // killed with its process
	stUnborn // the arguments of its go statement are being evaluated
)

// Task is one simulated goroutine.
type Task struct {
	ID       int
	Name     string
	Site     uint32
	Group    int // simulated process
	Client   bool
	daemon   bool
	state    taskState
	wait     string
	obj      unsafe.Pointer
	pollable bool
	ch       chan struct{}
	acc      uint64 // statements executed before the current slice
	inAt     uint64 // global step at which the current slice began
	prio     uint32
	devNext  int
	lastSite uint32
	wakeAt   int64              // simulated time, for sleepers
	sel      [16]unsafe.Pointer // channels the select it is blocked in receives from
	nSel     int
	syncv    uint64
}

// Dev is one scheduling decision that differs from the default rule.
type Dev struct {
	T int    `json:"t"` // task which loses the processor (-1: none)
	L uint64 `json:"l"` // its local statement count
	N int    `json:"n"` // task which gets it
}

// Config of a run.
type Config struct {
	Seed     uint64
	Policy   string // seq, rand, quantum, pct, hot, fine, explicit
	Param    uint64 // policy parameter
	MaxSteps uint64
	Devs     []Dev
	KillAt   uint64 // group 1 is killed at that global step (0: never)
}

// Failure of the simulated world itself.
type Failure struct {
	Kind  string // panic, deadlock, steps, exit
	Msg   string
	Stack string
}

// Result of a run.
type Result struct {
	Steps    uint64
	Switches uint64
	Preempts uint64
	Hash     uint64
	Tasks    int
	Failure  *Failure
	Leaked   []string
	Devs     []Dev
	DevsLost bool
	Killed   bool
	SimTime  int64
}

var (
	active     bool
	steps      uint64
	nextSwitch uint64 = never
	hotOn      bool
	hotBits    [1 << 16]bool
	lastSite   uint32

	cfg      Config
	rng      uint64
	rng2     uint64
	cur      *Task
	tasks    [maxTasks]*Task
	nTasks   int
	live     int
	hash     uint64
	switches uint64
	preempts uint64
	devs     [maxDevs]Dev
	nDevs    int
	devsLost bool
	failure  *Failure
	killed   bool
	doneCh   chan struct{}
	runnable [maxTasks]int32
	inDevs   []Dev
	clock    int64
	pctLow   uint32
	pctPts   [16]uint64
	nPct     int
	group    int
	bigSlice uint64
	// Sites is the number of instrumented sites, set by the harness.
	Sites int
	// OnSwitch is nil or called... (kept out: no callbacks in scheduler code)
)

// ---- PRNG (splitmix64), usable without allocation ----

//go:norace
func rnd() uint64 {
	rng += 0x9e3779b97f4a7c15
	z := rng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Rand draws from the run's second PRNG (for simulated facilities such as map
// order); it is separate, so that replaying a recorded schedule repeats it.
//
//go:norace
func Rand() uint64 {
	rng2 += 0x9e3779b97f4a7c15
	z := rng2
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:norace
func rndn(n uint64) uint64 {
	if n == 0 {
		return 0
	}
	return rnd() % n
}

//go:norace
func logUniform(loBits, hiBits uint64) uint64 {
	b := loBits + rndn(hiBits-loBits+1)
	return (uint64(1) << b) + rndn(uint64(1)<<b)
}

//go:norace
func mix(v uint64) {
	hash ^= v
	hash *= 0x100000001b3
	hash ^= hash >> 29
}

// ---- entry points of instrumented code ----

// Y is called before every statement of instrumented code.
//
//go:norace
func Y(site uint32) {
	steps++
	lastSite = site
	if steps >= nextSwitch || (hotOn && hotBits[site&0xffff]) {
		slow(site)
	}
}

//go:norace
func slow(site uint32) {
	if !active {
		return
	}
	if cfg.KillAt != 0 && !killed && steps >= cfg.KillAt {
		doKill()
	}
	if steps >= cfg.MaxSteps {
		fail("steps", "no end after "+utoa(steps)+" steps; "+describe(), "")
	}
	preemptPoint(site)
}

// Point is a cooperative scheduling point (simulated I/O, locks, channels).
//
//go:norace
func Point() {
	if !active {
		return
	}
	steps++
	if cfg.Policy == "rand" || cfg.Policy == "hot" || cfg.Policy == "pct" {
		if steps < nextSwitch && nextSwitch > steps {
			// an extra chance to switch at operations
			if cfg.Policy == "rand" && rndn(3) == 0 {
				switchAtPreempt(pickRandomOther())
				return
			}
		}
	}
	if steps >= nextSwitch {
		slow(lastSite)
	}
}

//go:norace
func preemptPoint(site uint32) {
	switch cfg.Policy {
	case "explicit":
		t := cur
		l := t.acc + (steps - t.inAt)
		for t.devNext < len(inDevs) {
			d := &inDevs[t.devNext]
			if d.T != t.ID {
				t.devNext++
				continue
			}
			if d.L > l {
				break
			}
			t.devNext++
			if n := taskByID(d.N); n != nil && n.state == stRunnable && n != t {
				switchAtPreempt(n)
				return
			}
		}
		armExplicit()
		fair()
	case "quantum", "fine":
		n := pickRandomOther()
		arm()
		if n != nil {
			switchAtPreempt(n)
		}
	case "hot":
		if hotBits[site&0xffff] && rndn(cfg.Param+1) == 0 {
			if n := pickRandomOther(); n != nil {
				switchAtPreempt(n)
				return
			}
		}
		if steps >= nextSwitch {
			arm()
			fair()
		}
	case "pct":
		if nPct > 0 && steps >= pctPts[nPct-1] {
			nPct--
			pctLow--
			cur.prio = pctLow
		}
		arm()
		if n := highest(); n != nil && n != cur {
			switchAtPreempt(n)
		}
	default:
		arm()
		fair()
	}
}

// fair hands over when one task runs for very long while others could run: a
// task spinning on an atomic must not be taken for a livelock.
//
//go:norace
func fair() {
	if steps-cur.inAt >= bigSlice {
		if n := nextCyclic(); n != nil {
			switchAtPreempt(n)
		} else {
			cur.acc += steps - cur.inAt
			cur.inAt = steps
		}
	}
}

//go:norace
func nextCyclic() *Task {
	for k := 1; k < nTasks; k++ {
		n := tasks[(cur.ID+k)%nTasks]
		if n.state == stRunnable && n != cur {
			return n
		}
	}
	return nil
}

//go:norace
func arm() {
	nextSwitch = steps + bigSlice
	switch cfg.Policy {
	case "quantum":
		nextSwitch = steps + logUniform(0, cfg.Param)
	case "fine":
		if preempts < 20000 {
			nextSwitch = steps + 1 + rndn(cfg.Param)
		}
	case "pct":
		if nPct > 0 {
			nextSwitch = pctPts[nPct-1]
			if nextSwitch <= steps {
				nextSwitch = steps + 1
			}
		}
	}
	if nextSwitch > cfg.MaxSteps {
		nextSwitch = cfg.MaxSteps
	}
	if cfg.KillAt > steps && nextSwitch > cfg.KillAt && !killed {
		nextSwitch = cfg.KillAt
	}
}

//go:norace
func armExplicit() {
	t := cur
	nextSwitch = steps + bigSlice
	l := t.acc + (steps - t.inAt)
	for i := t.devNext; i < len(inDevs); i++ {
		if inDevs[i].T == t.ID {
			if inDevs[i].L <= l {
				nextSwitch = steps + 1
			} else {
				nextSwitch = steps + (inDevs[i].L - l)
			}
			break
		}
	}
	if nextSwitch > cfg.MaxSteps {
		nextSwitch = cfg.MaxSteps
	}
	if cfg.KillAt > steps && nextSwitch > cfg.KillAt && !killed {
		nextSwitch = cfg.KillAt
	}
}

//go:norace
func taskByID(id int) *Task {
	if id < 0 || id >= nTasks {
		return nil
	}
	return tasks[id]
}

//go:norace
func highest() *Task {
	var best *Task
	for i := 0; i < nTasks; i++ {
		t := tasks[i]
		if t.state == stRunnable && (best == nil || t.prio > best.prio) {
			best = t
		}
	}
	return best
}

//go:norace
func pickRandomOther() *Task {
	n := 0
	for i := 0; i < nTasks; i++ {
		if t := tasks[i]; t.state == stRunnable && t != cur {
			runnable[n] = int32(i)
			n++
		}
	}
	if n == 0 {
		return nil
	}
	return tasks[runnable[rndn(uint64(n))]]
}

// pickForced chooses who runs when the current task cannot. The default rule is
// the lowest task number.
//
//go:norace
func pickForced() (n, def *Task) {
	cnt := 0
	for i := 0; i < nTasks; i++ {
		if t := tasks[i]; t.state == stRunnable && t != cur {
			if def == nil {
				def = t
			}
			runnable[cnt] = int32(i)
			cnt++
		}
	}
	if def == nil {
		return nil, nil
	}
	switch cfg.Policy {
	case "seq":
		return def, def
	case "explicit":
		t := cur
		l := t.acc + (steps - t.inAt)
		for i := t.devNext; i < len(inDevs); i++ {
			if inDevs[i].T == t.ID {
				if inDevs[i].L == l {
					t.devNext = i + 1
					if x := taskByID(inDevs[i].N); x != nil && x.state == stRunnable && x != t {
						return x, def
					}
				}
				break
			}
		}
		return def, def
	case "pct":
		var best *Task
		for i := 0; i < cnt; i++ {
			if x := tasks[runnable[i]]; best == nil || x.prio > best.prio {
				best = x
			}
		}
		return best, def
	default:
		return tasks[runnable[rndn(uint64(cnt))]], def
	}
}

//go:norace
func record(n int) {
	if nDevs >= maxDevs {
		devsLost = true
		return
	}
	devs[nDevs] = Dev{T: cur.ID, L: cur.acc + (steps - cur.inAt), N: n}
	nDevs++
}

//go:norace
func switchAtPreempt(n *Task) {
	if n == nil || n == cur {
		return
	}
	record(n.ID)
	preempts++
	switchTo(n)
}

// switchTo hands the processor over and waits to get it back.
//
//go:norace
func switchTo(n *Task) {
	me := cur
	me.lastSite = lastSite
	me.acc += steps - me.inAt
	handOver(n)
	if !raceParked(me) {
		return
	}
}

//go:norace
func handOver(n *Task) {
	switches++
	mix(uint64(n.ID)<<32 | uint64(lastSite)<<1 | 1)
	cur = n
	n.inAt = steps
	group = n.Group
	if cfg.Policy == "explicit" {
		armExplicit()
	} else {
		arm()
	}
	raceOff()
	n.ch <- struct{}{}
	raceOn()
}

//go:norace
func raceParked(me *Task) bool {
	raceOff()
	<-me.ch
	raceOn()
	return true
}

//go:norace
func parkForever() {
	raceOff()
	select {}
}

// blockCur gives up the processor until some other task makes the current one
// runnable again.
//
//go:norace
func blockCur(wait string, obj unsafe.Pointer, pollable bool) {
	if !active {
		panic("verifsim: blocking operation outside a simulated run: " + wait)
	}
	steps++
	me := cur
	me.state = stBlocked
	me.wait = wait
	me.obj = obj
	me.pollable = pollable
	me.lastSite = lastSite
	yieldProcessor(me)
	raceParked(me)
	me.wait = ""
	me.obj = nil
}

// yieldProcessor picks the next task after me cannot go on. It returns only
// after handing over; when nothing can run the world is stuck.
//
//go:norace
func yieldProcessor(me *Task) {
	for {
		n, def := pickForced()
		if n == nil {
			if me.state == stRunnable { // woken by a timer or poll: run on
				n, def = me, me
			} else if live == 0 {
				finish()
				return
			} else if onlyDaemons() {
				finish()
				parkForever()
			} else if wakePolled() || wakeTimers() {
				continue
			} else {
				stuck()
			}
		}
		if n != def {
			record(n.ID)
		}
		me.acc += steps - me.inAt
		handOver(n)
		return
	}
}

var (
	progress uint64 // counts wake-ups and completed channel operations
	polledAt uint64
)

//go:norace
func onlyDaemons() bool {
	for i := 0; i < nTasks; i++ {
		if t := tasks[i]; !t.daemon && (t.state == stRunnable || t.state == stBlocked) {
			return false
		}
	}
	return true
}

// wakePolled lets tasks blocked on channels look again, once, before the world
// is declared stuck: code outside the simulator may have acted on the channel.
//
//go:norace
func wakePolled() bool {
	if polledAt == progress+1 {
		return false
	}
	polledAt = progress + 1
	any := false
	for i := 0; i < nTasks; i++ {
		if t := tasks[i]; t.state == stBlocked && t.pollable && t.Group >= 0 {
			t.state = stRunnable
			any = true
		}
	}
	return any
}

//go:norace
func stuck() {
	// Only non-client tasks left blocked: the program leaked them.
	clients := 0
	for i := 0; i < nTasks; i++ {
		if t := tasks[i]; t.state == stBlocked && t.Client && !t.daemon {
			clients++
		}
	}
	if clients == 0 {
		finish()
		parkForever()
	}
	fail("deadlock", "no task can run: "+describe(), "")
}

//go:norace
func finish() {
	active = false
	nextSwitch = never
	hotOn = false
	raceOff()
	close(doneCh)
	raceOn()
}

//go:norace
func fail(kind, msg, stack string) {
	if failure == nil {
		failure = &Failure{Kind: kind, Msg: msg, Stack: stack}
	}
	finish()
	parkForever()
}

// Abort ends the run with a failure found by the harness.
func Abort(kind, msg string) { fail(kind, msg, "") }

//go:norace
func describe() string {
	var b strings.Builder
	n := 0
	for i := 0; i < nTasks && n < 12; i++ {
		t := tasks[i]
		if t.state == stRunnable || t.state == stBlocked {
			st := "runnable"
			if t.state == stBlocked {
				st = "blocked on " + t.wait
			}
			s := t.lastSite
			if t == cur {
				s = lastSite
			}
			fmt.Fprintf(&b, "[task %d %s %s at %s]", t.ID, t.Name, st, SiteName(s))
			n++
		}
	}
	return b.String()
}

// SiteNames maps sites to source positions; set by generated code.
var SiteNames func(uint32) string

// SiteName describes a site.
func SiteName(s uint32) string {
	if SiteNames == nil {
		return "site " + utoa(uint64(s))
	}
	return SiteNames(s)
}

func utoa(v uint64) string { return fmt.Sprint(v) }

// ---- tasks ----

//go:norace
func newTask(name string, site uint32, client bool) *Task {
	if nTasks >= maxTasks {
		fail("steps", "more than 16384 tasks created", "")
	}
	t := new(Task)
	t.ID = nTasks
	t.Name = name
	t.Site = site
	t.Client = client
	t.Group = group
	t.ch = make(chan struct{}, 1)
	if cfg.Policy == "pct" {
		t.prio = uint32(1<<20 + rndn(1<<20))
	}
	tasks[nTasks] = t
	nTasks++
	live++
	return t
}

// NewTask registers the goroutine an instrumented go statement is about to start.
//
//go:norace
func NewTask(site uint32) *Task {
	if !active {
		return nil
	}
	t := newTask("go", site, false)
	mix(uint64(t.ID)<<8 | 7)
	return t
}

// Spawn is NewTask for a go statement whose callee and arguments are still to be
// evaluated: the task cannot be chosen before Launch.
//
//go:norace
func Spawn(site uint32) *Task {
	t := NewTask(site)
	if t != nil {
		t.state = stUnborn
		live--
	}
	return t
}

// Launch makes a task of Spawn runnable.
//
//go:norace
func Launch(t *Task) {
	if t != nil && t.state == stUnborn {
		t.state = stRunnable
		live++
	}
}

// Begin is the first thing a started goroutine does.
//
//go:norace
func Begin(t *Task) {
	if t == nil {
		return
	}
	raceParked(t)
}

// End is deferred by a started goroutine.
//
//go:norace
func End(t *Task) {
	r := recover()
	if t == nil {
		if r != nil {
			panic(r)
		}
		return
	}
	if r != nil {
		fail("panic", fmt.Sprint(r), string(debug.Stack()))
	}
	endTask(t)
}

//go:norace
func endTask(t *Task) {
	if t.Client {
		RaceReleaseMerge(unsafe.Pointer(&t.syncv))
	}
	steps++
	t.state = stDone
	live--
	wakeObj(unsafe.Pointer(t))
	mix(uint64(t.ID)<<8 | 3)
	if live == 0 {
		finish()
		return
	}
	yieldProcessor(t)
}

var exitCodes [maxTasks]int

// Exit ends the running simulated process: no deferred function runs.
//
//go:norace
func Exit(code int) {
	if cur.Group == 0 {
		fail("exit", "process exit with status "+fmt.Sprint(code)+" in a library call", "")
	}
	exitCodes[cur.Group] = code + 1
	KillGroup(cur.Group)
}

// ExitCode returns the status process g exited with, if it called exit.
//
//go:norace
func ExitCode(g int) (int, bool) { return exitCodes[g] - 1, exitCodes[g] != 0 }

// Go starts a harness task; it takes part in scheduling like any other.
func Go(name string, fn func()) *Task {
	t := newTask(name, 0, true)
	go func() {
		Begin(t)
		defer End(t)
		fn()
	}()
	return t
}

// Join waits for a harness task.
//
//go:norace
func Join(t *Task) {
	for t.state != stDone && t.state != stDead {
		blockCur("join", unsafe.Pointer(t), false)
	}
	RaceAcquire(unsafe.Pointer(&t.syncv))
}

// Dead reports whether t was killed with its process.
//
//go:norace
func Dead(t *Task) bool { return t.state == stDead }

//go:norace
func wakeObj(p unsafe.Pointer) {
	progress++
	for i := 0; i < nTasks; i++ {
		if t := tasks[i]; t.state == stBlocked && t.obj == p {
			t.state = stRunnable
		}
	}
}

// Block parks the current task on obj until Wake(obj).
//
//go:norace
func Block(wait string, obj unsafe.Pointer) { blockCur(wait, obj, false) }

// Wake makes all tasks blocked on obj runnable.
//
//go:norace
func Wake(obj unsafe.Pointer) {
	if active {
		wakeObj(obj)
	}
}

// Active reports whether a simulated run is in progress.
//
//go:norace
func Active() bool { return active }

// Steps is the current logical time.
//
//go:norace
func Steps() uint64 { return steps }

// CurID is the number of the running task.
//
//go:norace
func CurID() int {
	if cur == nil {
		return -1
	}
	return cur.ID
}

// SetGroup moves the running task (and what it starts) to a simulated process.
//
//go:norace
func SetGroup(g int) {
	group = g
	cur.Group = g
}

// LiveTasks counts tasks that have not ended, other than harness tasks.
//
//go:norace
func LiveTasks() int {
	n := 0
	for i := 0; i < nTasks; i++ {
		if t := tasks[i]; !t.Client && (t.state == stRunnable || t.state == stBlocked) && t.Group == group {
			n++
		}
	}
	return n
}

// TasksCreated counts all tasks so far.
//
//go:norace
func TasksCreated() int { return nTasks }

// KillGroup ends simulated process g at once: none of its tasks runs again.
//
//go:norace
func KillGroup(g int) {
	if !active {
		return
	}
	killGroup(g)
	if cur.state == stDead {
		me := cur
		if live == 0 {
			finish()
			parkForever()
		}
		yieldProcessor(me)
		parkForever()
	}
}

//go:norace
func killGroup(g int) {
	for i := 0; i < nTasks; i++ {
		t := tasks[i]
		if t.Group == g && (t.state == stRunnable || t.state == stBlocked) {
			t.state = stDead
			live--
			wakeObj(unsafe.Pointer(t))
		}
	}
}

//go:norace
func doKill() {
	killed = true
	KillGroup(1)
}

// ---- simulated time ----

// Now is the simulated clock in nanoseconds: it advances by one nanosecond per
// step and jumps when everybody sleeps.
//
//go:norace
func Now() int64 { return clock + int64(steps) }

// SleepUntil blocks until the simulated clock reaches t.
//
//go:norace
func SleepUntil(at int64) {
	if !active {
		return
	}
	if at <= Now() {
		Point()
		return
	}
	cur.wakeAt = at
	blockCur("sleep", unsafe.Pointer(&cur.wakeAt), false)
}

//go:norace
func wakeTimers() bool {
	var best *Task
	for i := 0; i < nTasks; i++ {
		if t := tasks[i]; t.state == stBlocked && t.wakeAt != 0 && (best == nil || t.wakeAt < best.wakeAt) {
			best = t
		}
	}
	if best == nil {
		return false
	}
	if d := best.wakeAt - Now(); d > 0 {
		clock += d
	}
	best.wakeAt = 0
	best.state = stRunnable
	return true
}

// ---- running ----

// Run executes main as task 0 under cfg.
func Run(c Config, main func()) Result {
	if active {
		panic("verifsim: nested run")
	}
	cfg = c
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 400e6
	}
	rng = c.Seed ^ 0x6a09e667f3bcc909
	rng2 = c.Seed ^ 0xbb67ae8584caa73b
	steps, switches, preempts, nDevs, nTasks, live = 0, 0, 0, 0, 0, 0
	devsLost, killed, failure, clock, polledAt, progress = false, false, nil, 0, 0, 0
	for i := range offers {
		if offers[i] == nil {
			break
		}
		offers[i] = nil
	}
	for i := 0; i < nClosed; i++ {
		closed[i] = nil
	}
	nOffers, nClosed = 0, 0
	for i := range exitCodes {
		if i > maxGroups {
			break
		}
		exitCodes[i] = 0
	}
	hash = 0xcbf29ce484222325
	inDevs = c.Devs
	group = 0
	bigSlice = 20e6
	for i := range tasks {
		if tasks[i] == nil {
			break
		}
		tasks[i] = nil
	}
	hotOn = false
	switch c.Policy {
	case "hot":
		for i := range hotBits {
			hotBits[i] = false
		}
		n := 1 + rndn(4)
		for i := uint64(0); i < n && Sites > 0; i++ {
			hotBits[uint32(rndn(uint64(Sites)))&0xffff] = true
		}
		hotOn = true
	case "pct":
		d := int(1 + rndn(6))
		nPct = d
		hi := 8 + rndn(15)
		for i := 0; i < d; i++ {
			pctPts[i] = 1 + rndn(uint64(1)<<hi)
		}
		// descending, the last one is the earliest
		for i := 0; i < d; i++ {
			for j := i + 1; j < d; j++ {
				if pctPts[j] > pctPts[i] {
					pctPts[i], pctPts[j] = pctPts[j], pctPts[i]
				}
			}
		}
		pctLow = 1 << 19
	}
	if c.Policy == "" {
		cfg.Policy = "seq"
	}
	doneCh = make(chan struct{})
	t := newTask("main", 0, true)
	cur = t
	active = true
	if cfg.Policy == "explicit" {
		armExplicit()
	} else {
		arm()
	}
	t.inAt = 0
	go func() {
		Begin(t)
		defer End(t)
		main()
	}()
	t.ch <- struct{}{}
	<-doneCh
	for i := 0; i < nTasks; i++ {
		if tasks[i].Client {
			RaceAcquire(unsafe.Pointer(&tasks[i].syncv))
		}
	}
	res := Result{Steps: steps, Switches: switches, Preempts: preempts, Hash: hash, Tasks: nTasks,
		Failure: failure, DevsLost: devsLost, Killed: killed, SimTime: Now()}
	mix(steps)
	res.Hash = hash
	res.Devs = append([]Dev(nil), devs[:nDevs]...)
	for i := 0; i < nTasks; i++ {
		if t := tasks[i]; t.state == stBlocked && failure == nil && !t.daemon {
			res.Leaked = append(res.Leaked, fmt.Sprintf("task %d started at %s blocked on %s at %s", t.ID, SiteName(t.Site), t.wait, SiteName(t.lastSite)))
		}
	}
	cur = nil
	return res
}

var freshFns []func()

// OnFresh registers a function which initialises the package variables of one
// package of the program again. Packages register in initialisation order.
func OnFresh(f func()) { freshFns = append(freshFns, f) }

// Fresh puts the package variables of the program into the state they have in a
// process which has just started.
func Fresh() {
	if !active {
		panic("verifsim: no run")
	}
	// positions of the schedule and of the kill count from the end of the start
	kill, n := cfg.KillAt, nPct
	cfg.KillAt, nPct = 0, 0
	if cfg.Policy != "explicit" {
		nextSwitch = cfg.MaxSteps
	}
	for _, f := range freshFns {
		f()
	}
	nPct = n
	for i := 0; i < nPct; i++ {
		pctPts[i] += steps
	}
	if kill != 0 {
		cfg.KillAt = kill + steps
	}
	if cfg.Policy == "explicit" {
		armExplicit()
	} else {
		arm()
	}
}


func init() {
	runtime.GOMAXPROCS(1)
	_ = os.Args
}

// Gosched lets another task run.
//
//go:norace
func Gosched() {
	if !active {
		return
	}
	steps++
	if cfg.Policy == "explicit" {
		if steps >= nextSwitch {
			slow(lastSite)
		}
		return
	}
	if n := pickRandomOther(); n != nil {
		switchAtPreempt(n)
	}
}

// Daemon marks a task whose being blocked at the end is no leak (timers).
//
//go:norace
func Daemon(t *Task) {
	if t != nil {
		t.daemon = true
	}
}

// WakeChans lets every task blocked on a channel look again.
//
//go:norace
func WakeChans() {
	progress++
	for i := 0; i < nTasks; i++ {
		if t := tasks[i]; t.state == stBlocked && t.pollable {
			t.state = stRunnable
		}
	}
}

// CurGroup is the simulated process of the running task.
//
//go:norace
func CurGroup() int { return cur.Group }
