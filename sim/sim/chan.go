package sim

import (
	"fmt"
	"sort"
	"unsafe"
)

// Channel operations. Buffered and closed channels use the real channel without
// blocking; rendezvous on unbuffered channels is emulated, since a real one
// needs both parties to be parked inside the runtime.

type offer struct {
	ch    unsafe.Pointer
	val   any
	taken bool
	task  *Task
	sync  uint64
	group *offerGroup // offers of one select
	idx   int
}

type offerGroup struct {
	taken bool
	idx   int
}

// offers of senders blocked on unbuffered channels, oldest first.
var (
	offers  [1024]*offer
	nOffers int
)

//go:norace
func addOffer(o *offer) {
	if nOffers >= len(offers) {
		fail("steps", "more than 1024 blocked senders", "")
	}
	offers[nOffers] = o
	nOffers++
}

//go:norace
func dropOffer(o *offer) {
	for i := 0; i < nOffers; i++ {
		if offers[i] == o {
			for j := i; j < nOffers-1; j++ {
				offers[j] = offers[j+1]
			}
			nOffers--
			offers[nOffers] = nil
			return
		}
	}
}

//go:norace
func findOffer(ch unsafe.Pointer) *offer {
	for i := 0; i < nOffers; i++ {
		o := offers[i]
		if o.ch == ch && !o.taken && (o.group == nil || !o.group.taken) && o.task.state != stDead && o.task != cur {
			return o
		}
	}
	return nil
}

//go:norace
func anyReceiverWaiting(ch unsafe.Pointer) bool {
	for i := 0; i < nTasks; i++ {
		t := tasks[i]
		if t.state != stBlocked || t == cur {
			continue
		}
		if t.obj == ch && t.wait == "chan receive" {
			return true
		}
		if t.wait == "select" {
			for k := 0; k < t.nSel; k++ {
				if t.sel[k] == ch {
					return true
				}
			}
		}
	}
	return false
}

func chanPtr[T any](ch chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

// SendTo performs ch <- v as SendTo(ch)(v).
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) { send(ch, v) }
}

func send[T any](ch chan<- T, v T) {
	if !Active() {
		ch <- v
		return
	}
	Point()
	p := *(*unsafe.Pointer)(unsafe.Pointer(&ch))
	if ch == nil {
		for {
			Block("send on nil channel", nil)
		}
	}
	if cap(ch) == 0 {
		rendezvousSend(ch, v, p)
		return
	}
	for {
		select {
		case ch <- v:
			Wake(p)
			wakeSelects()
			return
		default:
		}
		blockCur("chan send", p, true)
	}
}

func rendezvousSend[T any](ch chan<- T, v T, p unsafe.Pointer) {
	checkClosedSend(ch, p)
	o := &offer{ch: p, val: v, task: cur}
	RaceReleaseMerge(unsafe.Pointer(&o.sync))
	addOffer(o)
	Wake(p)
	wakeSelects()
	for !offerTaken(o) {
		blockCur("chan send", unsafe.Pointer(o), false)
		if closedSet(p) && !offerTaken(o) {
			dropOffer(o)
			panic("send on closed channel")
		}
	}
	RaceAcquire(unsafe.Pointer(&o.sync))
}

//go:norace
func offerTaken(o *offer) bool { return o.taken }

// checkClosedSend panics as the runtime does when the channel is closed.
func checkClosedSend[T any](ch chan<- T, p unsafe.Pointer) {
	if closedSet(p) {
		panic("send on closed channel")
	}
}

var (
	closed  [4096]unsafe.Pointer
	nClosed int
)

//go:norace
func closedSet(p unsafe.Pointer) bool {
	for i := 0; i < nClosed; i++ {
		if closed[i] == p {
			return true
		}
	}
	return false
}

// Recv performs <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 performs v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	if !Active() {
		v, ok := <-ch
		return v, ok
	}
	Point()
	p := *(*unsafe.Pointer)(unsafe.Pointer(&ch))
	if ch == nil {
		for {
			Block("receive on nil channel", nil)
		}
	}
	for {
		if v, ok, done := tryRecv(ch, p); done {
			return v, ok
		}
		blockCur("chan receive", p, true)
	}
}

func tryRecv[T any](ch <-chan T, p unsafe.Pointer) (v T, ok, done bool) {
	if cap(ch) == 0 {
		if o := findOffer(p); o != nil {
			RaceAcquire(unsafe.Pointer(&o.sync))
			v, _ = o.val.(T)
			takeOffer(o)
			return v, true, true
		}
	}
	select {
	case v, ok = <-ch:
		Wake(p)
		wakeSelects()
		return v, ok, true
	default:
	}
	return v, false, false
}

//go:norace
func takeOffer(o *offer) {
	o.taken = true
	if o.group != nil {
		o.group.taken = true
		o.group.idx = o.idx
	}
	RaceReleaseMerge(unsafe.Pointer(&o.sync))
	dropOffer(o)
	wakeObj(unsafe.Pointer(o))
	wakeObj(o.ch)
	wakeSelects()
}

// Close performs close(ch).
func Close[T any](ch chan<- T) {
	if Active() {
		Point()
	}
	close(ch)
	if Active() {
		p := *(*unsafe.Pointer)(unsafe.Pointer(&ch))
		noteClosed(p)
		Wake(p)
		wakeSelects()
		wakeOffers(p)
	}
}

//go:norace
func noteClosed(p unsafe.Pointer) {
	if nClosed < len(closed) {
		closed[nClosed] = p
		nClosed++
	}
}

//go:norace
func wakeOffers(p unsafe.Pointer) {
	for i := 0; i < nOffers; i++ {
		if offers[i].ch == p {
			wakeObj(unsafe.Pointer(offers[i]))
		}
	}
}

// BlockForever is select {}.
func BlockForever() {
	if !Active() {
		select {}
	}
	for {
		blockCur("select {}", nil, false)
	}
}

// ---- select ----

// SelOp is one communication of a select statement.
type SelOp interface {
	try(hasDefault bool) bool
	isNil() bool
	makeOffer() *offer
	ptr() unsafe.Pointer
}

// RecvOp receives.
type RecvOp[T any] struct {
	ch <-chan T
	v  T
	ok bool
}

// RecvCase prepares a receive case.
func RecvCase[T any](ch <-chan T) *RecvOp[T] { return &RecvOp[T]{ch: ch} }

func (r *RecvOp[T]) ptr() unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&r.ch)) }
func (r *RecvOp[T]) isNil() bool         { return r.ch == nil }
func (r *RecvOp[T]) makeOffer() *offer   { return nil }
func (r *RecvOp[T]) try(bool) bool {
	v, ok, done := tryRecv(r.ch, r.ptr())
	if done {
		r.v, r.ok = v, ok
	}
	return done
}

// Get returns the received value.
func (r *RecvOp[T]) Get() T { return r.v }

// Get2 returns the received value and whether the channel was open.
func (r *RecvOp[T]) Get2() (T, bool) { return r.v, r.ok }

// SendOp sends.
type SendOp[T any] struct {
	ch chan<- T
	v  T
}

// SendCase prepares a send case.
func SendCase[T any](ch chan<- T) func(T) *SendOp[T] {
	return func(v T) *SendOp[T] { return &SendOp[T]{ch: ch, v: v} }
}

func (s *SendOp[T]) ptr() unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&s.ch)) }
func (s *SendOp[T]) isNil() bool         { return s.ch == nil }
func (s *SendOp[T]) makeOffer() *offer {
	if cap(s.ch) != 0 {
		return nil
	}
	return &offer{ch: s.ptr(), val: s.v, task: cur}
}
func (s *SendOp[T]) try(hasDefault bool) bool {
	p := s.ptr()
	if closedSet(p) {
		panic("send on closed channel")
	}
	if cap(s.ch) == 0 {
		if hasDefault && anyReceiverWaiting(p) {
			rendezvousSend(s.ch, s.v, p)
			return true
		}
		return false // offered while blocked
	}
	select {
	case s.ch <- s.v:
		Wake(p)
		wakeSelects()
		return true
	default:
	}
	return false
}

var selectMark byte

//go:norace
func wakeSelects() { wakeObj(unsafe.Pointer(&selectMark)) }

// Select runs a select statement and returns the chosen case, -1 for default.
func Select(hasDefault bool, ops ...SelOp) int {
	if !Active() {
		panic("verifsim: select outside a run")
	}
	Point()
	for {
		n := len(ops)
		off := 0
		if n > 1 {
			off = int(Rand() % uint64(n))
		}
		for k := 0; k < n; k++ {
			i := (k + off) % n
			if !ops[i].isNil() && ops[i].try(hasDefault) {
				return i
			}
		}
		if hasDefault {
			return -1
		}
		if i, ok := selectBlock(ops); ok {
			return i
		}
	}
}

//go:norace
func selectBlock(ops []SelOp) (int, bool) {
	g := &offerGroup{}
	cur.nSel = 0
	var mine [16]*offer
	nMine := 0
	for i := range ops {
		if ops[i].isNil() {
			continue
		}
		if o := ops[i].makeOffer(); o != nil {
			o.group = g
			o.idx = i
			RaceReleaseMerge(unsafe.Pointer(&o.sync))
			addOffer(o)
			wakeObj(o.ch)
			mine[nMine] = o
			nMine++
		} else if cur.nSel < len(cur.sel) {
			cur.sel[cur.nSel] = ops[i].ptr()
			cur.nSel++
		}
	}
	if nMine > 0 {
		wakeSelectsExcept(cur)
	}
	me := cur
	blockCur("select", unsafe.Pointer(&selectMark), true)
	me.nSel = 0
	for i := 0; i < nMine; i++ {
		if mine[i].taken {
			RaceAcquire(unsafe.Pointer(&mine[i].sync))
		}
		dropOffer(mine[i])
	}
	return g.idx, g.taken
}

//go:norace
func wakeSelectsExcept(me *Task) { wakeObj(unsafe.Pointer(&selectMark)) }

// ---- maps ----

// Entry is one element of a map.
type Entry[K comparable, V any] struct {
	K K
	m map[K]V
}

// Get returns the element's present value; the second result is false when it
// was deleted meanwhile.
func (e Entry[K, V]) Get() (V, bool) {
	v, ok := e.m[e.K]
	return v, ok
}

// MapEntries lists a map in an order drawn from the run's seed.
func MapEntries[M ~map[K]V, K comparable, V any](m M) []Entry[K, V] {
	out := make([]Entry[K, V], 0, len(m))
	for k := range m {
		out = append(out, Entry[K, V]{k, m})
	}
	names := make([]string, len(out))
	idx := make([]int, len(out))
	for i := range out {
		names[i] = fmt.Sprintf("%T:%v", out[i].K, out[i].K)
		if len(names[i]) < 24 {
			names[i] = fmt.Sprintf("%24s", names[i])
		}
		idx[i] = i
	}
	sort.Slice(idx, func(a, b int) bool { return names[idx[a]] < names[idx[b]] })
	res := make([]Entry[K, V], len(out))
	for i, j := range idx {
		res[i] = out[j]
	}
	if Active() {
		for i := len(res) - 1; i > 0; i-- {
			j := int(Rand() % uint64(i+1))
			res[i], res[j] = res[j], res[i]
		}
	}
	return res
}
