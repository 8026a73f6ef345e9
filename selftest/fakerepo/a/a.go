package fa

import (
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type C chan int
type T struct{ n int; mu sync.Mutex }

func (t *T) inc(by int, s ...string) { t.mu.Lock(); defer t.mu.Unlock(); t.n += by + len(s) }

func gen[X any](v X, out chan<- X) { out <- v }

func worker(in <-chan int, out chan int, wg *sync.WaitGroup) {
	defer wg.Done()
	for v := range in {
		out <- v * 2
	}
}

type S struct{ f func(int) }

func Test() string {
	var sb strings.Builder
	p := func(f string, a ...any) { fmt.Fprintf(&sb, f+"\n", a...) }
	// unbuffered pipeline
	in, out := make(chan int), make(chan int, 3)
	var wg sync.WaitGroup
	for i := 0; i < 3; i++ {
		wg.Add(1)
		go worker(in, out, &wg)
	}
	go func() { for i := 0; i < 20; i++ { in <- i }; close(in) }()
	go func() { wg.Wait(); close(out) }()
	sum := 0
	for v := range out { sum += v }
	p("sum %d", sum)
	// named chan, methods in go
	t := &T{}
	done := make(chan struct{})
	var c C = make(C)
	go t.inc(3, "a", "b")
	go t.inc(1, []string{"x"}...)
	go gen("str", make(chan string, 1))
	go gen[any](nil, make(chan any, 1))
	go func(x int) { c <- x; done <- struct{}{} }(7)
	p("c %d", <-c)
	<-done
	for { t.mu.Lock(); k := t.n; t.mu.Unlock(); if k == 7 { break }; time.Sleep(time.Millisecond) }
	p("n %d", t.n)
	// select
	a, b, q := make(chan int), make(chan string, 1), make(chan bool)
	go func() { a <- 1; b <- "x"; close(q) }()
	got := map[string]int{}
loop:
	for {
		select {
		case v := <-a:
			got["a"] = v
		case s, ok := <-b:
			if ok { got["b"+s]++ }
		case _, ok := <-q:
			if !ok {
				break loop
			}
		case <-time.After(time.Second):
			p("timeout")
		}
	}
	if got["bx"] == 0 { got["b"+<-b]++ }
	p("got %v", got)
lab:
	select {
	case v, ok := <-a:
		p("no %v %v", v, ok)
	default:
		if true { break lab }
		p("unreached")
	}
	// send select, with function values
	mk := func() chan int { return out2 }
	select {
	case mk() <- func() int { return 5 }():
		p("sent")
	}
	p("recv %d", <-out2)
	var v2 int
	var ok2 bool
	out2 <- 4
	v2, ok2 = <-out2
	p("%d %v", v2, ok2)
	out2 <- 6
	var v3, ok3 = (<-out2)
	p("%d %v", v3, ok3)
	// maps
	m := map[string]int{"a": 1, "b": 2, "c": 3}
	keys := []string{}
	for k := range m { keys = append(keys, k) }
	sort.Strings(keys)
	tot := 0
	for _, v := range m { tot += v }
	for k, v := range m { if k == "a" { delete(m, "b") }; tot += v * 0 }
	n := 0
	for range m { n++ }
	var kk string
	for kk = range m { _ = kk }
	p("%v %d %d", keys, tot, n)
	// once, pool, atomic, cond, rwmutex
	var once sync.Once
	var cnt atomic.Int32
	var rw sync.RWMutex
	w2 := new(sync.WaitGroup)
	for i := range 10 {
		w2.Add(1)
		go func() { defer w2.Done(); once.Do(func() { cnt.Add(1) }); rw.RLock(); _ = i; rw.RUnlock(); rw.Lock(); cnt.Add(10); rw.Unlock() }()
	}
	w2.Wait()
	p("cnt %d", cnt.Load())
	cond := sync.NewCond(&sync.Mutex{})
	ready := false
	go func() { cond.L.Lock(); ready = true; cond.L.Unlock(); cond.Broadcast() }()
	cond.L.Lock()
	for !ready { cond.Wait() }
	cond.L.Unlock()
	// goto, switch, fallthrough, labels
	i := 0
again:
	i++
	if i < 3 { goto again }
	switch i { case 3: i = 10; fallthrough; case 4: i++; default: i = 0 }
	switch x := any(i).(type) { case int: p("int %d", x); case string: }
	outer:
	for x := 0; ; x++ { for { if x > 2 { break outer }; continue outer } }
	for rand.Intn(2) == 5 {}
	s := S{f: func(int) {}}
	go s.f(1)
	func() { defer func() { p("rec %v", recover()) }(); var mm map[string]int; mm["a"] = 1 }()
	_ = os.WriteFile("/tmp/x.txt", []byte("hi"), 0644)
	bb, _ := os.ReadFile("/tmp/x.txt")
	p("%s", bb)
	_ = os.Remove("/tmp/x.txt")
	seq := func(yield func(int) bool) { for i := 0; i < 3; i++ { if !yield(i) { return } } }
	for v := range seq { p("y %d", v) }
	tm := time.NewTimer(time.Hour); p("stop %v", tm.Stop())
	st := time.Now(); time.Sleep(30 * time.Millisecond); p("slept %v", time.Since(st) >= 30*time.Millisecond)
	func() { defer func() { p("rec %v", recover()) }(); x := make(chan int); close(x); close(x) }()
	_, err := os.Open("/nonexistent"); p("%v %v", err, os.IsNotExist(err))
	return sb.String()
}

var out2 = make(chan int, 2)
