// Package fb is full of constructs the instrumenter must leave the meaning of.
package fb

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	stdfmt "fmt"
	"io"
	"log/slog"
	"maps"
	"os"
	stdos "os"
	"path/filepath"
	"runtime"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

//go:generate echo nothing

// Lock has promoted methods.
type Lock struct {
	sync.Mutex
	*bytes.Buffer
	n int
}

type File struct{ *os.File }

type namedFile = os.File

type guarded[K comparable, V any] struct {
	mu sync.RWMutex
	m  map[K]V
}

func (g *guarded[K, V]) get(k K, mk func(K) V) V {
	g.mu.RLock()
	v, ok := g.m[k]
	g.mu.RUnlock()
	if ok {
		return v
	}
	g.mu.Lock()
	defer g.mu.Unlock()
	if g.m == nil {
		g.m = make(map[K]V)
	}
	v = mk(k)
	g.m[k] = v
	return v
}

func (g *guarded[K, V]) each(f func(K, V)) {
	for k, v := range g.m {
		f(k, v)
	}
}

func keysOf[M ~map[K]V, K comparable, V any](m M) (out []K) {
	for k := range m {
		out = append(out, k)
	}
	return
}

type job struct {
	id    int
	reply chan<- result
}

type result struct {
	id, v int
	err   error
}

func two() (int, string)         { runtime.Gosched(); return 4, "four" }
func pair(a int, b string) error { return stdfmt.Errorf("%d %s", a, b) }

func slow(i int) int {
	for k := 0; k < 3; k++ {
		i += k
	}
	return i - 3
}

var (
	table   = buildTable()
	started = make(chan int, 4)
	lazy    = sync.OnceValue(func() int { return len(table) })
	hooks   = map[string]func(int) int{
		"a": func(i int) int { return slow(i) + 1 },
		"b": func(i int) int {
			if i > 2 {
				return 2
			} else if j := slow(i); j > 1 {
				return j
			} else {
				return -1
			}
		},
	}
	_ sync.Locker = (*Lock)(nil)
)

func init() {
	for i := 0; i < 2; i++ {
		started <- i
	}
}

func init() { table["init"] = 3 }

func buildTable() map[string]int {
	m := map[string]int{}
	for i, s := range strings.Fields("one two three") {
		m[s] = i
	}
	return m
}

func pool(n int, jobs []job) {
	ch := make(chan job)
	var wg sync.WaitGroup
	wg.Add(n)
	for w := 0; w < n; w++ {
		go func(w int, in <-chan job) {
			defer wg.Done()
			for {
				select {
				case j, ok := <-in:
					if !ok {
						return
					}
					j.reply <- result{id: j.id, v: slow(j.id) * 10}
				}
			}
		}(slow(w), ch)
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()
}

func named() (n int, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = stdfmt.Errorf("caught %v", p)
			n *= 2
		}
	}()
	n = 21
	var a []int
	_ = a[slow(7)]
	return 1, nil
}

func skip(out *[]string) {
	i := 0
	goto check
body:
	*out = append(*out, "g")
	i++
check:
	if i < 3 {
		goto body
	}
}

var everyone = make(chan error)

func tellAll(a int, b string) { everyone <- pair(a, b) }

// Test runs everything and reports.
func Test() string {
	var sb strings.Builder
	p := func(f string, a ...any) { stdfmt.Fprintf(&sb, f+"\n", a...) }

	// arguments of go statements which run code of their own
	done := make(chan struct{})
	var mu sync.Mutex
	var got []int
	var wg sync.WaitGroup
	add := func(base int) func(...int) {
		return func(v ...int) {
			mu.Lock()
			defer mu.Unlock()
			for _, x := range v {
				got = append(got, base+x)
			}
			wg.Done()
		}
	}
	for i := 0; i < 4; i++ {
		wg.Add(2)
		go add(slow(i)*100)(slow(1), slow(2))
		go func(f func(...int), v int) { f(v) }(add(slow(i)), slow(50))
	}
	wg.Wait()
	sort.Ints(got)
	p("got %v", got)
	go close(done)
	<-done
	told := make(chan error, 2)
	tell := func(a int, b string) { told <- pair(a, b) }
	go tell(two())
	go tellAll(two())
	p("told %v", <-told)
	p("told %v", <-everyone)

	// a pool with replies
	rep := make(chan result, 10)
	var jobs []job
	for i := 0; i < 10; i++ {
		jobs = append(jobs, job{i, rep})
	}
	pool(3, jobs)
	close(rep)
	sum := 0
	for r := range rep {
		sum += r.v
	}
	p("pool %d", sum)

	// embedded things
	l := Lock{Buffer: &bytes.Buffer{}}
	var lk sync.Locker = &l
	for i := 0; i < 3; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			lk.Lock()
			defer lk.Unlock()
			l.n++
			l.WriteString("x")
		}()
	}
	wg.Wait()
	p("lock %d %s", l.n, l.String())

	// generics over maps
	var g guarded[string, int]
	for i := 0; i < 5; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			g.get(stdfmt.Sprint("k", i%2), func(s string) int { return len(s) })
		}(i)
	}
	wg.Wait()
	tot := 0
	g.each(func(_ string, v int) { tot += v })
	ks := keysOf(g.m)
	sort.Strings(ks)
	p("guarded %d %v %v", tot, ks, slices.Sorted(maps.Keys(g.m)))
	del := map[int]bool{1: true, 2: true, 3: true}
	seen := 0
	for k := range del {
		for j := range del {
			if j != k {
				delete(del, j)
			}
		}
		seen++
	}
	p("deleted to %d after %d", len(del), seen)

	// channels of channels, directions, nil channels
	cc := make(chan chan int, 1)
	go func() {
		c := make(chan int)
		cc <- c
		c <- 9
		close(c)
	}()
	c := <-cc
	v, ok := <-c
	_, ok2 := <-c
	p("cc %d %v %v %d %d", v, ok, ok2, len(c), cap(cc))
	var nilc chan int
	arr := [2]int{}
	idx := func() int { return slow(1) }
	oc := make(chan int, 1)
	oc <- 5
	select {
	case <-nilc:
		p("never")
	case nilc <- 1:
		p("never")
	case arr[idx()] = <-oc:
		p("arr %v", arr)
	}
	tick := time.NewTicker(10 * time.Millisecond)
	n := 0
ticks:
	for {
		select {
		case <-tick.C:
			if n++; n == 3 {
				break ticks
			}
			continue ticks
		case <-time.After(time.Minute):
			p("too late")
		}
	}
	tick.Stop()
	p("ticks %d", n)

	// context
	ctx, cancel := context.WithTimeout(context.WithValue(context.Background(), "k", "v"), 20*time.Millisecond)
	kid, stop := context.WithCancelCause(ctx)
	<-kid.Done()
	p("ctx %v %v %v %v", ctx.Err(), kid.Err(), context.Cause(kid), kid.Value("k"))
	stop(nil)
	cancel()
	ctx2, cancel2 := context.WithCancelCause(context.Background())
	ran := make(chan bool)
	context.AfterFunc(ctx2, func() { ran <- true })
	go func() { cancel2(errors.New("why")) }()
	<-ran
	p("ctx2 %v %v", ctx2.Err(), context.Cause(ctx2))

	// pipes
	pr, pw := io.Pipe()
	go func() {
		bw := bufio.NewWriterSize(pw, 7)
		for i := 0; i < 10; i++ {
			stdfmt.Fprintf(bw, "line %d\n", i)
		}
		bw.Flush()
		pw.CloseWithError(io.ErrUnexpectedEOF)
	}()
	all, err := io.ReadAll(pr)
	p("pipe %d %v", len(all), err)
	pr, pw = io.Pipe()
	go pr.CloseWithError(errors.New("no more"))
	_, err = pw.Write([]byte("abc"))
	p("pipe %v", err)
	var tee bytes.Buffer
	_, _ = io.Copy(io.MultiWriter(&tee, io.Discard), io.LimitReader(strings.NewReader("abcdef"), 4))
	p("tee %s", tee.String())

	// files
	dir, err := os.MkdirTemp("", "fb")
	p("dir %v", err)
	name := filepath.Join(dir, "f")
	fd, err := stdos.OpenFile(name, stdos.O_RDWR|os.O_CREATE|os.O_EXCL, 0o600)
	p("open %v", err)
	w := File{fd}
	var anyw io.Writer = w
	if _, isF := anyw.(File); isF {
		_, _ = w.WriteString("hello")
	}
	var nf *namedFile = fd
	_, _ = nf.Seek(1, io.SeekStart)
	b4 := make([]byte, 4)
	_, _ = io.ReadFull(fd, b4)
	st, _ := fd.Stat()
	p("read %s %d", b4, st.Size())
	p("close %v %v", fd.Close(), errors.Is(fd.Close(), os.ErrClosed))
	_, err = os.Stat(name + "x")
	var pe *os.PathError
	p("stat %v %v", errors.As(err, &pe), errors.Is(err, os.ErrNotExist))
	ents, _ := os.ReadDir(dir)
	p("entries %d", len(ents))
	p("remove %v", os.RemoveAll(dir))

	// everything else
	nn, err := named()
	p("named %d %v", nn, err)
	var gs []string
	skip(&gs)
	p("goto %v", gs)
	func() {
		for i := 0; i < 2; i++ {
			defer func(i int) { p("deferred %d", i) }(slow(i))
		}
	}()
	switch x := slow(3); {
	case x == slow(2):
		p("two")
	case x > 2 && slow(x) == 3, x < 0:
		p("three")
		fallthrough
	default:
		p("and on")
	}
	var e any = pair(two())
	switch e := e.(type) {
	case nil:
	case error, stdfmt.Stringer:
		p("%v", e)
	}
	for i, r := range "aé" {
		p("%d %c", i, r)
	}
	for i := range [3]int{} {
		if i == 1 {
			continue
		}
		p("i%d", i)
	}
	os := "shadow"
	p("%s %d %d", os, lazy(), len(started))
	names := keysOf(hooks)
	sort.Strings(names)
	for _, k := range names {
		p("%s %d %d %d", k, hooks[k](1), hooks[k](2), hooks[k](3))
	}
	var sm sync.Map
	sm.Store("a", 1)
	sm.LoadOrStore("b", 2)
	cnt := 0
	sm.Range(func(k, v any2) bool { cnt += v.(int); return true })
	p("map %d", cnt)
	var ptr atomic.Pointer[result]
	var flag atomic.Bool
	go func() {
		ptr.Store(&result{v: 8})
		flag.Store(true)
	}()
	for !flag.Load() {
		runtime.Gosched()
	}
	p("ptr %d", ptr.Load().v)
	pl := sync.Pool{New: func() any2 { return new(int) }}
	x := pl.Get().(*int)
	pl.Put(x)
	errs := make(chan error, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				errs <- stdfmt.Errorf("%v", r)
			}
		}()
		panic(stdfmt.Sprintf("in %s", `a "goroutine"
`+"!"))
	}()
	p("err %v", <-errs)
	_ = slog.LevelInfo
	return sb.String()
}

type any2 = interface{}
