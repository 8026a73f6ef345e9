package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"time"

	"verifharness/core"
)

func emit(w io.Writer, v any) {
	e := json.NewEncoder(w)
	e.SetEscapeHTML(false)
	if err := e.Encode(v); err != nil {
		die("%v", err)
	}
}

// worker runs one plan and reports on descriptor 3.
func worker(p *core.Plan, devs bool) {
	out := os.NewFile(3, "result")
	core.HushStdout()
	core.Phase = func(s string) { fmt.Fprintln(out, s) }
	core.RunPlan(p, devs, func(r *core.BatchResult) { emit(out, r) })
	os.Exit(0)
}

// outcome is what became of a worker process.
type outcome struct {
	res     *core.BatchResult
	crash   string // the program under test brought the process down
	fault   string // the harness failed
	timeout bool
	stderr  string
	wall    time.Duration
}

func (o *outcome) viols() []core.FoundViol {
	if o.crash != "" {
		return []core.FoundViol{{Run: -1, Class: "crash", Msg: o.crash}}
	}
	if o.res == nil {
		return nil
	}
	return o.res.Viols
}

func spawn(limit time.Duration, args ...string) *outcome {
	self, err := os.Executable()
	if err != nil {
		die("%v", err)
	}
	t0 := time.Now()
	cmd := exec.Command(self, args...)
	pr, pw, err := os.Pipe()
	if err != nil {
		die("%v", err)
	}
	cmd.ExtraFiles = []*os.File{pw}
	var stderr tail
	cmd.Stderr = &stderr
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GORACE=halt_on_error=0 exitcode=0 history_size=3 atexit_sleep_ms=0", "GOTRACEBACK=single")
	o := &outcome{}
	if err := cmd.Start(); err != nil {
		die("%v", err)
	}
	pw.Close()
	done := make(chan []byte)
	go func() {
		b, _ := io.ReadAll(pr)
		done <- b
	}()
	timer := time.AfterFunc(limit, func() {
		o.timeout = true
		cmd.Process.Kill()
	})
	err = cmd.Wait()
	timer.Stop()
	b := <-done
	pr.Close()
	o.wall = time.Since(t0)
	o.stderr = stderr.String()
	phase := ""
	for _, l := range bytes.Split(b, []byte("\n")) {
		if len(l) == 0 {
			continue
		}
		if l[0] == '{' {
			r := &core.BatchResult{}
			if json.Unmarshal(l, r) == nil && r.Done {
				o.res = r
			}
			continue
		}
		phase = string(l)
	}
	if o.res != nil {
		return o
	}
	se := o.stderr
	switch {
	case o.timeout:
		o.fault = fmt.Sprintf("a worker did not finish within %v (%s)", limit, phase)
	case strings.HasPrefix(phase, "exec") && (strings.Contains(se, "fatal error:") || strings.Contains(se, "panic:") || strings.Contains(se, "SIGSEGV")):
		o.crash = firstLine(se)
	default:
		o.fault = fmt.Sprintf("a worker died in phase %q: %v: %s", phase, err, clip(se, 3000))
	}
	return o
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.Contains(l, "SIGSEGV") {
			return strings.TrimSpace(l)
		}
	}
	return clip(s, 200)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// tail keeps the beginning of what is written to it.
type tail struct{ b []byte }

func (t *tail) Write(p []byte) (int, error) {
	if n := 1<<16 - len(t.b); n > 0 {
		t.b = append(t.b, p[:min(n, len(p))]...)
	}
	return len(p), nil
}
func (t *tail) String() string { return string(t.b) }
