// Package simtime stands in for package time: the clock is the simulator's.
package simtime

import (
	"time"

	"verifsim/sim"
)

type (
	Time       = time.Time
	Duration   = time.Duration
	Month      = time.Month
	Weekday    = time.Weekday
	Location   = time.Location
	ParseError = time.ParseError
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	January   = time.January
	February  = time.February
	March     = time.March
	April     = time.April
	May       = time.May
	June      = time.June
	July      = time.July
	August    = time.August
	September = time.September
	October   = time.October
	November  = time.November
	December  = time.December

	Sunday    = time.Sunday
	Monday    = time.Monday
	Tuesday   = time.Tuesday
	Wednesday = time.Wednesday
	Thursday  = time.Thursday
	Friday    = time.Friday
	Saturday  = time.Saturday

	Layout      = time.Layout
	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
	RubyDate    = time.RubyDate
	RFC822      = time.RFC822
	RFC822Z     = time.RFC822Z
	RFC850      = time.RFC850
	RFC1123     = time.RFC1123
	RFC1123Z    = time.RFC1123Z
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
	StampMicro  = time.StampMicro
	StampNano   = time.StampNano
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly
)

var (
	UTC             = time.UTC
	Local           = time.UTC
	Parse           = time.Parse
	ParseInLocation = time.ParseInLocation
	ParseDuration   = time.ParseDuration
	Date            = time.Date
	Unix            = time.Unix
	UnixMilli       = time.UnixMilli
	UnixMicro       = time.UnixMicro
	FixedZone       = time.FixedZone
	LoadLocation    = time.LoadLocation
)

const epoch = 1700000000_000000000

func Now() Time                   { return time.Unix(0, epoch+sim.Now()).UTC() }
func Since(t Time) Duration       { return Now().Sub(t) }
func Until(t Time) Duration       { return t.Sub(Now()) }
func Sleep(d Duration)            { sim.SleepUntil(sim.Now() + int64(d)) }
func Tick(d Duration) <-chan Time { return NewTicker(d).C }

// Timer is time.Timer over the simulated clock.
type Timer struct {
	C       <-chan Time
	c       chan Time
	f       func()
	stopped bool
	fired   bool
	gen     int
}

func (t *Timer) start(d Duration) {
	t.gen++
	gen := t.gen
	t.fired, t.stopped = false, false
	at := sim.Now() + int64(d)
	k := sim.NewTask(0)
	sim.Daemon(k)
	go func() {
		sim.Begin(k)
		defer sim.End(k)
		sim.SleepUntil(at)
		if t.gen != gen || t.stopped {
			return
		}
		t.fired = true
		if t.f != nil {
			t.f()
			return
		}
		select {
		case t.c <- Now():
			sim.Wake(nil)
		default:
		}
		sim.WakeChans()
	}()
}

// Stop prevents the timer from firing.
func (t *Timer) Stop() bool {
	was := !t.fired && !t.stopped
	t.stopped = true
	return was
}

// Reset restarts the timer.
func (t *Timer) Reset(d Duration) bool {
	was := !t.fired && !t.stopped
	t.start(d)
	return was
}

func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}

func After(d Duration) <-chan Time { return NewTimer(d).C }

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

// Ticker is time.Ticker over the simulated clock.
type Ticker struct {
	C       <-chan Time
	c       chan Time
	stopped bool
	d       Duration
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	k := sim.NewTask(0)
	sim.Daemon(k)
	go func() {
		sim.Begin(k)
		defer sim.End(k)
		for !t.stopped {
			sim.SleepUntil(sim.Now() + int64(t.d))
			select {
			case t.c <- Now():
			default:
			}
			sim.WakeChans()
		}
	}()
	return t
}

func (t *Ticker) Stop()            { t.stopped = true }
func (t *Ticker) Reset(d Duration) { t.d = d; t.stopped = false }
