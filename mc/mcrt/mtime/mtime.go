// Package mtime stands in for the package time in explored code: the clock is virtual.
package mtime

import (
	"time"

	"verif/mcrt"
)

type (
	Duration   = time.Duration
	Location   = time.Location
	Month      = time.Month
	ParseError = time.ParseError
	Time       = time.Time
	Weekday    = time.Weekday
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour
	Layout      = time.Layout
	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
	RubyDate    = time.RubyDate
	RFC822      = time.RFC822
	RFC822Z     = time.RFC822Z
	RFC850      = time.RFC850
	RFC1123     = time.RFC1123
	RFC1123Z    = time.RFC1123Z
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
	StampMicro  = time.StampMicro
	StampNano   = time.StampNano
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly
	January     = time.January
	February    = time.February
	March       = time.March
	April       = time.April
	May         = time.May
	June        = time.June
	July        = time.July
	August      = time.August
	September   = time.September
	October     = time.October
	November    = time.November
	December    = time.December
	Sunday      = time.Sunday
	Monday      = time.Monday
	Tuesday     = time.Tuesday
	Wednesday   = time.Wednesday
	Thursday    = time.Thursday
	Friday      = time.Friday
	Saturday    = time.Saturday
)

var (
	Local                  = time.Local
	UTC                    = time.UTC
	ParseDuration          = time.ParseDuration
	FixedZone              = time.FixedZone
	LoadLocation           = time.LoadLocation
	LoadLocationFromTZData = time.LoadLocationFromTZData
	Date                   = time.Date
	Parse                  = time.Parse
	ParseInLocation        = time.ParseInLocation
	Unix                   = time.Unix
	UnixMicro              = time.UnixMicro
	UnixMilli              = time.UnixMilli
)

var base = time.Date(2026, 1, 1, 0, 0, 0, 0, time.UTC)

func Now() Time {
	if !mcrt.Active() {
		return time.Now()
	}
	return base.Add(Duration(mcrt.Now()))
}

func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }

func Sleep(d Duration) {
	if !mcrt.Active() {
		time.Sleep(d)
		return
	}
	mcrt.Log("timer")
	mcrt.Sleep(int64(d))
}

// Timer is like time.Timer.
type Timer struct {
	C    <-chan Time
	c    chan Time
	f    func()
	stop func() bool
	real *time.Timer
}

func (t *Timer) start(d Duration) {
	mcrt.Log("timer")
	t.stop = mcrt.Timer(int64(d), func() {
		if t.f != nil {
			mcrt.Go(t.f)
			return
		}
		mcrt.Select(true, mcrt.CaseSend[Time](t.c)(Now()))
	})
}

func NewTimer(d Duration) *Timer {
	if !mcrt.Active() {
		r := time.NewTimer(d)
		return &Timer{C: r.C, real: r}
	}
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	if !mcrt.Active() {
		return &Timer{real: time.AfterFunc(d, f)}
	}
	t := &Timer{f: f}
	t.start(d)
	return t
}

func (t *Timer) Stop() bool {
	if t.real != nil {
		return t.real.Stop()
	}
	mcrt.Yield()
	return t.stop()
}

func (t *Timer) Reset(d Duration) bool {
	if t.real != nil {
		return t.real.Reset(d)
	}
	active := t.Stop()
	t.start(d)
	return active
}

func After(d Duration) <-chan Time { return NewTimer(d).C }

// Ticker is like time.Ticker.
type Ticker struct {
	C       <-chan Time
	c       chan Time
	d       Duration
	stop    func() bool
	stopped bool
	real    *time.Ticker
}

func (t *Ticker) start() {
	t.stop = mcrt.Timer(int64(t.d), func() {
		if t.stopped {
			return
		}
		mcrt.Select(true, mcrt.CaseSend[Time](t.c)(Now()))
		t.start()
	})
}

func NewTicker(d Duration) *Ticker {
	if !mcrt.Active() {
		r := time.NewTicker(d)
		return &Ticker{C: r.C, real: r}
	}
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	t.start()
	return t
}

func (t *Ticker) Stop() {
	if t.real != nil {
		t.real.Stop()
		return
	}
	mcrt.Yield()
	t.stopped = true
	t.stop()
}

func (t *Ticker) Reset(d Duration) {
	if t.real != nil {
		t.real.Reset(d)
		return
	}
	t.Stop()
	t.d, t.stopped = d, false
	t.start()
}

func Tick(d Duration) <-chan Time { return NewTicker(d).C }
