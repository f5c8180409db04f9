// Package time is the controlled stand-in for the standard package: virtual clock, controlled timers.
package time

import (
	real "time"

	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
)

type (
	Duration   = real.Duration
	Time       = real.Time
	Location   = real.Location
	Month      = real.Month
	Weekday    = real.Weekday
	ParseError = real.ParseError
)

const (
	Nanosecond  = real.Nanosecond
	Microsecond = real.Microsecond
	Millisecond = real.Millisecond
	Second      = real.Second
	Minute      = real.Minute
	Hour        = real.Hour

	Layout      = real.Layout
	ANSIC       = real.ANSIC
	UnixDate    = real.UnixDate
	RubyDate    = real.RubyDate
	RFC822      = real.RFC822
	RFC822Z     = real.RFC822Z
	RFC850      = real.RFC850
	RFC1123     = real.RFC1123
	RFC1123Z    = real.RFC1123Z
	RFC3339     = real.RFC3339
	RFC3339Nano = real.RFC3339Nano
	Kitchen     = real.Kitchen
	Stamp       = real.Stamp
	StampMilli  = real.StampMilli
	StampMicro  = real.StampMicro
	StampNano   = real.StampNano
	DateTime    = real.DateTime
	DateOnly    = real.DateOnly
	TimeOnly    = real.TimeOnly

	January   = real.January
	February  = real.February
	March     = real.March
	April     = real.April
	May       = real.May
	June      = real.June
	July      = real.July
	August    = real.August
	September = real.September
	October   = real.October
	November  = real.November
	December  = real.December

	Sunday    = real.Sunday
	Monday    = real.Monday
	Tuesday   = real.Tuesday
	Wednesday = real.Wednesday
	Thursday  = real.Thursday
	Friday    = real.Friday
	Saturday  = real.Saturday
)

var (
	UTC                    = real.UTC
	Local                  = real.Local
	Unix                   = real.Unix
	UnixMilli              = real.UnixMilli
	UnixMicro              = real.UnixMicro
	Date                   = real.Date
	Parse                  = real.Parse
	ParseInLocation        = real.ParseInLocation
	ParseDuration          = real.ParseDuration
	FixedZone              = real.FixedZone
	LoadLocation           = real.LoadLocation
	LoadLocationFromTZData = real.LoadLocationFromTZData
)

// Now reads the virtual clock.
func Now() Time { return real.Unix(0, rt.BaseTime+rt.Now()) }

func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }

// Timer is a controlled timer.
type Timer struct {
	C *rt.Chan[Time]
	h *rt.TimerHandle
	f func()
}

func (t *Timer) start(d Duration) {
	var h *rt.TimerHandle
	h = rt.StartTimer(int64(d), "timer", func() {
		if t.f != nil {
			rt.SpawnFromClock("time.AfterFunc", t.f, h.VC())
			return
		}
		t.C.TrySendNow(Now(), h.VC())
	})
	t.h = h
}

func NewTimer(d Duration) *Timer {
	t := &Timer{C: rt.MakeChan[Time](1)}
	t.start(d)
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

func (t *Timer) Stop() bool {
	if rt.Ending() {
		return false
	}
	ok := t.h.StopTimer()
	if t.C != nil {
		if !ok && t.C.Drain() {
			return true
		}
	}
	return ok
}

func (t *Timer) Reset(d Duration) bool {
	ok := t.Stop()
	t.start(d)
	return ok
}

func After(d Duration) *rt.Chan[Time] { return NewTimer(d).C }

// Sleep sleeps in virtual time.
func Sleep(d Duration) {
	if d <= 0 {
		rt.Yield()
		return
	}
	if !rt.InSim() {
		rt.AdvanceClock(int64(d))
		return
	}
	done := false
	rt.StartTimer(int64(d), "sleep", func() { done = true })
	rt.Block("time.Sleep", func() bool { return done })
}

// Ticker is a controlled ticker.
type Ticker struct {
	C *rt.Chan[Time]
	h *rt.TimerHandle
	d Duration
	s bool
}

func (t *Ticker) arm() {
	var h *rt.TimerHandle
	h = rt.StartTimerFromClock(int64(t.d), "ticker", func() {
		if t.s {
			return
		}
		t.C.TrySendNow(Now(), h.VC())
		t.arm()
	})
	t.h = h
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := &Ticker{C: rt.MakeChan[Time](1), d: d}
	t.arm()
	return t
}

func (t *Ticker) Stop() {
	if rt.Ending() {
		return
	}
	t.s = true
	t.h.StopTimer()
	t.C.Drain()
}

func (t *Ticker) Reset(d Duration) {
	t.Stop()
	t.s = false
	t.d = d
	t.arm()
}

func Tick(d Duration) *rt.Chan[Time] {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
