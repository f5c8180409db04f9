// Package twx is the bookkeeping shared by the timing wheel checks. Harness code runs one thread at a
// time and has no scheduling points of its own, so plain fields are enough.
package twx

import (
	"time"

	tw "github.com/ahKevinXy/go-web-tools/common/timer/timingwheel"
	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
	"github.com/ahKevinXy/go-web-tools/zzverif/shim/context"
	vtime "github.com/ahKevinXy/go-web-tools/zzverif/shim/time"
	"github.com/ahKevinXy/go-web-tools/zzverif/vh"
)

const MS = int64(time.Millisecond)

// Timer is one AfterFunc with what happened to it.
type Timer struct {
	ID       int
	T        *tw.Timer
	Delay    time.Duration
	Lo, Hi   int64 // bounds of the expiration (virtual ns)
	Runs     []int64
	Stopped  bool // some Stop returned true
	StopTime int64
	Added    bool
	stopping int // Stop calls under way
	overlap  bool
}

// World is a wheel with its timers.
type World struct {
	W      *tw.TimingWheel
	Tick   int64 // ms
	Size   int64
	Timers []*Timer
	Stalls bool
	Ended  bool
	Cancel context.CancelFunc
	Ctx    context.Context
	made   int64
	Hook   func(t *Timer) // what every task does
}

// Slack is how late a task may start when nothing is stalled.
const Slack = MS + MS/10

func New(tick, size int64, stalls bool) *World {
	w := &World{Tick: tick, Size: size, Stalls: stalls}
	w.Ctx, w.Cancel = context.WithCancel(context.Background())
	vh.Do("New", func() { w.W = tw.New(tick, size) })
	return w
}

// Run starts the wheel's goroutine.
func (w *World) Run() {
	rt.GoNamed("wheel", func() {
		w.W.Run(w.Ctx)
		vh.Check(w.Ctx.Err() != nil, "run-ended", "Run returned without a cancelled context")
		w.Ended = true
	})
}

// After adds a timer.
func (w *World) After(d time.Duration) *Timer {
	t := &Timer{ID: len(w.Timers), Delay: d}
	w.Timers = append(w.Timers, t)
	t.Lo, t.Hi = rt.Now()+int64(d), 1<<62
	rt.Transition(1)
	t.T = w.W.AfterFunc(d, func() {
		now := rt.Now()
		rt.Tracef("+%d task %d runs", now, t.ID)
		t.Runs = append(t.Runs, now)
		vh.Check(len(t.Runs) == 1, "exactly-once", "task %d (delay %v) ran twice", t.ID, d)
		vh.Check(now > t.Lo-w.Tick*MS-MS, "early", "task %d ran at +%d, more than a tick (%d ms) before its expiry at +%d", t.ID, now, w.Tick, t.Lo)
		if w.Hook != nil {
			defer w.Hook(t)
		}
		vh.Check(!t.Stopped, "ran-after-stop", "task %d ran at +%d although Stop returned true at +%d", t.ID, now, t.StopTime)
		if !w.Stalls {
			vh.Check(now <= max(t.Hi, t.Lo)+Slack || t.Hi == 1<<62, "late", "task %d ran at +%d, its expiry is at +%d", t.ID, now, t.Lo)
		}
	})
	t.Hi = rt.Now() + int64(d)
	t.Added = true
	vh.Check(t.T != nil, "nil-timer", "AfterFunc returned nil")
	rt.Tracef("+%d AfterFunc(%v) -> %d", rt.Now(), d, t.ID)
	return t
}

func max(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

// Stop stops a timer and checks what the answer implies.
func (w *World) Stop(t *Timer, who string) bool {
	rt.Transition(1)
	now0 := rt.Now()
	ran0, stopped0 := len(t.Runs) > 0, t.Stopped
	if t.stopping > 0 {
		t.overlap = true
	}
	t.stopping++
	ok := t.T.Stop()
	t.stopping--
	rt.Tracef("+%d %s: Stop(%d) -> %v", rt.Now(), who, t.ID, ok)
	if ok {
		vh.Check(len(t.Runs) == 0, "stop-after-run", "Stop of task %d returned true although the task has run", t.ID)
		vh.Check(!t.Stopped, "stop-twice", "two Stop calls of task %d returned true", t.ID)
		t.Stopped, t.StopTime = true, rt.Now()
		return true
	}
	// refused: the task has started or is about to (within a tick of its expiry), or another Stop won
	if !ran0 && !stopped0 && !t.Stopped && !t.overlap {
		vh.Check(rt.Now()+w.Tick*MS+MS > t.Lo, "stop-refused", "Stop of task %d returned false at +%d although the task is due at +%d and has not run (call began at +%d)", t.ID, rt.Now(), t.Lo, now0)
	}
	return false
}

// Finish lets the wheel work until everything expired, then checks that every task ran exactly once or was stopped.
func (w *World) Finish() {
	end := rt.Now()
	for _, t := range w.Timers {
		end = max(end, t.Lo)
		if t.Hi < 1<<62 {
			end = max(end, t.Hi)
		}
	}
	rt.IdleUntil(end + 2*w.Tick*MS + 10*MS)
	for l := int64(-1); w.Stalls && l != rt.Stalled(); { // a timer armed after a stall is late by it
		l = rt.Stalled()
		rt.IdleUntil(end + 2*w.Tick*MS + 10*MS + l)
	}
	w.Settled("")
}

// Settled checks the final state.
func (w *World) Settled(note string) {
	for _, t := range w.Timers {
		vh.Check(t.Added, "blocked", "AfterFunc %d never returned: %s", t.ID, rt.UnfinishedNames())
		if t.Stopped {
			vh.Check(len(t.Runs) == 0, "ran-after-stop", "task %d ran although it was stopped", t.ID)
		} else {
			vh.Check(len(t.Runs) == 1, "never-ran", "task %d (delay %v, expiry +%d) has not run by +%d%s; %s", t.ID, t.Delay, t.Lo, rt.Now(), note, rt.UnfinishedNames())
		}
	}
}

// NoPolling bounds the number of OS timers made for n wheel timers.
func (w *World) NoPolling() {
	n := int64(len(w.Timers))
	vh.Check(rt.TimersMade() <= 40*(n+1)+60, "polling", "%d timers were created to wait for %d tasks: the wheel polls", rt.TimersMade(), n)
}

// Sleep is virtual.
func Sleep(d int64) { vtime.Sleep(time.Duration(d)) }

// Delays are delays around every level boundary of a wheel.
func Delays(tick, size int64, levels int) []time.Duration {
	out := []time.Duration{0, time.Millisecond}
	iv := tick
	seen := map[int64]bool{0: true, 1: true}
	for i := 0; i <= levels; i++ {
		for _, d := range []int64{iv - 1, iv, iv + tick, iv + iv/2, (size-1)*iv + 1} {
			if !seen[d] && d >= 0 {
				seen[d] = true
				out = append(out, time.Duration(d*MS))
			}
		}
		iv *= size
	}
	return out
}
