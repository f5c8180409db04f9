package rt

import (
	"fmt"
	"iter"
	"runtime/debug"
	"sort"
	"strings"
)

type killPanic struct{}

// Thread is one controlled goroutine.
type Thread struct {
	ID     int
	Name   string
	next   func() (int, bool)
	stop   func()
	yield  func(int) bool
	ready  func() bool // nil: enabled
	what   string      // what it is doing / blocked on
	done   bool
	killed bool
	vc     VC
	idle   bool
	frozen bool
}

// Sim is one controlled execution.
type Sim struct {
	maxThreads int
	live       []*Thread // not known to have ended
	threads    []*Thread
	cur        *Thread
	chosen     *Thread
	now        int64 // virtual nanoseconds since the base time
	timers     []*vtimer
	tseq       int
	fail       *Failure
	ending     bool
	steps      int
	started    bool

	// configuration
	Horizon      int     // steps per execution
	FreeSwitch   bool    // switching away from a blocked thread is free (preemption bounding); otherwise every non-default choice is a deviation
	stalled      int64   // time that passed in stalls
	Stalls       bool    // the clock may advance although threads can run
	Freezes      []int64 // a thread may be frozen for one of these times at any scheduling point (one deviation)
	FreezePrefix string
	FreezeOnly   bool  // the only deviations are freezes
	MinTimer     int64 // a timer never fires less than this after it was made
	SpawnStep    bool
	PlainPts     bool // plain memory accesses of the code under test are scheduling points
	Races        bool // report data races
	TimersMade   int64

	shadow  map[uintptrKey]*cell
	atomVC  map[uintptrKey]*VC
	mapRead map[uintptrKey]*cell
}

// S is the running simulation (nil outside).
var S *Sim

// BaseTime is the virtual wall clock at the start of an execution, in Unix nanoseconds.
var BaseTime int64 = 1700000000 * 1e9

// outClock is the virtual clock used when no simulation is running.
var outClock int64

type vtimer struct {
	at      int64
	seq     int
	fire    func()
	vc      VC
	active  bool
	what    string
	pending bool
	harness bool // not fired by a stall
}

func (s *Sim) running() bool { return s != nil && s.started && !s.ending }

// Now is the virtual time, nanoseconds after BaseTime.
func Now() int64 {
	if S != nil {
		return S.now
	}
	return outClock
}

// SetClock sets the clock used outside simulations.
func SetClock(ns int64) { outClock = ns }

// AdvanceClock moves the clock used outside simulations.
func AdvanceClock(ns int64) { outClock += ns }

// Config configures a simulation.
type Config struct {
	Horizon      int
	FreeSwitch   bool
	Stalls       bool
	Freezes      []int64
	FreezeOnly   bool
	FreezePrefix string // only threads of these names are frozen
	MinTimer     int64
	PlainPts     bool
	Races        bool
	Threads      int // more goroutines than these are a runaway (2000)
}

// Simulate runs body as the main thread of a fresh simulation until it returns.
func Simulate(c Config, body func()) {
	s := &Sim{Horizon: c.Horizon, FreeSwitch: c.FreeSwitch, Stalls: c.Stalls, MinTimer: c.MinTimer, Freezes: c.Freezes, FreezeOnly: c.FreezeOnly, FreezePrefix: c.FreezePrefix, PlainPts: c.PlainPts, Races: c.Races}
	if s.Horizon == 0 {
		s.Horizon = 20000
	}
	if s.maxThreads = c.Threads; s.maxThreads == 0 {
		s.maxThreads = 2000
	}
	if s.MinTimer == 0 {
		s.MinTimer = 1
	}
	s.shadow = map[uintptrKey]*cell{}
	s.atomVC = map[uintptrKey]*VC{}
	S = s
	SimNo++
	s.started = true
	Budget(20000000)
	main := s.spawn("main", body, nil)
	s.chosen = main
	var skip interface{}
	func() {
		defer func() {
			skip = recover()
		}()
		s.loop(main)
	}()
	s.teardown()
	S = nil
	if X != nil {
		X.Points += int64(s.steps)
	}
	if skip != nil {
		panic(skip)
	}
	if s.fail != nil {
		panic(failPanic{s.fail})
	}
}

func (s *Sim) loop(main *Thread) {
	for s.fail == nil && !main.done {
		t := s.chosen
		s.chosen = nil
		if t == nil {
			t = s.pick(nil)
			if t == nil {
				s.fail = s.deadlock()
				return
			}
		}
		s.cur = t
		t.next()
	}
}

func (s *Sim) deadlock() *Failure {
	return &Failure{Key: "deadlock", Msg: "deadlock: no thread can run and no timer is pending\n" + s.describe()}
}

func (s *Sim) describe() string {
	var b []string
	for _, t := range s.threads {
		if !t.done {
			b = append(b, fmt.Sprintf("  thread %d (%s): %s", t.ID, t.Name, t.what))
		}
	}
	return strings.Join(b, "\n")
}

// teardown unwinds every unfinished thread.
func (s *Sim) teardown() {
	s.ending = true
	for i := 0; i < len(s.threads); i++ {
		t := s.threads[i]
		if !t.done {
			s.cur = t
			t.stop()
			t.done = true
		}
	}
}

func (s *Sim) spawn(name string, f func(), parent *Thread) *Thread {
	t := &Thread{ID: len(s.threads), Name: name}
	if len(s.threads) > s.maxThreads {
		s.failNow(&Failure{Key: "runaway", Msg: fmt.Sprintf("more than %d goroutines started", s.maxThreads)})
	}
	if parent != nil {
		t.vc = parent.vc.copy()
		parent.tick()
	}
	t.tick()
	s.threads = append(s.threads, t)
	s.live = append(s.live, t)
	t.next, t.stop = iter.Pull(func(yield func(int) bool) {
		t.yield = yield
		defer func() {
			t.done = true
			if r := recover(); r != nil {
				switch p := r.(type) {
				case killPanic:
				case failPanic:
					if s.fail == nil {
						s.fail = p.f
					}
				case prunePanic, skipPanic:
					if !s.ending {
						panic(r)
					}
				case runaway:
					if s.fail == nil && !s.ending {
						s.fail = &Failure{Key: "runaway", Msg: "an operation did not finish within its step budget (endless loop or recursion)"}
					}
				default:
					if s.fail == nil && !s.ending {
						s.fail = &Failure{Key: "panic", Msg: fmt.Sprintf("panic in goroutine %d (%s): %v\n%s", t.ID, t.Name, r, trimStack(debug.Stack()))}
					}
				}
			}
		}()
		f()
	})
	t.what = "starting"
	return t
}

// failNow records a failure and unwinds the current thread.
func (s *Sim) failNow(f *Failure) {
	if s.fail == nil {
		s.fail = f
	}
	panic(killPanic{})
}

func (t *Thread) enabled() bool { return !t.done && !t.frozen && (t.ready == nil || t.ready()) }

// pick chooses the next thread. self (may be nil) is the thread at the scheduling point.
func (s *Sim) pick(self *Thread) *Thread {
	for {
		s.steps++
		if s.steps > s.Horizon {
			f := &Failure{Key: "livelock", Msg: fmt.Sprintf("livelock: no end after %d scheduling steps\n%s", s.Horizon, s.describe())}
			if self != nil {
				s.failNow(f)
			}
			s.fail = f
			return nil
		}
		var buf [16]*Thread
		en := buf[:0]
		selfEn := self != nil && self.enabled() && !self.idle
		if selfEn {
			en = append(en, self)
		}
		if len(s.live) > 32 { // forget those that ended
			k := 0
			for _, t := range s.live {
				if !t.done {
					s.live[k] = t
					k++
				}
			}
			s.live = s.live[:k]
		}
		for _, t := range s.live {
			if t != self && !t.idle && t.enabled() {
				en = append(en, t)
			}
		}
		if len(en) == 0 {
			// idle waiters run only when nothing else can and before time passes
			for _, t := range s.live {
				if t.idle && t.enabled() {
					return t
				}
			}
			if len(s.timers) == 0 {
				return nil
			}
			s.tickClock()
			continue
		}
		n := len(en)
		clock := s.Stalls && s.codeTimers()
		fz := 0
		if selfEn && self.ID > 0 && strings.HasPrefix(self.Name, s.FreezePrefix) {
			fz = len(s.Freezes)
		}
		if s.FreezeOnly {
			if fz > 0 {
				if k := Deviate(1 + fz); k > 0 {
					t := self
					t.frozen = true
					s.addTimer(s.now+s.Freezes[k-1], "freeze", func() { t.frozen = false })
					continue
				}
			}
			return en[0]
		}
		if n == 1 && !clock && fz == 0 {
			return en[0]
		}
		var k int
		if selfEn || !s.FreeSwitch {
			m := n
			if clock {
				m++
			}
			k = Deviate(m + fz)
			if k >= m {
				t := self
				t.frozen = true
				s.addTimer(s.now+s.Freezes[k-m], "freeze", func() { t.frozen = false })
				continue
			}
		} else {
			// the running thread blocked: which thread continues is free, a clock step is a deviation
			if clock && Deviate(2) == 1 {
				k = n
			} else {
				k = Choose(n)
			}
		}
		if k == n {
			was := s.now
			s.tickClock()
			s.stalled += s.now - was
			continue
		}
		return en[k]
	}
}

func (s *Sim) codeTimers() bool {
	for _, t := range s.timers {
		if !t.harness {
			return true
		}
	}
	return false
}

// tickClock advances virtual time to the next timer and fires every timer due then.
func (s *Sim) tickClock() {
	for first := true; ; first = false {
		i := -1
		for j, t := range s.timers {
			if i < 0 || t.at < s.timers[i].at || (t.at == s.timers[i].at && t.seq < s.timers[i].seq) {
				i = j
			}
		}
		if i < 0 || (!first && s.timers[i].at > s.now) {
			return
		}
		t := s.timers[i]
		s.timers = append(s.timers[:i:i], s.timers[i+1:]...)
		t.pending = false
		if t.at > s.now {
			s.now = t.at
		}
		t.fire()
	}
}

// point is a scheduling point of the current thread; ready (nil: always) tells when it may continue.
func (s *Sim) point(what string, ready func() bool) {
	if s.ending || s.fail != nil {
		panic(killPanic{})
	}
	self := s.cur
	self.what = what
	self.ready = ready
	t := s.pick(self)
	if t != self {
		if t == nil {
			if s.fail == nil {
				s.fail = s.deadlock()
			}
			panic(killPanic{})
		}
		s.chosen = t
		if !self.yield(0) {
			panic(killPanic{})
		}
		s.cur = self
	}
	self.ready = nil
	if s.fail != nil || s.ending {
		panic(killPanic{})
	}
}

// Point is a plain scheduling point.
func Point(what string) {
	if S.running() {
		S.point(what, nil)
	}
}

// Block waits until ready() holds. Outside simulations it panics when it would wait.
func Block(what string, ready func() bool) {
	if S.running() {
		S.point(what, ready)
		return
	}
	if S != nil && S.ending {
		panic(killPanic{})
	}
	if !ready() {
		Fail("deadlock", "deadlock: a single-threaded call would block for ever: %s", what)
	}
}

// Ending tells that the simulation is being torn down (deferred calls become no-ops).
func Ending() bool { return S != nil && (S.ending || S.fail != nil) }

// Go starts a controlled goroutine.
func Go(f func()) { GoNamed("goroutine", f) }

// GoNamed starts a controlled goroutine with a name.
func GoNamed(name string, f func()) {
	if Ending() {
		panic(killPanic{})
	}
	if !S.running() {
		Fail("harness", "go statement outside a simulation")
	}
	S.spawn(name, f, S.cur)
	S.point("go", nil)
}

// Yield lets others run (runtime.Gosched): a free switch point.
func Yield() {
	if S.running() {
		S.point("gosched", nil)
	}
}

// Idle waits until every other thread is blocked or done, without letting time pass.
func Idle() {
	s := S
	self := s.cur
	self.idle = true
	s.point("idle", nil)
	self.idle = false
	for _, t := range s.threads {
		self.vc.join(t.vc)
	}
}

// IdleUntil lets the rest of the system run to virtual time at (absolute, ns), then waits for idleness.
func IdleUntil(at int64) {
	s := S
	done := false
	s.addTimer(at, "harness deadline", func() { done = true }).harness = true
	self := s.cur
	self.idle = true
	s.point("harness waits", func() bool { return done })
	self.idle = false
	Idle()
}

// Unfinished lists the threads other than the current one that are not done.
func Unfinished() []*Thread {
	var out []*Thread
	for _, t := range S.threads {
		if !t.done && t != S.cur {
			out = append(out, t)
		}
	}
	return out
}

// What tells what the thread is blocked on.
func (t *Thread) What() string { return t.what }

// UnfinishedNames describes them.
func UnfinishedNames() string {
	var b []string
	for _, t := range Unfinished() {
		b = append(b, fmt.Sprintf("%s: %s", t.Name, t.what))
	}
	sort.Strings(b)
	return strings.Join(b, "; ")
}

// Stalled is the time that passed while a thread could run.
func Stalled() int64 { return S.stalled }

// PendingTimers is the number of timers that have not fired.
func PendingTimers() int { return len(S.timers) }

func (s *Sim) addTimer(at int64, what string, fire func()) *vtimer {
	s.tseq++
	t := &vtimer{at: at, seq: s.tseq, fire: fire, active: true, pending: true, what: what}
	s.timers = append(s.timers, t)
	return t
}

func (s *Sim) delTimer(t *vtimer) bool {
	for i, u := range s.timers {
		if u == t {
			s.timers = append(s.timers[:i:i], s.timers[i+1:]...)
			t.pending = false
			return true
		}
	}
	return false
}

// TimerHandle is a running virtual timer.
type TimerHandle struct{ t *vtimer }

// StartTimer arranges for fire to be called (by the clock) d from now.
func StartTimer(d int64, what string, fire func()) *TimerHandle {
	if Ending() {
		panic(killPanic{})
	}
	if !S.running() {
		return &TimerHandle{}
	}
	s := S
	if d < s.MinTimer {
		d = s.MinTimer
	}
	at := s.now + d
	if at < s.now {
		at = 1<<63 - 1
	}
	s.TimersMade++
	vc := s.cur.vc.copy()
	s.cur.tick()
	h := &TimerHandle{}
	h.t = s.addTimer(at, what, nil)
	h.t.vc = vc
	h.t.fire = fire
	return h
}

// StopTimer cancels it; true: it had not fired.
func (h *TimerHandle) StopTimer() bool {
	if h == nil || h.t == nil || S == nil {
		return false
	}
	if S.running() {
		S.point("timer.Stop", nil)
	}
	return S.delTimer(h.t)
}

// VC is the clock of whoever started the timer.
func (h *TimerHandle) VC() VC {
	if h == nil || h.t == nil {
		return nil
	}
	return h.t.vc
}

// SpawnFromClock starts a goroutine on behalf of a timer.
func SpawnFromClock(name string, f func(), vc VC) {
	p := &Thread{vc: vc.copy()}
	S.spawn(name, f, p)
}

// TimersMade counts the timers created so far in this execution.
func TimersMade() int64 { return S.TimersMade }

// InSim tells whether a controlled execution is running.
func InSim() bool { return S.running() }

// StartTimerFromClock is StartTimer callable while the clock fires timers.
func StartTimerFromClock(d int64, what string, fire func()) *TimerHandle {
	return StartTimer(d, what, fire)
}

// Forget drops the timer without a scheduling point.
func (h *TimerHandle) Forget() {
	if h != nil && h.t != nil && S != nil {
		S.delTimer(h.t)
	}
}
