// Package limx holds the reference models of the rate limiters.
package limx

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
	"github.com/ahKevinXy/go-web-tools/zzverif/vh"
)

// Model is a sequential reference limiter. Try returns "ok" or a refusal.
type Model interface {
	Try(now int64) string
	Clone() Model
}

// Fixed window: at most Limit per window; a request more than Window after the start opens a new one.
type Fixed struct {
	Limit  int
	Window int64
	start  int64
	n      int
}

func NewFixed(limit int, w time.Duration, now int64) *Fixed { return &Fixed{limit, int64(w), now, 0} }
func (m *Fixed) Clone() Model                               { c := *m; return &c }
func (m *Fixed) Try(now int64) string {
	if now-m.start > m.Window {
		m.start, m.n = now, 0
	}
	if m.n >= m.Limit {
		return "no"
	}
	m.n++
	return "ok"
}

// Strategy of a sliding log.
type Strategy struct {
	Limit  int
	Window int64
}

// Log is the sliding log over aligned slots (a sliding window is a log with one strategy).
type Log struct {
	Slot int64
	S    []Strategy // larger windows first
	adm  []int64    // slot index of every admitted request
	Only bool       // refusals do not name the strategy
}

func NewLog(slot time.Duration, only bool, s ...Strategy) *Log {
	s = append([]Strategy{}, s...)
	sort.SliceStable(s, func(i, j int) bool {
		if s[i].Window != s[j].Window {
			return s[i].Window > s[j].Window
		}
		return s[i].Limit > s[j].Limit
	})
	return &Log{Slot: int64(slot), S: s, Only: only}
}
func (m *Log) Clone() Model { c := *m; c.adm = append([]int64{}, m.adm...); return &c }
func (m *Log) Try(now int64) string {
	cur := now / m.Slot
	refusals := ""
	for _, s := range m.S {
		from := cur - s.Window/m.Slot + 1
		n := 0
		for i := len(m.adm) - 1; i >= 0; i-- {
			if m.adm[i] >= from {
				n++
			}
		}
		if n >= s.Limit {
			if m.Only {
				return "no"
			}
			refusals += fmt.Sprintf("|no:%d/%d", s.Limit, s.Window)
		}
	}
	if refusals != "" {
		return refusals[1:]
	}
	m.adm = append(m.adm, cur)
	return "ok"
}

// Leaky bucket: drains Rate per whole second since the last draining.
type Leaky struct {
	Peak, Rate int
	level      int
	last       int64
}

func NewLeaky(peak, rate int, now int64) *Leaky { return &Leaky{peak, rate, 0, now} }
func (m *Leaky) Clone() Model                   { c := *m; return &c }
func (m *Leaky) Try(now int64) string {
	if d := (now - m.last) / 1e9; d >= 1 {
		m.last = now
		if m.Rate > 0 && (d > int64(m.level) || int(d) > m.level/m.Rate) {
			m.level = 0
		} else {
			m.level -= int(d) * m.Rate
		}
	}
	if m.level >= m.Peak {
		return "no"
	}
	m.level++
	return "ok"
}

// Token bucket: starts empty, gains Rate per whole second since the last gain, up to Cap.
type Token struct {
	Cap, Rate int
	n         int
	last      int64
}

func NewToken(c, rate int, now int64) *Token { return &Token{c, rate, 0, now} }
func (m *Token) Clone() Model                { c := *m; return &c }
func (m *Token) Try(now int64) string {
	if d := (now - m.last) / 1e9; d >= 1 {
		m.last = now
		if free := m.Cap - m.n; m.Rate > 0 && (d > int64(free) || int(d) > free/m.Rate) {
			m.n = m.Cap
		} else {
			m.n += int(d) * m.Rate
		}
	}
	if m.n <= 0 {
		return "no"
	}
	m.n--
	return "ok"
}

// Now is the virtual wall clock in Unix nanoseconds.
func Now() int64 { return rt.BaseTime + rt.Now() }

// Bool turns a TryAcquire result into the model's form.
func Bool(ok bool) string {
	if ok {
		return "ok"
	}
	return "no"
}

// Instance is an implementation with its model.
type Instance struct {
	Try   func() string
	Model Model
	adm   []int64
}

// Adm lists the times of the admitted requests.
func (i *Instance) Adm() []int64 { return i.adm }

// Step makes one request and compares.
func (i *Instance) Step() string {
	var got string
	vh.Do("TryAcquire", func() { got = i.Try() })
	want := i.Model.Try(Now())
	if got == "ok" {
		i.adm = append(i.adm, Now())
	}
	rt.Tracef("t=%d TryAcquire -> %s", rt.Now(), got)
	vh.Check(agrees(got, want), "admission", "at +%d ns: TryAcquire said %s, the reference says %s", rt.Now(), got, want)
	return got
}

// agrees: a refusal may name any of the violated strategies.
func agrees(got, want string) bool {
	for _, w := range strings.Split(want, "|") {
		if got == w {
			return true
		}
	}
	return false
}

// Window checks that no interval of length span (half open) holds more than limit admissions.
func Window(adm []int64, span int64, limit int, what string) {
	j := 0
	for i := range adm {
		for adm[i]-adm[j] >= span {
			j++
		}
		vh.Check(i-j+1 <= limit, "window-guarantee", "%s: %d requests admitted within %d ns, limit %d", what, i-j+1, adm[i]-adm[j], limit)
	}
}

// Sequences: every sequence of (wait, burst of requests) up to the depth.
func Sequences(depth int, waits []int64, bursts []int, mk func() *Instance, end func(*Instance)) func() {
	return func() {
		rt.SetClock(0)
		in := mk()
		for s := 0; s < depth; s++ {
			w := waits[rt.Choose(len(waits))]
			rt.AdvanceClock(w)
			for b := bursts[rt.Choose(len(bursts))]; b > 0; b-- {
				in.Step()
			}
		}
		if end != nil {
			end(in)
		}
	}
}

// Pair: two instances of the same configuration must not influence each other.
func Pair(depth int, waits []int64, mk func() *Instance) func() {
	return func() {
		rt.SetClock(0)
		in := []*Instance{mk(), mk()}
		for s := 0; s < depth; s++ {
			rt.AdvanceClock(waits[rt.Choose(len(waits))])
			in[rt.Choose(2)].Step()
		}
	}
}

// Long: deterministic request streams (constant period, bursts) over many windows.
func Long(n int, periods []int64, bursts []int, mk func() *Instance, end func(*Instance)) func() {
	return func() {
		rt.SetClock(0)
		in := mk()
		p := periods[rt.Choose(len(periods))]
		b := bursts[rt.Choose(len(bursts))]
		idle := rt.Choose(3) // an idle stretch in the middle
		for s := 0; s < n; s++ {
			for k := 0; k < b; k++ {
				in.Step()
			}
			d := p
			if s%7 == 3 {
				d += p/2 + 1
			}
			if s == n/2 && idle > 0 && p < 1e15 {
				d = p*int64(n)*int64(idle) + 3
			}
			rt.AdvanceClock(d)
		}
		if end != nil {
			end(in)
		}
	}
}

// Extreme: a few bursts with waits, for configurations with very large numbers.
func Extreme(waits []int64, mk func() *Instance) func() {
	return func() {
		rt.SetClock(0)
		in := mk()
		for s := 0; s < 4; s++ {
			n := len(waits)
			if s == 0 {
				n++
			}
			if w := rt.Choose(n); w == len(waits) {
				rt.AdvanceClock(2400e15) // more seconds than 31 bits hold
			} else {
				rt.AdvanceClock(waits[w])
			}
			for b := []int{1, 5}[rt.Choose(2)]; b > 0; b-- {
				in.Step()
			}
		}
	}
}

// Many: limits that a burst can reach and pass, twice.
func Many(limit int, waits []int64, mk func() *Instance) func() {
	return func() {
		rt.SetClock(0)
		in := mk()
		for s := 0; s < 2; s++ {
			rt.AdvanceClock(waits[rt.Choose(len(waits))])
			for b := limit + 2; b > 0; b-- {
				in.quiet()
			}
		}
	}
}

func (i *Instance) quiet() {
	var got string
	vh.Do("TryAcquire", func() { got = i.Try() })
	want := i.Model.Try(Now())
	if got != want {
		vh.Check(agrees(got, want), "admission", "at +%d ns: TryAcquire said %s, the reference says %s", rt.Now(), got, want)
	}
}

// Call is one concurrent request.
type Call struct {
	Who      int
	Inv, Ret int64 // logical order of invocation and return
	T0, T1   int64 // virtual time at invocation and return
	Res      string
}

// Linearizable tells whether the calls are explained by some order and some times (clock: the values the clock took) within the calls.
func Linearizable(m Model, calls []Call, clock []int64) bool {
	return linearizable(m.Clone(), calls, clock, false) || linearizable(m, calls, within(calls, clock), true)
}

// within adds moments that passed inside the longer calls: the clock of a stopped caller ran on
func within(calls []Call, clock []int64) []int64 {
	l := append([]int64{}, clock...)
	seen := map[int64]bool{}
	for _, c := range calls {
		l = append(l, c.T0, c.T1)
		for t := c.T0 - c.T0%5e8 + 5e8; t < c.T1; t += 5e8 {
			if !seen[t] {
				seen[t] = true
				l = append(l, t)
			}
		}
	}
	return l
}

// ordered: the times never go back
func linearizable(m Model, calls []Call, clock []int64, ordered bool) bool {
	done := make([]bool, len(calls))
	var rec func(m Model, left int, last int64) bool
	rec = func(m Model, left int, last int64) bool {
		if left == 0 {
			return true
		}
		for i, c := range calls {
			if done[i] {
				continue
			}
			first := true
			for j, d := range calls {
				if !done[j] && j != i && d.Ret < c.Inv {
					first = false
					break
				}
			}
			if !first {
				continue
			}
			ts := map[int64]bool{c.T0: true, c.T1: true}
			for _, t := range clock {
				if t > c.T0 && t < c.T1 {
					ts[t] = true
				}
			}
			for t := range ts {
				if ordered && t < last {
					continue
				}
				n := m.Clone()
				if n.Try(t) == c.Res {
					done[i] = true
					if rec(n, left-1, t) {
						return true
					}
					done[i] = false
				}
			}
		}
		return false
	}
	return rec(m, len(calls), -1<<63)
}
