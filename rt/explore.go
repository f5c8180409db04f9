// Package rt is the model-checking runtime: a stateless depth-first explorer over every
// nondeterministic choice of an execution (operation, input, map order, schedule, clock), and
// (sched.go) a controlled scheduler with virtual time and a happens-before race detector.
package rt

import (
	"fmt"
	"runtime/debug"
	"time"
)

type rec struct {
	n, v   int
	costly bool
}

// Failure is one violated expectation, found in one execution.
type Failure struct {
	Key    string   // stable identity of what failed (matched against known findings)
	Msg    string   // human readable
	Trace  []string // what the execution did
	Choice []int    // the choices that reproduce it
}

type failPanic struct{ f *Failure }
type prunePanic struct{}
type skipPanic struct{}

// Explorer is one depth-first search.
type Explorer struct {
	Bound    int // deviation bound
	Shard    int
	NShards  int
	Split    int  // how many leading free choices are hashed to distribute the tree over the shards
	SplitDev bool // distribute by the first deviation instead
	MaxSeen  int
	Deadline time.Time
	MaxExec  int64

	stack []rec
	pos   int
	cost  int
	mix   uint64
	mixed int

	// per execution
	trace     []string
	labels    []string
	seen      map[uint64]int
	Ticks     int64
	Budget    int64
	dropped   bool
	replayFix bool

	// statistics
	Execs       int64
	Pruned      int64
	Choices     int64
	Transitions int64
	Points      int64
	Divergences int64
	Capped      bool
	MaxDepth    int
	Outcomes    map[string]int64
	BoundCut    int64
	OnExec      func()
	OnDone      func(trace []string)
	Tick        func()
}

var X *Explorer // the running exploration; executions are strictly sequential in one process

func NewExplorer() *Explorer {
	return &Explorer{Bound: 1 << 30, NShards: 1, seen: map[uint64]int{}, Outcomes: map[string]int64{}}
}

func (e *Explorer) choose(n int, costly bool) int {
	if n <= 0 {
		panic("rt: Choose(0)")
	}
	if n == 1 {
		return 0
	}
	var v int
	if e.pos < len(e.stack) {
		r := e.stack[e.pos]
		if e.replayFix && r.n == -1 {
			if r.v >= n {
				r.v = n - 1
			}
			r.n, r.costly = n, costly
			e.stack[e.pos] = r
		}
		if r.n != n || r.costly != costly {
			e.Divergences++
			e.dropped = true
			panic(skipPanic{})
		}
		v = r.v
	} else {
		e.stack = append(e.stack, rec{n: n, costly: costly})
		e.Choices++
	}
	e.pos++
	if costly && v > 0 {
		e.cost++
		if e.cost == 1 && e.SplitDev && e.NShards > 1 && !e.replayFix {
			h := e.mix*1000003 + uint64(e.pos)*31 + uint64(v)
			if int((h*0x9E3779B97F4A7C15>>33)%uint64(e.NShards)) != e.Shard {
				panic(skipPanic{})
			}
		}
	}
	if e.SplitDev && !costly && e.cost == 0 {
		e.mix = e.mix*31 + uint64(v) + 7
	}
	if !e.SplitDev && e.mixed < e.Split && !costly {
		e.mixed++
		e.mix = e.mix*31 + uint64(v) + 7
		if e.mixed == e.Split && e.NShards > 1 && int((e.mix*0x9E3779B97F4A7C15>>33)%uint64(e.NShards)) != e.Shard {
			panic(skipPanic{})
		}
	}
	return v
}

// Choose makes a free choice among n alternatives.
func Choose(n int) int {
	if X == nil {
		return 0
	}
	return X.choose(n, false)
}

// Deviate makes a choice whose alternatives other than 0 count against the deviation bound.
func Deviate(n int) int {
	if X == nil {
		return 0
	}
	return X.choose(n, true)
}

// Perm freely chooses one permutation of 0..n-1.
func Perm(n int) []int {
	left := make([]int, n)
	for i := range left {
		left[i] = i
	}
	out := make([]int, 0, n)
	for len(left) > 0 {
		i := Choose(len(left))
		out = append(out, left[i])
		left = append(append([]int{}, left[:i]...), left[i+1:]...)
	}
	return out
}

// Tracef adds a line to the trace of this execution.
func Tracef(format string, a ...interface{}) {
	if X != nil {
		X.labels = append(X.labels, "")
		X.trace = append(X.trace, fmt.Sprintf(format, a...))
	}
}

// TraceS adds a constant label (cheap).
func TraceS(s string) {
	if X != nil {
		X.trace = append(X.trace, s)
	}
}

// Transition counts n steps of the implementation.
func Transition(n int64) {
	if X != nil {
		X.Transitions += n
	}
}

// Fail ends the execution with a violation.
func Fail(key, format string, a ...interface{}) {
	f := &Failure{Key: key, Msg: fmt.Sprintf(format, a...)}
	if S != nil && S.running() {
		S.failNow(f)
	}
	panic(failPanic{f})
}

// Prune ends the execution quietly: its future was already explored.
func Prune() { panic(prunePanic{}) }

// Seen records that the state with this fingerprint is about to be explored for `left` more steps.
// It prunes the execution when the state was already explored for at least as many.
func Seen(fp uint64, left int) {
	e := X
	if e == nil || e.replayFix || e.pos < len(e.stack) { // replaying a prefix: this state is on the current path
		return
	}
	if e.NShards > 1 && !e.SplitDev && e.mixed < e.Split { // shared by all shards: never prune here
		return
	}
	if l, ok := e.seen[fp]; ok && l >= left {
		e.Pruned++
		panic(prunePanic{})
	}
	if e.MaxSeen > 0 && len(e.seen) >= e.MaxSeen {
		return
	}
	e.seen[fp] = left
}

// Fingerprints calls f for every recorded state.
func (e *Explorer) Fingerprints(f func(uint64)) {
	for k := range e.seen {
		f(k)
	}
}

// TraceCopy is the trace of the last execution.
func (e *Explorer) TraceCopy() []string { return append([]string{}, e.trace...) }

// Prefix is the choice prefix about to be executed.
func (e *Explorer) Prefix() []int {
	c := []int{}
	for _, r := range e.stack {
		c = append(c, r.v)
	}
	return c
}

// Current is the choice sequence of the running execution.
func (e *Explorer) Current() []int { return e.choices() }

// States is the number of distinct fingerprints recorded by Seen.
func (e *Explorer) States() int { return len(e.seen) }

// Outcome counts distinct observed outcomes.
func Outcome(s string) {
	if X != nil {
		if _, ok := X.Outcomes[s]; ok || len(X.Outcomes) < 5000 {
			X.Outcomes[s]++
		}
	}
}

func (e *Explorer) reset() {
	e.pos, e.cost, e.mix, e.mixed = 0, 0, 0, 0
	e.trace = e.trace[:0]
	e.labels = e.labels[:0]
	e.dropped = false
	e.Ticks = 0
}

// RunOnce executes body once, following the current stack. ok=false: not an execution of this shard.
func (e *Explorer) runOnce(body func()) (fail *Failure, counted bool) {
	e.reset()
	ExecNo++
	counted = true
	aborted := false
	defer func() {
		if r := recover(); r != nil {
			switch p := r.(type) {
			case failPanic:
				fail = p.f
			case prunePanic:
				aborted = true
			case skipPanic:
				counted, aborted = false, true
			case runaway:
				fail = &Failure{Key: "runaway", Msg: "an operation did not finish within its step budget (endless loop or recursion)"}
			default:
				fail = &Failure{Key: "panic", Msg: fmt.Sprintf("unexpected panic: %v\n%s", r, trimStack(debug.Stack()))}
			}
		}
		if fail != nil && fail.Choice == nil {
			fail.Trace = append([]string{}, e.trace...)
			fail.Choice = e.choices()
		}
		if counted && e.NShards > 1 && e.Shard != 0 && !e.replayFix && ((!e.SplitDev && e.mixed < e.Split) || (e.SplitDev && e.cost == 0)) {
			counted = false
			fail = nil
		}
		S = nil
		endExec(aborted || fail != nil)
	}()
	body()
	return
}

func (e *Explorer) choices() []int {
	c := make([]int, 0, e.pos)
	for i := 0; i < e.pos && i < len(e.stack); i++ {
		c = append(c, e.stack[i].v)
	}
	return c
}

// next moves to the next unexplored choice sequence; false: the tree is exhausted.
func (e *Explorer) next() bool {
	c := 0 // deviations on the stack
	for j := range e.stack {
		if e.stack[j].costly && e.stack[j].v > 0 {
			c++
		}
	}
	for len(e.stack) > 0 {
		i := len(e.stack) - 1
		r := &e.stack[i]
		if r.v+1 < r.n && !(r.costly && r.v == 0 && c+1 > e.Bound) {
			r.v++
			return true
		}
		if r.v+1 < r.n {
			e.BoundCut++
		}
		if r.costly && r.v > 0 {
			c--
		}
		e.stack = e.stack[:i]
	}
	return false
}

// Explore runs body over the whole tree (up to the deviation bound) until a failure that
// `accept` does not swallow.
func (e *Explorer) Explore(body func(), accept func(*Failure) bool) *Failure {
	X = e
	defer func() { X = nil }()
	e.stack = e.stack[:0]
	for {
		if e.OnExec != nil {
			e.OnExec()
		}
		if e.Tick != nil {
			e.Tick()
		}
		f, counted := e.runOnce(body)
		if counted {
			e.Execs++
			if e.OnDone != nil && (e.Execs < 4 || e.Execs&(e.Execs-1) == 0) {
				e.OnDone(e.trace)
			}
			if e.pos > e.MaxDepth {
				e.MaxDepth = e.pos
			}
			if f != nil && !accept(f) {
				return f
			}
		}
		if e.pos < len(e.stack) {
			// the execution consumed fewer choices than its prefix: treat as divergence, drop the rest
			if counted && f == nil && !e.dropped {
				e.Divergences++
			}
			e.stack = e.stack[:e.pos]
		}
		if !e.next() {
			return nil
		}
		if e.Execs&63 == 0 {
			if !e.Deadline.IsZero() && time.Now().After(e.Deadline) {
				e.Capped = true
				return nil
			}
		}
		if e.MaxExec > 0 && e.Execs >= e.MaxExec {
			e.Capped = true
			return nil
		}
	}
}

// Replay runs body with the given choices.
func (e *Explorer) Replay(body func(), choices []int) *Failure {
	X = e
	defer func() { X = nil }()
	e.Split, e.SplitDev, e.NShards = 0, false, 1
	e.replaying(choices)
	f, _ := e.runReplay(body)
	return f
}

func (e *Explorer) replaying(choices []int) {
	e.stack = e.stack[:0]
	for _, c := range choices {
		e.stack = append(e.stack, rec{n: -1, v: c})
	}
}

func (e *Explorer) runReplay(body func()) (*Failure, bool) {
	// in replay mode n is unknown: accept whatever the execution asks
	e.replayFix = true
	defer func() { e.replayFix = false }()
	return e.runOnce(body)
}
