// Package vh is the harness library: scenarios, bounds, sharding, replay and reporting.
package vh

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
)

// Scenario is one bounded space of executions.
type Scenario struct {
	Name     string
	Thorough bool // only in the thorough tier
	Split    int  // leading free choices that distribute the tree over the shards
	SplitDev bool // distribute by first deviation
	Bound    int  // deviation bound (0: none allowed), quick
	BoundT   int  // thorough (0: same as Bound)
	Body     func()
}

// ScenarioReport is what one shard covered of one scenario.
type ScenarioReport struct {
	Execs       int64 `json:"execs"`
	States      int64 `json:"states"`
	Nodes       int64 `json:"nodes"`
	Transitions int64 `json:"transitions"`
	Points      int64 `json:"points"`
	MaxDepth    int   `json:"max_depth"`
	Pruned      int64 `json:"pruned"`
	Capped      bool  `json:"capped"`
	Bound       int   `json:"bound"`
	BoundCut    int64 `json:"bound_cut"`
	Divergences int64 `json:"divergences"`
	Outcomes    int   `json:"outcomes"`
	Seconds     float64
}

// Violation is a failing execution.
type Violation struct {
	Scenario string   `json:"scenario"`
	Key      string   `json:"key"`
	Msg      string   `json:"msg"`
	Trace    []string `json:"trace"`
	Choice   []int    `json:"choice"`
	Repro    int      `json:"repro"`
}

// Report is the output of one shard.
type Report struct {
	Scenarios  map[string]*ScenarioReport `json:"scenarios"`
	Violations []Violation                `json:"violations"`
	Known      map[string]Violation       `json:"known"`
	KnownHits  map[string]int64           `json:"known_hits"`
	Samples    []Sample                   `json:"samples"`
}

// Sample is one execution written out.
type Sample struct {
	Scenario string   `json:"scenario"`
	Trace    []string `json:"trace"`
}

// Thorough tells the tier.
var Thorough bool

// Scratch is a directory the harness may write in.
var Scratch string

// D picks a bound by tier.
func D(quick, thorough int) int {
	if Thorough {
		return thorough
	}
	return quick
}

// Main runs the scenarios of a property.
func Main(id string, scs func() []Scenario) {
	tier := flag.String("tier", "quick", "")
	shard := flag.Int("shard", 0, "")
	nshards := flag.Int("n", 1, "")
	out := flag.String("out", "", "")
	scratch := flag.String("scratch", "", "")
	replay := flag.String("replay", "", "scenario:c,c,c")
	known := flag.String("known", "", "comma separated failure keys already recorded")
	secs := flag.Float64("seconds", 300, "")
	only := flag.String("only", "", "")
	merge := flag.Bool("merge", false, "count distinct fingerprints in the given files")
	fps := flag.String("fps", "", "")
	journal := flag.String("journal", "", "")
	verbose := flag.Bool("v", false, "")
	flag.Parse()
	if *merge {
		m := map[uint64]struct{}{}
		for _, f := range flag.Args() {
			b, _ := os.ReadFile(f)
			for i := 0; i+8 <= len(b); i += 8 {
				m[binary.LittleEndian.Uint64(b[i:])] = struct{}{}
			}
		}
		fmt.Println(len(m))
		return
	}
	signal.Ignore(syscall.SIGXFSZ)
	debug.SetMaxStack(512 << 20)
	Thorough = *tier == "thorough"
	Scratch = *scratch
	if Scratch == "" {
		d, err := os.MkdirTemp("", "vh")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		Scratch = d
		defer os.RemoveAll(d)
	}
	Scratch = filepath.Clean(Scratch)
	list := scs()
	if *replay != "" {
		doReplay(list, *replay)
		return
	}
	rep := &Report{Scenarios: map[string]*ScenarioReport{}, Known: map[string]Violation{}, KnownHits: map[string]int64{}}
	knownKeys := map[string]bool{}
	for _, k := range strings.Split(*known, ",") {
		if k != "" {
			knownKeys[k] = true
		}
	}
	start := time.Now()
	deadline := start.Add(time.Duration(*secs * float64(time.Second)))
	var progress int64
	var curE *rt.Explorer
	var curName string
	write := func() {
		b, _ := json.Marshal(rep)
		if *out == "" {
			os.Stdout.Write(append(b, '\n'))
		} else {
			os.WriteFile(*out, b, 0o644)
		}
	}
	go func() { // watchdog: an execution that neither ends nor ticks for a long time is a hang
		last, at := int64(-1), time.Now()
		for {
			time.Sleep(time.Second)
			p := atomic.LoadInt64(&progress)
			if p != last {
				last, at = p, time.Now()
				continue
			}
			if time.Since(at) > 90*time.Second && curE != nil {
				rep.Violations = append(rep.Violations, Violation{Scenario: curName, Key: "hang", Msg: "an execution made no progress for 90 s", Choice: curE.Current(), Trace: curE.TraceCopy()})
				write()
				os.Exit(7)
			}
		}
	}()
	var all []byte
	for i, sc := range list {
		if sc.Thorough && !Thorough {
			continue
		}
		if *only != "" && !strings.Contains(sc.Name, *only) {
			continue
		}
		e := rt.NewExplorer()
		e.Bound = sc.Bound
		if Thorough && sc.BoundT > 0 {
			e.Bound = sc.BoundT
		}
		e.MaxSeen = 4 << 20
		e.Shard, e.NShards, e.Split, e.SplitDev = *shard, *nshards, sc.Split, sc.SplitDev
		if sc.Split == 0 && !sc.SplitDev {
			if i%*nshards != *shard {
				continue
			}
			e.Shard, e.NShards = 0, 1
		}
		e.Deadline = deadline
		curE, curName = e, sc.Name
		sr := &ScenarioReport{}
		sn := 0
		body := sc.Body
		e.Tick = func() { atomic.AddInt64(&progress, 1) }
		if *journal != "" {
			jf, _ := os.Create(*journal)
			e.OnExec = func() {
				b, _ := json.Marshal(map[string]interface{}{"scenario": sc.Name, "choice": e.Prefix()})
				jf.Truncate(0)
				jf.WriteAt(b, 0)
			}
		}
		e.OnDone = func(tr []string) {
			if sn < 2 && len(rep.Samples) < 6 && len(tr) > 0 {
				sn++
				if len(tr) > 40 {
					tr = append(append([]string{}, tr[:40]...), "...")
				}
				rep.Samples = append(rep.Samples, Sample{sc.Name, append([]string{}, tr...)})
			}
		}
		var bad *rt.Failure
		t0 := time.Now()
		bad = e.Explore(body, func(f *rt.Failure) bool {
			if knownKeys[f.Key] {
				rep.KnownHits[f.Key]++
				if _, ok := rep.Known[f.Key]; !ok {
					rep.Known[f.Key] = Violation{Scenario: sc.Name, Key: f.Key, Msg: f.Msg, Trace: f.Trace, Choice: f.Choice}
				}
				return true
			}
			return false
		})
		sr.Execs, sr.States, sr.Nodes, sr.Transitions, sr.Points = e.Execs, int64(e.States()), e.Choices, e.Transitions, e.Points
		sr.MaxDepth, sr.Pruned, sr.Capped, sr.Bound, sr.BoundCut, sr.Divergences, sr.Outcomes = e.MaxDepth, e.Pruned, e.Capped, e.Bound, e.BoundCut, e.Divergences, len(e.Outcomes)
		sr.Seconds = time.Since(t0).Seconds()
		rep.Scenarios[sc.Name] = sr
		if *verbose {
			fmt.Fprintf(os.Stderr, "%s: %+v\n", sc.Name, *sr)
		}
		if *fps != "" {
			h := FNV(sc.Name)
			e.Fingerprints(func(x uint64) {
				all = binary.LittleEndian.AppendUint64(all, x^h)
			})
		}
		if bad != nil {
			v := Violation{Scenario: sc.Name, Key: bad.Key, Msg: bad.Msg, Trace: bad.Trace, Choice: bad.Choice}
			for k := 0; k < 5; k++ {
				r := rt.NewExplorer()
				if f := r.Replay(body, bad.Choice); f != nil && f.Key == bad.Key {
					v.Repro++
				}
			}
			rep.Violations = append(rep.Violations, v)
			break // one violation is enough; the other shards look at the rest
		}
	}
	curE = nil
	if *fps != "" {
		os.WriteFile(*fps, all, 0o644)
	}
	write()
}

func doReplay(list []Scenario, spec string) {
	p := strings.LastIndex(spec, ":")
	name, cs := spec[:p], spec[p+1:]
	if strings.HasPrefix(cs, "@") {
		b, err := os.ReadFile(cs[1:])
		if err != nil {
			panic(err)
		}
		cs = string(b)
	}
	var ch []int
	for _, c := range strings.Split(cs, ",") {
		if c != "" {
			var v int
			fmt.Sscan(c, &v)
			ch = append(ch, v)
		}
	}
	for _, sc := range list {
		if sc.Name == name {
			r := rt.NewExplorer()
			f := r.Replay(sc.Body, ch)
			for _, l := range r.TraceCopy() {
				fmt.Println("  ", l)
			}
			if f != nil {
				fmt.Printf("FAILS key=%s\n%s\n", f.Key, f.Msg)
				os.Exit(1)
			}
			fmt.Println("HOLDS")
			return
		}
	}
	fmt.Println("no such scenario")
	os.Exit(2)
}

// FNV hashes a string.
func FNV(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// Do runs one operation of the implementation under a step budget; a panic is a failure.
func Do(name string, f func()) {
	rt.Transition(1)
	p, msg := rt.Call(5000000, f)
	if p {
		rt.Fail("panic:"+opName(name), "%s panicked: %s", name, msg)
	}
}

// DoN runs a script of about n operations under a step budget that grows with n.
func DoN(name string, n int, f func()) {
	rt.Transition(1)
	p, msg := rt.Call(5000000+20000*int64(n), f)
	if p {
		rt.Fail("panic:"+opName(name), "%s panicked: %s", name, msg)
	}
}

// Panics runs one operation and tells whether it panicked.
func Panics(name string, f func()) (bool, string) {
	rt.Transition(1)
	return rt.Call(5000000, f)
}

func opName(s string) string {
	if i := strings.IndexAny(s, "( "); i > 0 {
		return s[:i]
	}
	return s
}

// Check fails with key when !ok.
func Check(ok bool, key, format string, a ...interface{}) {
	if !ok {
		rt.Fail(key, format, a...)
	}
}

// Eq fails when the two values differ in their printed form.
func Eq(key string, got, want interface{}) {
	if g, w := fmt.Sprint(got), fmt.Sprint(want); g != w {
		rt.Fail(key, "%s: got %s, want %s", key, g, w)
	}
}

// SortedKeys helps printing maps.
func SortedKeys(m map[string]int) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

// Steps runs step up to depth times; fp fingerprints the state before each step (nil: no merging).
func Steps(depth int, fp func() uint64, step func(i int)) {
	for i := 0; i < depth; i++ {
		if fp != nil {
			rt.Seen(fp(), depth-i)
		}
		step(i)
	}
	if fp != nil {
		rt.Seen(fp(), 0)
	}
}

// Pattern returns the k-th deterministic value pattern of length n (Patterns of them).
func Pattern(k, n int) []int {
	v := make([]int, n)
	x := uint32(12345 + k*7919)
	for i := range v {
		switch k {
		case 0:
			v[i] = i
		case 1:
			v[i] = n - i
		case 2:
			v[i] = 5
		case 3:
			if i%2 == 0 {
				v[i] = i
			} else {
				v[i] = 2*n - i
			}
		case 4:
			v[i] = i % 3
		case 5:
			v[i] = (i * 7) % (n + 1)
		default:
			x = x*1664525 + 1013904223
			v[i] = int(x>>8) % (2*n + 1)
		}
	}
	return v
}

// Patterns is the number of patterns.
const Patterns = 9
