package rt

import (
	"bytes"
	"strings"
)

type runaway struct{}

var ticks, tickLimit int64 = 0, 1 << 62

// Tick is called at every loop iteration and function entry of the code under test.
func Tick() {
	ticks++
	if ticks > tickLimit {
		if S != nil && S.running() {
			tickLimit = 1 << 62
			S.failNow(&Failure{Key: "runaway", Msg: "an operation did not finish within its step budget (endless loop or recursion)"})
		}
		panic(runaway{})
	}
}

// Moved counts the elements moved by copy and append in instrumented code.
var Moved int64

// Cost is the number of steps taken and elements moved so far.
func Cost() int64 { return ticks + Moved }

// Budget allows n further ticks.
func Budget(n int64) { tickLimit = ticks + n }

// Call runs f under a step budget and reports whether it panicked. A budget overrun is re-raised.
func Call(budget int64, f func()) (panicked bool, msg string) {
	Budget(budget)
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case runaway, failPanic, prunePanic, skipPanic, killPanic, fsStop:
				panic(r)
			}
			panicked = true
			msg = shortPanic(r)
		}
		tickLimit = 1 << 62
	}()
	f()
	return
}

func shortPanic(r interface{}) string {
	if e, ok := r.(error); ok {
		return e.Error()
	}
	if s, ok := r.(string); ok {
		return s
	}
	return "panic"
}

func trimStack(b []byte) string {
	lines := strings.Split(string(bytes.TrimSpace(b)), "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}
