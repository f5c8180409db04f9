package rt

import "syscall"

// File system operations of the code under test reach the real package os through zzverif/shim/os. Each is a scheduling
// point; with FSHook it is also a point at which the operation may fail or the process may stop.

// FSAct says what becomes of one operation: it happens; it fails; the process stops before it. Of a write, N bytes are
// written before it fails or the process stops.
type FSAct struct {
	Kind int
	N    int
}

const (
	FSGo = iota
	FSFail
	FSStop
)

// FSHook decides on each operation (change: it changes something; n: the bytes of a write).
var FSHook func(op, path string, n int, change bool) FSAct

// FSDead is set from the moment the process "stopped": nothing has any effect any more.
var FSDead bool

// FSGone, when set, is called after a run: of one that stopped, the system takes the files the process had open.
var FSGone func()

// FSOps counts the operations.
var FSOps int64

type fsStop struct{}

// FS is the point before an operation.
func FS(op, path string, n int, change bool) FSAct {
	FSOps++
	if FSDead {
		panic(fsStop{})
	}
	if S.running() {
		S.point(op+" "+path, nil)
	}
	if FSHook == nil {
		return FSAct{FSGo, n}
	}
	a := FSHook(op, path, n, change)
	if a.Kind == FSGo {
		a.N = n
	}
	if a.Kind == FSStop && a.N == 0 {
		FSHalt()
	}
	return a
}

// FSHalt ends the process under test.
func FSHalt() {
	FSDead = true
	panic(fsStop{})
}

// FSErr is the error of an operation that fails.
const FSErr = syscall.EIO

// FSRun runs f with hook and tells whether the process was stopped.
func FSRun(hook func(op, path string, n int, change bool) FSAct, f func()) (stopped bool) {
	FSHook, FSDead = hook, false
	defer func() {
		FSHook = nil
		if FSGone != nil {
			FSGone()
		}
		if FSDead {
			FSDead = false
			r := recover()
			if _, ok := r.(fsStop); ok || r == nil { // a stop the code recovered from is a stop still
				stopped = true
				return
			}
			panic(r)
		}
	}()
	f()
	return FSDead
}
