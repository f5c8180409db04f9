package rt

// SimNo and ExecNo number the simulations and the executions of this process; objects of the code under test that
// outlive an execution (package-level mutexes, say) tell by them that they are seen for the first time in a new one.
var SimNo, ExecNo int64

// Ep is the simulation and execution an object was last used in.
type Ep struct{ sim, exec int64 }

// Turn brings e up to date and tells what is new.
func (e *Ep) Turn() (sim, exec bool) {
	if e.sim == SimNo && e.exec == ExecNo {
		return false, false
	}
	sim, exec = e.sim != SimNo, e.exec != ExecNo
	e.sim, e.exec = SimNo, ExecNo
	return
}

var undo []func()

// OnAbort registers what puts a lasting object back when the execution is given up half way.
func OnAbort(f func()) { undo = append(undo, f) }

func endExec(aborted bool) {
	if aborted {
		for i := len(undo) - 1; i >= 0; i-- {
			undo[i]()
		}
	}
	undo = undo[:0]
}
