// Package sym is the interface between harnesses and the symbolic engine: arbitrary inputs,
// assumptions, assertions and reachability witnesses. In the engine every function here is
// interpreted by the engine itself; in the native replay build (tag vreplay) the inputs are
// read from the solver's assignment and assertions are evaluated for real.
package sym

import _ "verif/harness/vm" // the modelled environment is always present

// Outcome says how a call ended.
type Outcome struct {
	Kind int // Returned, Panicked or Exited
	Code int
	Msg  string
}

const (
	Returned = 0
	Panicked = 1
	Exited   = 2
)

// Catch runs f and reports whether it returned, panicked or ended the process.
func Catch(f func()) Outcome {
	k, c, m := catch(f)
	return Outcome{k, c, m}
}

// Implies is a -> b.
func Implies(a, b bool) bool { return Or(Not(a), b) }

// Not negates without forking.
func Not(a bool) bool { return a == false }

// EqBytes compares byte strings without forking.
func EqBytes(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = And(r, a[i] == b[i])
	}
	return r
}

// EqStr compares strings without forking.
func EqStr(a, b string) bool { return a == b }

// Len picks a length from 0..max.
func Len(name string, max int) int { return Choose(name, max+1) }
