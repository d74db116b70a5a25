// Package c24: replacing the program is all or nothing and leaves it runnable.
package c24

import (
	"github.com/mashmb/1pass/1pass-up/component/github"

	"verif/harness/sym"
	"verif/harness/vm"
)

// bound: old and new programs of 1..4 symbolic bytes (and of 40000 bytes with symbolic ends), every mode of the downloaded file among 8; after every single change of the file system (the point where the process may be killed) the content is inspected; one operation failing at every point with 8 kinds of error, or none; a missing new program; three replacements in a row with 5 sets of stray files beside both programs, old programs of 5 modes
// bound: beyond: several faults at once, power loss (unsynced data), program and cache on different file systems

const src, exe = "/tmp/1pass/1pass", "/usr/local/bin/1pass"

func program(name string) []byte {
	k := sym.Choose(name+" size", 3)
	if k == 2 {
		b := make([]byte, 40000)
		copy(b, sym.Bytes(name+" head", 1))
		copy(b[len(b)-1:], sym.Bytes(name+" tail", 1))
		return b
	}
	return sym.Bytes(name, []int{1, 4}[k])
}

func whole(old, new []byte) bool {
	b, there := vm.ReadFile(exe)
	if !there {
		return false
	}
	return sym.Or(sym.EqBytes(b, old), sym.EqBytes(b, new))
}

// VerifReplace: faults and interruptions at every point.
func VerifReplace() {
	old, new := program("old"), program("new")
	mode := []int{0644, 0600, 0755, 0700, 0400, 0000, 0777, 0111}[sym.Choose("mode", 8)]
	vm.WriteFileMode(exe, old, 0755)
	vm.WriteFileMode(src, new, mode)
	vm.SetExecutable(exe)
	fault := sym.Choose("fault", 8)
	why := vm.ErrFault
	if fault > 0 && len(old)+len(new) < 9 {
		why = vm.Faults[sym.Choose("why", len(vm.Faults))]
	}
	n := 0
	ok := true
	vm.OnOp(func(op, path string) error {
		// before this change: what a process killed here leaves behind
		ok = sym.And(ok, whole(old, new))
		n++
		if n == fault {
			return why
		}
		return nil
	})
	var err error
	o := sym.Catch(func() { err = github.NewGithubUpdater().ReplaceBinary(src) })
	vm.OnOp(nil)
	sym.Assert(o.Kind == sym.Returned, "replacing neither crashes nor ends the program")
	sym.Assert(ok, "at every moment the program is the complete old or new one")
	sym.Assert(whole(old, new), "afterwards the program is the complete old or new one")
	b, _ := vm.ReadFile(exe)
	if err == nil {
		sym.Assert(sym.EqBytes(b, new), "after success the program is the new one")
		sym.Assert(vm.Mode(exe)&0111 == 0111 && vm.Mode(exe)&0444 == 0444, "after success the program can be run by everybody")
		sym.Assert(vm.Kind(exe) == vm.KindFile, "the program is a file")
		sym.Cover("replaced")
	} else {
		sym.Assert(vm.Mode(exe)&0111 != 0, "after a failure the program can still be run")
		sym.Cover("failed")
	}
	if fault == 0 {
		sym.Assert(err == nil, "without a fault replacing succeeds")
	}
}

// VerifMissing: no new program.
func VerifMissing() {
	old := program("old")
	vm.WriteFileMode(exe, old, 0755)
	vm.Mkdir("/tmp/1pass")
	vm.SetExecutable(exe)
	var err error
	o := sym.Catch(func() { err = github.NewGithubUpdater().ReplaceBinary(src) })
	sym.Assert(o.Kind == sym.Returned && err != nil, "a missing new program is an error")
	b, there := vm.ReadFile(exe)
	sym.Assert(there && sym.EqBytes(b, old) && vm.Mode(exe)&0111 != 0, "the old program stays")
	sym.Cover("missing")
}

// VerifLeftovers: files of earlier updates and of others lie around, and several updates follow
// one another.
func VerifLeftovers() {
	old, mode := sym.Bytes("old", 3), []int{0755, 0555, 0700, 0500, 0777}[sym.Choose("old mode", 5)]
	vm.WriteFileMode(exe, old, mode)
	vm.SetExecutable(exe)
	k := sym.Choose("leftovers", 5)
	for i, n := range []string{".bak", ".old", ".new", ".tmp", "~", ".1", ".part", ".orig", ".exe", "-old", "-new", "_old", ".lock"} {
		if k > 0 && i%4 == k-1 || k == 4 {
			vm.WriteFileMode(src+n, []byte("stray"), 0755)
			vm.WriteFileMode(exe+n, []byte("stray"), 0755)
		}
	}
	for i := 0; i < 3; i++ {
		new := append(sym.Bytes("new", 2), byte('0'+i))
		vm.WriteFileMode(src, new, 0644)
		ok := true
		vm.OnOp(func(op, path string) error {
			ok = sym.And(ok, whole(old, new))
			return nil
		})
		var err error
		o := sym.Catch(func() { err = github.NewGithubUpdater().ReplaceBinary(src) })
		vm.OnOp(nil)
		sym.Assert(o.Kind == sym.Returned && err == nil, "replacing succeeds")
		sym.Assert(ok, "at every moment the program is the complete old or new one")
		b, _ := vm.ReadFile(exe)
		sym.Assert(sym.EqBytes(b, new), "after success the program is the new one")
		sym.Assert(vm.Mode(exe)&0111 == 0111 && vm.Mode(exe)&0444 == 0444, "after success the program can be run by everybody")
		old = new
	}
	sym.Cover("replaced again and again")
}
