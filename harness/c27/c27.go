// Package c27: the GUI's background update check never disturbs the session.
package c27

import (
	"context"
	"errors"
	"io"
	"net/url"
	"os"

	"github.com/jroimartin/gocui"
	"github.com/mashmb/1pass/1pass-core/core/domain"
	"github.com/nsf/termbox-go"

	"verif/harness/stub"
	"verif/harness/sym"
	"verif/harness/tui"
	"verif/harness/vm"
)

// bound: the check ends before the first screen, or after any of 9 points of a session of 8 keys (prompt, typing, menu, items, details, locked again), or together with a key, or after the program has ended, or never; it finds nothing, a version of 1..4 symbolic characters, or fails with one of 15 errors (one of them with a symbolic text); a terminal of 80x24
// bound: beyond: terminals too narrow for the message
// assume: gocui runs as it is (with a hook that tells of changes) on an in-memory terminal; goroutines switch at channel operations, and where the check waits

// result chooses how the check ends, and gives what must be shown.
func result(u *stub.Update) []string {
	switch sym.Choose("result", 6) {
	case 0:
		u.Info, u.Err = nil, domain.ErrNoUpdate
		sym.Cover("up to date")
		return []string{domain.ErrNoUpdate.Error()}
	case 1:
		v := sym.In("version", 1+sym.Choose("digits", 4), '.', '9')
		u.Info, u.Err = domain.NewUpdateInfo("x", "y", "z", v, true), nil
		sym.Cover("newer version")
		return []string{"new version", "v" + v + " "}
	case 2:
		u.Info, u.Err = nil, errors.New(sym.In("text", 3, 'a', 'z'))
	case 3:
		u.Info, u.Err = nil, domain.ErrInvalidVault
	case 5:
		long := "connection refused "
		for len(long) < 300 {
			long += "while dialing the server "
		}
		errs := []error{errors.New(long), errors.New("two\nlines"), errors.New(""), errors.New("9.8.7 %v %!d(string=x)"), io.EOF, io.ErrUnexpectedEOF, context.Canceled, &url.Error{Op: "Get", URL: "https://x/", Err: errors.New(long)}, os.ErrNotExist, domain.ErrInvalidPass, gocui.ErrUnknownView, gocui.ErrQuit}
		u.Info, u.Err = nil, errs[sym.Choose("error", len(errs))]
	case 4:
		u.Info, u.Err = domain.NewUpdateInfo("x", "y", "z", "5.5", true), errors.New("late failure")
	}
	sym.Cover("failure")
	return []string{"update check failed"}
}

func items() []*domain.Item {
	return []*domain.Item{domain.NewItem("AA", "tit", "", "", false, tui.Sorted()[0], nil, 1, 2), domain.NewItem("BB", "other", "", "", false, tui.Sorted()[0], nil, 1, 2)}
}

var script = []func(s *tui.Session){
	func(s *tui.Session) { s.Press(0, 'p') },
	func(s *tui.Session) { s.Press(0, 'w') },
	func(s *tui.Session) { s.Press(termbox.KeyEnter, 0); s.Unlocked() },
	func(s *tui.Session) { s.Do(tui.Down, 0) },
	func(s *tui.Session) { s.Do(tui.Open, 0) },
	func(s *tui.Session) { s.Do(tui.Tab, 0) },
	func(s *tui.Session) { s.Do(tui.Tab, 0) },
	func(s *tui.Session) { s.Do(tui.Lock, 0) },
}

func version() string {
	p, ok := tui.Find("Version")
	sym.Assert(ok, "the version is there")
	t := p.Text()
	sym.Assert(vm.Has(t, "9.8.7"), "the running version is shown")
	return t
}

// rest is the screen without the version.
func rest() []termbox.Cell {
	p, _ := tui.Find("Version")
	var r []termbox.Cell
	return append(r, termbox.VerifCells[(p.Y1+1)*termbox.VerifW:]...)
}

func equal(a, b []termbox.Cell) bool {
	r := len(a) == len(b)
	for i := range a {
		r = r && a[i] == b[i]
	}
	return r
}

func shown(want []string) {
	t := version()
	for _, w := range want {
		sym.Assert(vm.Has(t, w), "the outcome of the check is shown as soon as it is known")
	}
	n := 0
	for _, w := range []string{"new version", "update check failed", domain.ErrNoUpdate.Error()} {
		if vm.Has(t, w) {
			n++
		}
	}
	sym.Assert(n == 1, "one outcome is shown")
}

// watch asserts that only the goroutine of the user interface changes views.
func watch() *bool {
	stray := false
	ui := 0
	gocui.VerifTouch = func() {
		if ui == 0 {
			ui = sym.Goid()
		}
		if sym.Goid() != ui {
			stray = true
		}
	}
	return &stray
}

// VerifMoment: any outcome at any point of a session.
func VerifMoment() {
	stray := watch()
	u := &stub.Update{Log: &stub.Log{}, Block: make(chan int, 1)}
	want := result(u)
	at := sym.Choose("moment", len(script)+1)
	s := tui.Start(items(), u)
	for i := 0; i <= len(script); i++ {
		if i == at {
			before := rest()
			sym.Assert(!vm.Has(version(), "("), "nothing is claimed before the check ends")
			u.Block <- 1
			sym.Yield()
			sym.Assert(!s.Done, "the end of the check does not end the session")
			shown(want)
			sym.Assert(equal(before, rest()), "the rest of the screen stays as it was")
		}
		if i < len(script) {
			script[i](s)
			s.Alive()
			p, ok := tui.Find([]string{"Password", "Password", "1Pass", "1Pass", "Items", "Details", "Items", "Password"}[i])
			sym.Assert(ok && p.X1 > p.X0, "the session goes on")
			if i >= at && (i == at || i > 5) {
				shown(want)
			}
		}
	}
	sym.Assert(len(s.V.Tried) == 1 && s.V.Tried[0] == "pw" && s.V.Locks == 1, "every key did its work")
	s.Quit()
	sym.Assert(!*stray, "views are changed by the user interface loop only")
	sym.Assert(u.Count("check") == 1, "there is one check in a session")
}

// VerifWithKey: the check ends while a key is being handled.
func VerifWithKey() {
	stray := watch()
	u := &stub.Update{Log: &stub.Log{}, Block: make(chan int, 1)}
	want := result(u)
	s := tui.Start(items(), u)
	at := sym.Choose("moment", len(script))
	for i, f := range script {
		if i == at {
			u.Block <- 1
		}
		f(s)
		s.Alive()
		if i >= at && (i == at || i > 5) {
			shown(want)
		}
	}
	sym.Assert(len(s.V.Tried) == 1 && s.V.Tried[0] == "pw" && s.V.Locks == 1, "every key did its work")
	s.Quit()
	sym.Assert(!*stray, "views are changed by the user interface loop only")
}

// VerifFirst: the check ends at once.
func VerifFirst() {
	stray := watch()
	u := &stub.Update{Log: &stub.Log{}, Block: make(chan int, 1)}
	want := result(u)
	u.Block <- 1
	s := tui.Start(items(), u)
	sym.Yield()
	shown(want)
	_, ok := tui.Find("Password")
	sym.Assert(ok, "the session starts")
	s.Unlock()
	shown(want)
	s.Quit()
	sym.Assert(!*stray, "views are changed by the user interface loop only")
}

// VerifNever: the session does not wait for the check.
func VerifNever() {
	u := &stub.Update{Log: &stub.Log{}, Block: make(chan int, 1)}
	result(u)
	s := tui.Start(items(), u)
	for _, f := range script[:sym.Choose("length", len(script)+1)] {
		f(s)
		s.Alive()
	}
	s.Quit()
	stray := watch()
	u.Block <- 1
	sym.Yield()
	sym.Assert(!*stray, "nothing happens when the check ends after the program has")
	sym.Assert(s.How.Kind == sym.Returned, "the program ended normally")
}
