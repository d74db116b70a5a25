// Package c30: the GUI tries exactly the password that was typed.
package c30

import (
	"errors"

	"github.com/mashmb/1pass/1pass-core/core/domain"
	"github.com/nsf/termbox-go"

	"verif/harness/opv"
	"verif/harness/sym"
	"verif/harness/tui"
)

// bound: passwords of 0..4 keys, each one a symbolic character, a letter that is a command elsewhere, a wide or accented character, a space or (when keys arrive one by one) a backspace, of 70 characters of which 3 are symbolic, of 280 of which the last is; keys arriving one by one, the last ones together with ENTER, or all at once; two attempts in a row, right or wrong; every sequence of 4 (6) attempts that are accepted or refused for one of 3 reasons; the vault's password is the typed text with or without each of its parts
// bound: beyond: corrections that arrive at once with what they correct, cursor keys within the prompt
// assume: gocui runs as it is on an in-memory terminal

func items() []*domain.Item {
	return []*domain.Item{domain.NewItem("AA", "tit", "", "", false, tui.Sorted()[0], nil, 1, 2)}
}

// typing types a text of n keys, with corrections if wanted, and gives what it amounts to.
func typing(n int, corrections bool, press func(k termbox.Key, c rune)) string {
	t := ""
	k := 3
	if corrections {
		k = 4
	}
	for i := 0; i < n; i++ {
		switch (sym.Choose("kind", k) + 3) % 4 {
		case 3:
			c := sym.In("char", 1, '!', 'g')
			press(0, rune(c[0]))
			t += c
		case 0:
			c := []rune{'j', 'ż', '\u00a0', '漢'}[i%4]
			press(0, c)
			t += string(c)
		case 1:
			press(termbox.KeySpace, 0)
			t += " "
			sym.Cover("space")
		case 2:
			press(termbox.KeyBackspace2, 0)
			if t != "" {
				r := []rune(t)
				t = string(r[:len(r)-1])
				sym.Cover("correction")
			}
		}
	}
	return t
}

// attempt types a password at some pace.
func attempt(s *tui.Session, n, pace int) string {
	var t string
	var keys []func()
	t = typing(n, pace == 0, func(k termbox.Key, c rune) { keys = append(keys, func() { s.Press(k, c) }) })
	keys = append(keys, func() { s.Press(termbox.KeyEnter, 0) })
	burst := []int{len(keys), len(keys) - 2, 0}[pace]
	if burst < 0 {
		burst = 0
	}
	for _, k := range keys[:burst] {
		k()
	}
	if burst < len(keys) {
		s.Burst(func() {
			for _, k := range keys[burst:] {
				k()
			}
		})
	}
	return t
}

// outcome checks the screen after an attempt.
func outcome(s *tui.Session, right bool) {
	s.Alive()
	p, menu := tui.Find("1Pass")
	_, prompt := tui.Find("Password")
	e, fail := tui.Find("Error")
	sym.Assert(!prompt, "the prompt is gone")
	if right {
		sym.Assert(menu && !fail && opv.InOrder(p.Text(), "All (1)", "Login (1)"), "the right password opens the vault")
	} else {
		sym.Assert(fail && opv.InOrder(e.Text(), tui.ErrPassword.Error()), "the reason is shown after a wrong password")
	}
}

// VerifTyped: any text at any pace, and then another one.
func VerifTyped() {
	s := tui.Start(items(), nil)
	n := 4
	if sym.Thorough() {
		n = 5
	}
	n = sym.Choose("keys", n)
	s.V.Right = sym.In("right", 2, ' ', '~')
	t := attempt(s, n, sym.Choose("pace", 3))
	sym.Assert(len(s.V.Tried) == 1 && s.V.Tried[0] == t, "the password tried is the one typed")
	if t == s.V.Right {
		sym.Cover("right")
		outcome(s, true)
	} else {
		sym.Cover("wrong")
		outcome(s, false)
	}
	if t != s.V.Right && n < 3 {
		s.Press(termbox.KeyEnter, 0)
		_, ok := tui.Find("Password")
		_, err := tui.Find("Error")
		sym.Assert(ok && !err, "the prompt is back")
		t = attempt(s, 1, 0)
		sym.Assert(len(s.V.Tried) == 2 && s.V.Tried[1] == t, "the second password tried is the one typed")
		outcome(s, t == s.V.Right)
		sym.Cover("second attempt")
	}
	s.Quit()
}

// VerifLong: a password longer than the prompt is wide.
func VerifLong() {
	s := tui.Start(items(), nil)
	t := ""
	n := []int{70, 280}[sym.Choose("length", 2)]
	for len(t) < n {
		if n == 70 && (len(t) == 0 || len(t) == 35) || len(t) == n-1 {
			t += sym.In("char", 1, '!', '~')
		} else {
			t += string(rune('a' + len(t)%26))
		}
	}
	s.V.Right = t
	if sym.Bool("fast") {
		for i := 0; i < n; i += 14 {
			s.Burst(func() { s.Type(t[i : i+14]) })
		}
	} else {
		s.Type(t)
	}
	s.Press(termbox.KeyEnter, 0)
	sym.Assert(len(s.V.Tried) == 1 && s.V.Tried[0] == t, "the password tried is the one typed")
	outcome(s, true)
	s.Quit()
	sym.Cover("long")
}

// VerifRefused: any sequence of refusals, for different reasons, and acceptances.
func VerifRefused() {
	s := tui.Start(items(), nil)
	n := 4
	if sym.Thorough() {
		n = 6
	}
	reasons := []error{tui.ErrPassword, errors.New("derive keys: no such salt"), errors.New("x")}
	for i := 0; i < n; i++ {
		_, ok := tui.Find("Password")
		_, err := tui.Find("Error")
		sym.Assert(ok && !err, "there is a prompt")
		k := sym.Choose("outcome", 4)
		t := []string{"a", "", "longer", "pw"}[k]
		if k < 3 {
			s.V.Err = reasons[(k+i)%3]
		}
		s.Type(t)
		s.Press(termbox.KeyEnter, 0)
		sym.Assert(len(s.V.Tried) == i+1 && s.V.Tried[i] == t, "the password tried is the one typed")
		if k == 3 {
			outcome(s, true)
			s.Press(termbox.KeyCtrlL, 0)
			sym.Cover("accepted")
			continue
		}
		s.Alive()
		e, fail := tui.Find("Error")
		_, prompt := tui.Find("Password")
		sym.Assert(fail && !prompt && opv.InOrder(e.Text(), "\n"+s.V.Err.Error()+"\n"), "the reason for this refusal is shown")
		p, ok := tui.Find("1Pass")
		sym.Assert(!ok || !opv.InOrder(p.Text(), "("), "nothing is shown of a vault that is locked")
		s.Press(termbox.KeyEnter, 0)
		sym.Cover("refused")
	}
	s.Quit()
}
