// Package c16: configuring accepts only valid answers and keeps the rest.
package c16

import (
	"github.com/mashmb/1pass/1pass-core/core/domain"
	"github.com/mashmb/1pass/1pass-term/control/cobra"

	"verif/harness/stub"
	"verif/harness/sym"
	"verif/harness/vm"
)

// bound: each answer is an empty line or one word of up to 3 symbolic printable characters (4 for the numbers, 5 for the path), or one of 16 fixed odd words, or several words (9 fixed ones and paths of two or three words of symbolic characters), each with or without blanks around, or the input ends; previous settings arbitrary (timeouts 10..30 and periods 100..365, whole range where the notification is asked and in the thorough tier, both notification settings, paths of 0..2 characters); one answer varies at a time, the others are empty; or all are valid
// bound: beyond: answers of more words, longer words

var odd = []string{"4294967297", "18446744073709551617", "9223372036854775808", "-4294967295", "0000000000000000000000007", "1e1", "0x5", "1_0", "٣", "1.0", "1,0", "yes", "no", "Yy", "366", "31"}

type numAnswer struct {
	text  string
	valid bool
	val   int
}

// number builds an answer and says what it means.
func number(name string) numAnswer {
	k := sym.Choose(name+"kind", 5+len(odd))
	if k >= 5 {
		t := odd[k-5]
		switch t {
		case "0000000000000000000000007":
			return numAnswer{t, true, 7}
		case "366", "31":
			return numAnswer{t, true, map[string]int{"366": 366, "31": 31}[t]}
		}
		return numAnswer{t, false, 0}
	}
	t := word(name, k)
	if k == 0 {
		return numAnswer{t, false, 0}
	}
	// an optional sign, then digits only
	ok := func(s string) bool {
		if len(s) == 0 {
			return false
		}
		r := true
		for i := range s {
			r = sym.And(r, sym.And(s[i] >= '0', s[i] <= '9'))
		}
		return r
	}
	val := func(s string) int {
		n := 0
		for i := 0; i < len(s); i++ {
			n = n*10 + int(s[i]) - '0'
		}
		return n
	}
	plain := ok(t)
	signed := sym.And(sym.Or(t[0] == '+', t[0] == '-'), ok(t[1:]))
	v := sym.IteInt(plain, val(t), sym.IteInt(t[0] == '-', -val(t[1:]), val(t[1:])))
	return numAnswer{t, sym.Or(plain, signed), v}
}

func word(name string, n int) string {
	s := sym.Text(name, n)
	for i := range s {
		sym.Assume(s[i] != ' ')
	}
	return s
}

// logic builds a yes/no answer: text, is yes, is no.
func logic(name string) (string, bool, bool) {
	k := sym.Choose(name+"kind", 3+len(odd))
	if k >= 3 {
		return odd[k-3], false, false
	}
	t := word(name, k)
	if k != 1 {
		return t, false, false
	}
	return t, sym.Or(t[0] == 'y', t[0] == 'Y'), sym.Or(t[0] == 'n', t[0] == 'N')
}

func run(vary int) {
	s := stub.New()
	t0, p0, l := 10, 100, 2
	if sym.Thorough() || vary == 2 {
		t0, p0, l = 1, 0, 1+sym.Choose("oldvaultlen", 2)
	}
	if vary == 8 || vary == 4 {
		l = sym.Choose("oldvaultlen", 2)
	}
	if vary == 1 {
		l = 2 * sym.Choose("oldvaultlen", 2)
	}
	old := domain.Config{Timeout: sym.Int("oldtimeout", t0, 30), UpdatePeriod: sym.Int("oldperiod", p0, 365), UpdateNotify: sym.Bool("oldnotify"), Vault: sym.Text("oldvault", l)}
	c := old
	s.Config.Conf = &c
	s.Config.Available = true
	in := ""
	want := old
	timeout, period := old.Timeout, old.UpdatePeriod
	// the path
	first, yes := "", false
	if vary&1 != 0 {
		first, yes, _ = logic("setpath")
	}
	in += first + "\n"
	if sym.Fork(yes) {
		p := word("path", sym.Choose("pathlen", 6))
		in += p + "\n"
		want.Vault = p
	}
	if vary&2 != 0 {
		t, y, n := logic("notify")
		in += t + "\n"
		if sym.Fork(y) {
			want.UpdateNotify = true
		} else if sym.Fork(n) {
			want.UpdateNotify = false
		}
	} else {
		in += "\n"
	}
	if vary&4 != 0 {
		a := number("timeout")
		in += a.text + "\n"
		timeout = sym.IteInt(sym.And(a.valid, sym.And(a.val >= 1, a.val <= 30)), a.val, timeout)
	} else {
		in += "\n"
	}
	if vary&8 != 0 {
		a := number("period")
		in += a.text + "\n"
		period = sym.IteInt(sym.And(a.valid, sym.And(a.val >= 0, a.val <= 365)), a.val, period)
	} else {
		in += "\n"
	}
	vm.SetStdin(in)
	finish(s, want, timeout, period)
	sym.Cover("configured")
}

func finish(s *stub.All, want domain.Config, timeout, period int) {
	o := sym.Catch(func() { cobra.NewCobraCliControl(s.Config, s.Update, s.Vault).Configure() })
	sym.Assert(o.Kind == sym.Returned, "configuring ends normally")
	sym.Assert(len(s.Config.Saved) == 1, "the configuration is saved exactly once")
	got := s.Config.Saved[0]
	sym.Assert(got.Vault == want.Vault, "the default vault is what was chosen, or unchanged")
	sym.Assert(got.UpdateNotify == want.UpdateNotify, "the notification setting is what was chosen, or unchanged")
	sym.Assert(got.Timeout == timeout, "the timeout is what was chosen if valid, or unchanged")
	sym.Assert(got.UpdatePeriod == period, "the period is what was chosen if valid, or unchanged")
}

// VerifVault: the path question.
func VerifVault() { run(1) }

// VerifNotify: the notification question (after the path question).
func VerifNotify() { run(2) }

// VerifTimeout: the timeout question.
func VerifTimeout() { run(4) }

// VerifPeriod: the period question.
func VerifPeriod() { run(8) }

// VerifAll: all questions answered properly or the input ends early.
func VerifAll() {
	s := stub.New()
	old := domain.Config{Timeout: 3, UpdatePeriod: 4, UpdateNotify: sym.Bool("oldnotify"), Vault: "/old"}
	c := old
	s.Config.Conf = &c
	t, p := sym.Int("timeout", 10, 30), sym.Int("period", 100, 365)
	ts := string([]byte{byte('0' + t/10), byte('0' + t%10)})
	ps := string([]byte{byte('0' + p/100), byte('0' + p/10%10), byte('0' + p%10)})
	lines := []string{"y", "/new", "n", ts, ps}
	n := sym.Choose("lines", 6)
	in := ""
	for i := 0; i < n; i++ {
		in += lines[i] + "\n"
	}
	want, timeout, period := old, old.Timeout, old.UpdatePeriod
	if n >= 1 {
		want.Vault = "" // asked for and not given
	}
	if n >= 2 {
		want.Vault = "/new"
	}
	if n >= 3 {
		want.UpdateNotify = false
	}
	if n >= 4 {
		timeout = t
	}
	if n >= 5 {
		period = p
		sym.Cover("all answers")
	}
	vm.SetStdin(in)
	finish(s, want, timeout, period)
	sym.Cover("configured")
}

// VerifWords: an answer is a line, also when it has several words.
func VerifWords() {
	s := stub.New()
	old := domain.Config{Timeout: 13, UpdatePeriod: 44, UpdateNotify: sym.Bool("oldnotify"), Vault: "/old"}
	c := old
	s.Config.Conf = &c
	words := []string{"y n", "n y", "y yes", "5 5", "5 days", "1 2 3", "y  y", "7 y", "xn y"}
	at := sym.Choose("question", 5)
	pad := []string{"", " ", "\t"}[sym.Choose("blanks", 3)]
	want := old
	w := words[sym.Choose("words", len(words))]
	answers := []string{"", "", "", ""}
	if at == 4 { // the path
		a, b := sym.In("a", 2, '!', '~'), sym.In("b", 2, '!', '~')
		p := []string{a + " " + b, a + "  " + b, a + " " + b + " y", "/" + a + "/My Vault/" + b, a + " n", a + " 9 9"}[sym.Choose("path", 6)]
		answers = []string{"Y", pad + p + pad, "", "", ""}
		want.Vault = p
	} else {
		answers[at] = pad + w + pad
	}
	after := sym.Bool("answers after") // the other questions are answered
	if after && at != 4 {
		for i, a := range []string{"n", map[bool]string{true: "n", false: "y"}[old.UpdateNotify], "12", "300"} {
			if i == at {
				continue
			}
			answers[i] = a
			switch i {
			case 1:
				want.UpdateNotify = !old.UpdateNotify
			case 2:
				want.Timeout = 12
			case 3:
				want.UpdatePeriod = 300
			}
		}
	}
	in := ""
	for _, a := range answers {
		in += a + "\n"
	}
	vm.SetStdin(in)
	finish(s, want, want.Timeout, want.UpdatePeriod)
	sym.Cover("words")
}
