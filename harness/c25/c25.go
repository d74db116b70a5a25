// Package c25: the terminal GUI reveals secrets only on request, and nothing when locked.
package c25

import (
	"github.com/mashmb/1pass/1pass-core/core/domain"
	"github.com/nsf/termbox-go"

	"verif/harness/stub"
	"verif/harness/sym"
	"verif/harness/tui"
)

// bound: every sequence of 3 keys (4 in the thorough tier) out of down, up, open, back, TAB, CTRL+L and any other key, each in one of its forms, from each of 7 places (prompt, error dialog, menu, item list, next item, revealed item, scrolled revealed item), then unlocking again after a lock; 3 items in 2 categories, one of them trashed, titles, URL, field names, values and notes of 1..2 symbolic characters; keys arriving one by one or two at once; passwords of 0..3 symbolic characters, wrong ones with up to 5 blanks, quotes, percent signs and backslashes; a walk over 2..6 items of each of the 18 categories with 12 fields of common names and values of 0..2 symbolic characters; terminals of 80x24, 80x40, 80x60 and 100x40
// bound: items with values, labels, titles, URLs and notes of 9, 64, 300 and 5000 characters, some of them symbolic, with several lines, all of them long or one only, in sections of 1 or 45 fields, revealed and covered again, scrolled and not; every category with 0..20 sections, trashed or not
// bound: beyond: other sizes of the terminal and resizing
// assume: the facade below the GUI answers as C04, C05, C09 and C11 say; gocui runs as it is on an in-memory terminal

func items() []*domain.Item {
	c := tui.Sorted()
	f := func(n string) *domain.ItemField { return domain.NewItemField(tui.Public("name", 1), tui.Secret(n, 2)) }
	a := domain.NewItem("AA", tui.Public("title", 2), tui.Public("url", 1), tui.Secret("notes", 2), false, c[0], []*domain.ItemSection{domain.NewItemSection("", []*domain.ItemField{f("v1"), f("v2")}), domain.NewItemSection(tui.Public("section", 1), []*domain.ItemField{f("v3")})}, 1, 2)
	b := domain.NewItem("BB", tui.Public("title", 1), "", tui.Secret("notes", 1), false, c[2], nil, 3, 4)
	d := domain.NewItem("CC", tui.Public("title", 1), "", "", true, c[1], []*domain.ItemSection{domain.NewItemSection("", []*domain.ItemField{f("v4")})}, 3, 4)
	return []*domain.Item{a, b, d}
}

// look checks one screen.
func look(s *tui.Session) {
	s.Alive()
	if s.Mode != tui.Details {
		sym.Assert(sym.Not(tui.SecretShown()), "values and notes are hidden unless revealed")
	}
	if s.Mode < tui.Menu {
		sym.Assert(sym.Not(tui.PublicShown()), "nothing of an item is on screen while the vault is locked")
		sym.Assert(sym.Not(tui.Between('(', '(')), "no categories and counts are on screen while the vault is locked")
	}
}

// place brings the session to one of several places.
func place(s *tui.Session, k int) {
	go1 := func(keys ...int) {
		for _, x := range keys {
			s.Do(x, 0)
			look(s)
		}
	}
	switch k {
	case 0:
		return
	case 1:
		go1(tui.Open)
		return
	}
	s.Unlock()
	look(s)
	switch k {
	case 2:
		go1(tui.Down)
	case 3:
		go1(tui.Open)
	case 4:
		go1(tui.Open, tui.Down)
	case 5:
		go1(tui.Open, tui.Tab)
	case 6:
		go1(tui.Open, tui.Tab, tui.Down, tui.Open)
	}
}

// VerifKeys: any keys from any place.
func VerifKeys() {
	s := tui.Start(items(), nil)
	look(s)
	place(s, sym.Choose("place", 7))
	n := 3
	if sym.Thorough() {
		n = 4
	}
	for i := 0; i < n; i++ {
		s.Do(sym.Choose("key", tui.Keys), i)
		look(s)
		if s.Mode == tui.Details && i == 2 {
			sym.Cover("revealed at the end")
		}
	}
	if s.Mode == tui.Error {
		sym.Cover("wrong password")
	}
	if s.Mode < tui.Menu {
		s.Unlock()
		look(s)
		s.Do(tui.Open, 0)
		look(s)
		sym.Cover("unlocked again")
	}
	s.Quit()
	sym.Cover("end")
}

// VerifKinds: every category, common field names, values of several lengths.
func VerifKinds() {
	k := sym.Choose("category", 18)
	var ss []*domain.ItemSection
	for i := 0; i < 3; i++ {
		var fs []*domain.ItemField
		for j := 0; j < 4; j++ {
			fs = append(fs, domain.NewItemField(stub.Names[(k*3+i*4+j)%len(stub.Names)], tui.Secret("value", (i+j+k)%3)))
		}
		ss = append(ss, domain.NewItemSection([]string{"", "Web", "Related"}[(i+k)%3], fs))
	}
	trashed := k%4 == 3
	it := domain.NewItem("AA", tui.Public("title", k%2), tui.Public("url", k/2%2), tui.Secret("notes", 1+k%2), trashed, tui.Sorted()[k], ss, 1, 2)
	tui.Size([]int{80, 100}[k%2], 40)
	all := []*domain.Item{it, domain.NewItem("BB", "other", "", tui.Secret("notes", 1), k%3 == 2, tui.Sorted()[(k+1)%18], nil, 3, 4)}
	for i := 0; i < k%3*2; i++ {
		all = append(all, domain.NewItem("C"+string(rune('0'+i)), "more", "", tui.Secret("notes", 1), false, tui.Sorted()[k], nil, 3, 4))
	}
	s := tui.Start(all, nil)
	look(s)
	s.Unlock()
	look(s)
	for r := range s.Rows {
		s.Do(tui.Open, 0)
		look(s)
		for i := range s.Rows[r].Items {
			s.Do(tui.Tab, 0)
			look(s)
			if s.Selected() == it && s.Mode == tui.Details {
				sym.Assert(tui.SecretShown(), "revealed values are shown")
				sym.Cover("revealed")
			}
			s.Do(tui.Tab, 0)
			look(s)
			if i+1 < len(s.Rows[r].Items) {
				s.Do(tui.Down, 0)
				look(s)
			}
		}
		s.Do(tui.Back, 0)
		look(s)
		s.Do(tui.Down, 0)
		look(s)
	}
	s.Do(tui.Lock, 0)
	look(s)
	s.Quit()
	sym.Cover("end")
}

// VerifLong: texts and sections longer than any pane.
func VerifLong() {
	ni, shape, part := sym.Choose("length", 4), sym.Choose("shape", 3), sym.Choose("long part", 4)
	n := []int{9, 64, 300, 5000}[ni]
	cat, trashed := []int{0, 1, 2, 9}[(ni+shape+part)%4], sym.Bool("trashed")
	size := func(k int) int {
		if part != 0 && part != k {
			return 3
		}
		return n
	}
	long := func(name string, n int) string {
		b := []byte(tui.Secret(name, 3))
		var r []byte
		for i := 0; i < n; i++ {
			switch {
			case shape == 1 && i%23 == 22:
				r = append(r, '\n')
			case shape == 2 && i%7 == 6:
				r = append(r, ' ')
			default:
				r = append(r, b[i%3])
			}
		}
		return string(r)
	}
	label := func(k int) string {
		var r []byte
		c := tui.Public("label", 1)
		for i := 0; i < k; i++ {
			r = append(r, c[0])
		}
		return string(r)
	}
	l := size(3)
	m := []int{1, 45}[sym.Choose("fields", 2)]
	if m > 1 && part == 1 {
		m = 2
	}
	var fs []*domain.ItemField
	fs = append(fs, domain.NewItemField(label(l/30), long("first", size(2))))
	for i := 1; i < m; i++ {
		fs = append(fs, domain.NewItemField("n", tui.Secret("value", 2)))
	}
	fs = append(fs, domain.NewItemField(label(1), long("last", size(2))))
	it := domain.NewItem("AA", label(l/9), label(l/2), long("notes", size(1)), trashed, tui.Sorted()[cat], []*domain.ItemSection{domain.NewItemSection(label(l/3), fs), domain.NewItemSection("", fs)}, 1, 2)
	tui.Size(80, []int{24, 60}[part%2])
	other := domain.NewItem("BB", label(2), "", "", trashed, tui.Sorted()[cat], []*domain.ItemSection{domain.NewItemSection("", fs)}, 1, 2)
	s := tui.Start([]*domain.Item{it, other}, nil)
	look(s)
	s.Unlock()
	look(s)
	if trashed {
		s.Do(tui.Down, 1)
		look(s)
	}
	for _, k := range []int{tui.Open, tui.Tab, tui.Tab, tui.Tab, tui.Down, tui.Down, tui.Open, tui.Tab, tui.Down, tui.Tab, tui.Tab, tui.Up, tui.Back, tui.Down, tui.Open, tui.Lock} {
		s.Do(k, 1)
		look(s)
		if s.Mode == tui.Details {
			sym.Assert(tui.SecretShown(), "revealed values are shown")
		}
	}
	s.Quit()
	sym.Cover("long")
}

// VerifSections: items of many sections, every category, trashed or not.
func VerifSections() {
	n := []int{0, 1, 2, 3, 4, 5, 9, 20}[sym.Choose("sections", 8)]
	cat := sym.Choose("category", 18)
	trashed := sym.Bool("trashed")
	if n != 2 {
		sym.Assume(trashed == (cat%2 == n%2))
	}
	per := 1 + cat%3
	var ss []*domain.ItemSection
	for i := 0; i < n; i++ {
		var fs []*domain.ItemField
		for j := 0; j < per; j++ {
			fs = append(fs, domain.NewItemField(stub.Names[(cat+i*per+j)%len(stub.Names)], tui.Secret("value", 2)))
		}
		ss = append(ss, domain.NewItemSection([]string{"", "Web", "Related"}[(i+cat)%3], fs))
	}
	it := domain.NewItem("AA", tui.Public("title", 2), tui.Public("url", 2), tui.Secret("notes", 2), trashed, tui.Sorted()[cat], ss, 1, 2)
	tui.Size(80, []int{24, 60}[cat%2])
	s := tui.Start([]*domain.Item{it}, nil)
	s.Unlock()
	for _, k := range []int{tui.Down, tui.Open, tui.Down, tui.Tab, tui.Tab, tui.Back, tui.Open} {
		s.Do(k, 0)
		look(s)
	}
	sym.Cover("sections")
	s.Do(tui.Lock, 0)
	look(s)
	s.Quit()
}

// VerifBursts: keys that arrive at once.
func VerifBursts() {
	s := tui.Start(items(), nil)
	place(s, 2+sym.Choose("place", 5))
	s.Burst(func() {
		s.Do(sym.Choose("first", tui.Keys), 0)
		s.Do(sym.Choose("second", tui.Keys), 0)
	})
	look(s)
	s.Do(tui.Open, 0)
	look(s)
	s.Quit()
	sym.Cover("end")
}

// VerifPassword: typed passwords are not shown, right or wrong, and can be typed over.
func VerifPassword() {
	s := tui.Start(items(), nil)
	s.V.Right = tui.Secret("right", 2)
	hidden := func() {
		sym.Assert(sym.Not(sym.Or(tui.SecretShown(), tui.PublicShown())), "typed passwords are not shown")
		s.Alive()
	}
	n := sym.Choose("length", 4)
	typed := tui.Secret("typed", n)
	for i := 0; i < n; i++ {
		s.Type(typed[i : i+1])
		hidden()
	}
	switch sym.Choose("then", 5) {
	case 0:
		s.Press(termbox.KeyBackspace2, 0)
		hidden()
		s.Press(termbox.KeyArrowLeft, 0)
	case 1:
		s.Press(termbox.KeyInsert, 0)
		s.Press(termbox.KeyArrowLeft, 0)
		s.Type("x")
	case 2:
		s.Press(termbox.KeyTab, 0)
		hidden()
		s.Press(termbox.KeyCtrlL, 0)
	case 3:
		s.Press(termbox.KeyArrowUp, 0)
		hidden()
		s.Press(termbox.KeyArrowDown, 0)
		s.Type(typed)
	}
	hidden()
	s.Press(termbox.KeyEnter, 0)
	sym.Assert(sym.Not(tui.SecretShown()), "typed passwords and values are not shown after entering")
	if s.V.Unlocked {
		sym.Cover("right")
	} else {
		sym.Assert(sym.Not(tui.PublicShown()), "nothing of an item is on screen after a wrong password")
		s.Press(termbox.KeyEnter, 0)
		hidden()
		s.Type(typed)
		hidden()
		sym.Cover("wrong")
	}
	s.Quit()
}

// VerifOddPasswords: wrong passwords with blanks around or within, quotes, percent signs, long ones.
func VerifOddPasswords() {
	s := tui.Start(items(), nil)
	s.V.Right = "right"
	typed := tui.Secret("typed", 2)
	blanks := func(n int) {
		for i := 0; i < n; i++ {
			s.Press(termbox.KeySpace, 0)
		}
	}
	before, between, after := sym.Choose("before", 3), sym.Choose("between", 2), sym.Choose("after", 3)
	more := []string{"", "'\"", "%s%d", "\\n"}[sym.Choose("more", 4)]
	for round := 0; round < 2; round++ {
		blanks(before)
		s.Type(typed[:1])
		blanks(between)
		s.Type(more)
		s.Type(typed[1:])
		blanks(after)
		sym.Assert(sym.Not(tui.SecretShown()), "typed passwords are not shown")
		s.Press(termbox.KeyEnter, 0)
		s.Alive()
		sym.Assert(!s.V.Unlocked, "the password is wrong")
		sym.Assert(sym.Not(sym.Or(tui.SecretShown(), tui.PublicShown())), "nothing of a wrong password is shown")
		s.Press(termbox.KeyEnter, 0)
		s.Alive()
		sym.Assert(sym.Not(sym.Or(tui.SecretShown(), tui.PublicShown())), "nothing of a wrong password is shown")
	}
	s.Quit()
	sym.Cover("odd passwords")
}
