// Package c26: the GUI acts on the row that is highlighted.
package c26

import (
	"strconv"
	"strings"

	"github.com/mashmb/1pass/1pass-core/core/domain"

	"verif/harness/opv"
	"verif/harness/stub"
	"verif/harness/sym"
	"verif/harness/tui"
)

// bound: every sequence of 3 keys (4 in the thorough tier) out of down, up, open, back, TAB, CTRL+L and any other key from each of 5 places, with 5 items in 2 categories and the trash; a complete walk over menu, items and details and back for 10 mixes of items (none, one, only trashed, one category, no trashed, equal titles, empty titles, ...), in each of the 3 forms of the keys, repeated after locking; 20 items in 17 categories and the trash, opened at each of the 19 rows, and a list of 20 items moved through to both ends; lists of 10 to 1001 items, their numbers and the way to each, those of 130 and 513 items from end to end; an item of 40 lines of 70 characters scrolled in every combination of 2 directions; titles, URLs, field names, values and notes of 1..2 symbolic characters; titles of 20..2000 characters, of which the beginning is compared; titles, values and notes with line breaks of 3 kinds at 3 places; terminals of 80x24, 101x19, 66x29, 80x15 and 80x40
// bound: beyond: other sizes of the terminal and resizing, more items
// assume: the facade below the GUI answers as C04, C05, C09 and C11 say; gocui runs as it is on an in-memory terminal

func item(n int, cat int, trashed bool) *domain.Item {
	id := strconv.Itoa(n)
	var s []*domain.ItemSection
	if n%3 != 2 {
		s = []*domain.ItemSection{domain.NewItemSection("", []*domain.ItemField{domain.NewItemField(tui.Public("name"+id, 1), tui.Secret("value"+id, 2))})}
	}
	u, notes := "", ""
	if n%2 == 0 {
		u = tui.Public("url"+id, 2)
	}
	if n%3 == 2 {
		notes = tui.Secret("notes"+id, 2)
	}
	return domain.NewItem("UID"+id, "T"+id+tui.Public("title"+id, 1), u, notes, trashed, tui.Sorted()[cat], s, int64(n)*86400, int64(n)*86400+3600)
}

func title(i *domain.Item) string {
	if i.Title == "" {
		return "<NO TITLE>"
	}
	return i.Title
}

func trim(s string) string {
	for s != "" && (s[0] == ' ' || s[0] == 0) {
		s = s[1:]
	}
	return s
}

// one is the only highlighted line of a pane.
func one(p tui.Pane, lines []string) string {
	h := p.Highlighted()
	sym.Assert(len(h) == 1, "exactly one row is highlighted")
	return trim(lines[h[0]])
}

// inside says that the rows on screen are consecutive ones of the list, all of it when it fits.
func inside(lines, all []string) bool {
	var seen []string
	for _, l := range lines {
		if l != "" {
			seen = append(seen, trim(l))
		}
	}
	if len(all) <= len(lines) && len(seen) != len(all) {
		return false
	}
	for o := 0; o+len(seen) <= len(all); o++ {
		ok := true
		for i := range seen {
			ok = sym.And(ok, seen[i] == all[o+i])
		}
		if sym.Fork(ok) {
			// from the top of a longer list the pane is full
			return o > 0 || len(all) <= len(lines) || len(seen) == len(lines)
		}
	}
	return false
}

func pieces(i *domain.Item, revealed bool) []string {
	mask := "**********"
	p := stub.Pieces(i, func(s, f int) string {
		if revealed {
			return i.Sections[s].Fields[f].Value
		}
		return mask
	}, map[bool]string{true: i.Notes, false: mask}[revealed])
	p[0] = "\n" + p[0] // the first line of the pane
	return p
}

// fitting is what must be in the pane: everything, or the beginning when the pane is small.
func fitting(d tui.Pane, p []string) []string {
	if n := len(d.Lines()); n < 13 {
		if n < 7 {
			return p[:2]
		}
		return p[:4]
	}
	return p
}

// look compares the screen with what should be there; top tells that details are not scrolled.
func look(s *tui.Session, top bool) {
	s.Alive()
	switch s.Mode {
	case tui.Menu:
		p, ok := tui.Find("1Pass")
		sym.Assert(ok, "the menu is there")
		lines := p.Lines()
		var all []string
		for _, r := range s.Rows {
			all = append(all, r.Label)
		}
		sym.Assert(inside(lines, all), "the menu lists what there is, with numbers")
		if len(s.Rows) > 0 {
			sym.Assert(one(p, lines) == s.Rows[s.Menu].Label, "the highlighted menu row is the one that keys act on")
		}
	case tui.Items:
		p, ok := tui.Find("Items")
		sym.Assert(ok, "the list is there")
		lines := p.Lines()
		var all []string
		for _, i := range s.Rows[s.Menu].Items {
			all = append(all, title(i))
		}
		sym.Assert(inside(lines, all), "the list holds what the menu row says")
		sym.Assert(one(p, lines) == title(s.Selected()), "the highlighted item is the one that keys act on")
		d, ok := tui.Find("Details")
		sym.Assert(ok && opv.InOrder(d.Text(), fitting(d, pieces(s.Selected(), false))...) && first(d, s.Selected()), "the details are those of the highlighted item, masked")
	case tui.Details:
		d, ok := tui.Find("Details")
		sym.Assert(ok, "the details are there")
		if top {
			sym.Assert(opv.InOrder(d.Text(), fitting(d, pieces(s.Selected(), true))...) && first(d, s.Selected()), "the details are those of the highlighted item, revealed")
		}
	default:
		_, a := tui.Find("Password")
		_, b := tui.Find("Error")
		sym.Assert(a != b, "prompt or error")
	}
}

// first says that the pane starts with the item's first line.
func first(d tui.Pane, i *domain.Item) bool { return d.Lines()[0] == i.Category.GetName() }

// VerifKeys: any keys from any place.
func VerifKeys() {
	s := tui.Start([]*domain.Item{item(0, 0, false), item(1, 0, false), item(2, 3, false), item(3, 1, true), item(4, 3, false)}, nil)
	s.Unlock()
	switch sym.Choose("place", 5) {
	case 1:
		s.Do(tui.Down, 0)
		s.Do(tui.Open, 0)
	case 2:
		s.Do(tui.Open, 0)
		s.Do(tui.Down, 0)
	case 3:
		s.Do(tui.Open, 0)
		s.Do(tui.Down, 0)
		s.Do(tui.Tab, 0)
		s.Do(tui.Down, 0)
	case 4:
		s.Do(tui.Down, 0)
		s.Do(tui.Down, 0)
		s.Do(tui.Down, 0)
	}
	n := 3
	if sym.Thorough() {
		n = 4
	}
	top := false
	for i := 0; i < n; i++ {
		k := sym.Choose("key", tui.Keys)
		m := s.Mode
		s.Do(k, i)
		if k == tui.Tab {
			top = true
		} else if m == tui.Details {
			top = false
		}
		if i == n-1 || m != s.Mode {
			look(s, top)
		}
	}
	if s.Mode < tui.Menu {
		s.Unlock()
		look(s, true)
		s.Do(tui.Down, 0)
		s.Do(tui.Open, 0)
		look(s, true)
		sym.Cover("unlocked again")
	}
	if s.Mode == tui.Details {
		sym.Cover("revealed")
	}
	s.Quit()
}

// size chooses one of four terminals.
func size(k int) {
	z := [][]int{{80, 24}, {101, 19}, {66, 29}, {80, 15}}[k]
	tui.Size(z[0], z[1])
}

func same(a, b *domain.Item) *domain.Item {
	b.Title = a.Title
	return b
}

func mix(k int) []*domain.Item {
	switch k {
	case 0:
		return nil
	case 1:
		return []*domain.Item{item(0, 0, false)}
	case 2:
		return []*domain.Item{item(0, 0, true)}
	case 3:
		return []*domain.Item{item(0, 2, true), item(1, 0, true)}
	case 4:
		return []*domain.Item{item(0, 5, false), item(1, 5, false), item(2, 5, false)}
	case 5:
		return []*domain.Item{item(0, 1, false), item(1, 17, false), item(2, 1, true), item(3, 9, true)}
	case 6:
		a := item(0, 3, false)
		return []*domain.Item{a, same(a, item(1, 3, false)), same(a, item(2, 4, false)), same(a, item(3, 3, true))}
	case 7:
		e := func(i *domain.Item) *domain.Item { i.Title = ""; return i }
		return []*domain.Item{e(item(0, 0, false)), item(1, 0, false), e(item(2, 7, true))}
	case 8:
		t, a := item(0, 6, true), item(0, 6, false)
		a.Title = "other"
		return []*domain.Item{t, a} // the same UID in the trash
	}
	return []*domain.Item{item(0, 16, false), item(1, 8, false), item(2, 12, false), item(3, 8, false)}
}

// VerifMixes: everything is reachable and what it says, whatever items there are.
func VerifMixes() {
	form := sym.Choose("form", 3)
	size(form)
	s := tui.Start(mix(sym.Choose("mix", 10)), nil)
	for round := 0; round < 2; round++ {
		s.Unlock()
		look(s, true)
		s.Do(tui.Up, form)
		look(s, true)
		n := len(s.Rows)
		if n == 0 {
			for k := 0; k < tui.Lock; k++ {
				s.Do(k, form)
				look(s, true)
			}
			sym.Cover("no items")
		}
		for r := 0; r < n; r++ {
			s.Do(tui.Open, form)
			look(s, true)
			m := len(s.Rows[s.Menu].Items)
			for i := 0; i <= m; i++ {
				if i > 0 {
					s.Do(tui.Down, form)
					look(s, true)
				}
				if round == 0 {
					s.Do(tui.Tab, form)
					look(s, true)
					s.Do(tui.Tab, form)
					look(s, true)
				}
			}
			s.Do(tui.Up, form)
			look(s, true)
			s.Do(tui.Back, form)
			look(s, true)
			s.Do(tui.Down, form)
			look(s, true)
		}
		s.Do(tui.Lock, form)
		look(s, true)
	}
	s.Quit()
	sym.Cover("end")
}

func many() []*domain.Item {
	var r []*domain.Item
	for i := 0; i < 17; i++ {
		r = append(r, item(i, i, false))
	}
	for i := 17; i < 20; i++ {
		r = append(r, item(i, i-17, true))
	}
	return r
}

// VerifMenu: a menu longer than the screen.
func VerifMenu() {
	size(sym.Choose("size", 4))
	s := tui.Start(many(), nil)
	s.Unlock()
	n := len(s.Rows)
	at := sym.Choose("row", n)
	for i := 0; i <= n; i++ {
		if i == at {
			s.Do(tui.Open, 0)
			look(s, true)
			s.Do(tui.Down, 0)
			s.Do(tui.Back, 0)
		}
		s.Do(tui.Down, i)
		if i > 12 {
			look(s, true)
		}
	}
	for i := 0; i < 1+at; i++ {
		s.Do(tui.Up, i)
	}
	look(s, true)
	s.Do(tui.Open, 0)
	look(s, true)
	s.Do(tui.Lock, 0)
	s.Unlock()
	look(s, true)
	s.Quit()
	sym.Cover("end")
}

// VerifList: a list longer than the screen.
func VerifList() {
	size(sym.Choose("size", 4))
	s := tui.Start(many(), nil)
	s.Unlock()
	s.Do(tui.Open, 0)
	n := len(s.Rows[0].Items)
	for i := 0; i <= n; i++ {
		s.Do(tui.Down, i)
		if i > 10 {
			look(s, true)
		}
	}
	k := sym.Choose("up", n+2)
	for i := 0; i < k; i++ {
		s.Do(tui.Up, i)
	}
	look(s, true)
	s.Do(tui.Tab, 0)
	look(s, true)
	s.Do(tui.Tab, 0)
	s.Do(tui.Back, 0)
	s.Do(tui.Down, 0)
	look(s, true)
	s.Do(tui.Open, 0)
	look(s, true)
	s.Do(tui.Back, 0)
	s.Do(tui.Up, 0)
	s.Do(tui.Open, 0)
	look(s, true)
	s.Quit()
	sym.Cover("end")
}

// VerifWide: titles wider than the list; every row begins with its item's title.
func VerifWide() {
	n := []int{20, 29, 30, 31, 37, 38, 39, 40, 64, 255, 2000}[sym.Choose("width", 11)]
	shape := sym.Choose("shape", 4)
	size(shape)
	var all []*domain.Item
	for i := 0; i < 5; i++ {
		it := item(i, i/3, i == 4)
		fill := []string{"abcdefghi ", "x", "word ", "\u00e9\u017c"}[shape]
		t := "Item" + strconv.Itoa(i) + tui.Public("t", 1) + "-"
		for len(t) < n+i {
			t += fill
		}
		it.Title = t
		all = append(all, it)
	}
	s := tui.Start(all, nil)
	s.Unlock()
	begins := func(text, title string) bool { return len(text) >= 7 && text[:7] == title[:7] }
	check := func() {
		s.Alive()
		p, ok := tui.Find("Items")
		sym.Assert(ok, "the list is there")
		lines := p.Lines()
		items := s.Rows[s.Menu].Items
		for i, it := range items {
			sym.Assert(i < len(lines) && begins(trim(lines[i]), it.Title), "one row per item, beginning with its title")
		}
		for _, l := range lines[len(items):] {
			sym.Assert(l == "", "no other rows")
		}
		sym.Assert(begins(one(p, lines), s.Selected().Title), "the highlighted item is the one that keys act on")
		d, ok := tui.Find("Details")
		sym.Assert(ok && first(d, s.Selected()), "the details are there")
		found := false
		for _, l := range d.Lines() {
			found = found || len(l) >= 5 && l[:5] == s.Selected().Title[:5]
		}
		sym.Assert(found, "the details are those of the highlighted item")
	}
	for r := range s.Rows {
		s.Do(tui.Open, 0)
		check()
		for i := range s.Rows[r].Items {
			s.Do(tui.Tab, 0)
			s.Alive()
			s.Do(tui.Tab, 0)
			check()
			if i+1 < len(s.Rows[r].Items) {
				s.Do(tui.Down, 0)
				check()
			}
		}
		s.Do(tui.Back, 0)
		s.Do(tui.Down, 0)
	}
	s.Quit()
	sym.Cover("wide")
}

// VerifBreaks: line breaks of every kind within titles, values and notes.
func VerifBreaks() {
	k := sym.Choose("break", 4)
	br := []string{"\n", "\r\n", "\r", "\n\n"}[k]
	place := sym.Choose("place", 3)
	var all []*domain.Item
	for i := 0; i < 4; i++ {
		a, b := "A"+strconv.Itoa(i)+tui.Public("t", 1), tui.Public("u", 1)+"B"
		t := []string{a + br + b, a + br, br + a}[place]
		var sec []*domain.ItemSection
		notes := ""
		if i%2 == 0 {
			sec = []*domain.ItemSection{domain.NewItemSection("Sec", []*domain.ItemField{domain.NewItemField("One", "v1"+br+"v2"), domain.NewItemField("Two", "w1"+br)})}
		} else {
			notes = "n1" + br + "n2" + br + "n3"
		}
		all = append(all, domain.NewItem("UID"+strconv.Itoa(i), t, "", notes, i == 3, tui.Sorted()[1], sec, 0, 0))
	}
	tui.Size(80, 40)
	s := tui.Start(all, nil)
	s.Unlock()
	id := func(i *domain.Item) string { return "A" + i.Uid[3:] }
	check := func(revealed bool) {
		s.Alive()
		p, ok := tui.Find("Items")
		sym.Assert(ok, "the list is there")
		lines := p.Lines()
		items := s.Rows[s.Menu].Items
		for i, l := range lines {
			if i < len(items) {
				sym.Assert(strings.Contains(l, id(items[i])), "one row per item")
			} else {
				sym.Assert(l == "", "no other rows")
			}
		}
		h := p.Highlighted()
		if !revealed {
			sym.Assert(len(h) == 1 && h[0] == s.Item, "the highlighted item is the one that keys act on")
		}
		d, ok := tui.Find("Details")
		it := s.Selected()
		want := []string{id(it)}
		if it.Sections != nil {
			want = append(want, "Sec", "One: ", "Two: ")
			if revealed {
				want = []string{id(it), "Sec", "One: ", "v1", "v2", "Two: ", "w1"}
			}
		} else if revealed {
			want = append(want, "Notes", "n1", "n2", "n3")
		}
		sym.Assert(ok && opv.InOrder(d.Text(), want...), "the details are those of the highlighted item")
	}
	for r := range s.Rows {
		s.Do(tui.Open, 0)
		check(false)
		for i := range s.Rows[r].Items {
			s.Do(tui.Tab, 0)
			check(true)
			s.Do(tui.Tab, 0)
			check(false)
			if i+1 < len(s.Rows[r].Items) {
				s.Do(tui.Down, 0)
				check(false)
			}
		}
		s.Do(tui.Back, 0)
		s.Do(tui.Down, 0)
	}
	s.Quit()
	sym.Cover("breaks")
}

// VerifScroll: details larger than the pane.
func VerifScroll() {
	var fs []*domain.ItemField
	wide := "0123456789012345678901234567890123456789012345678901234567"
	for i := 0; i < 30; i++ {
		fs = append(fs, domain.NewItemField("f"+strconv.Itoa(i), tui.Secret("v", 1)+wide+tui.Secret("w", 1)))
	}
	big := item(0, 0, false)
	big.Sections = []*domain.ItemSection{domain.NewItemSection("S", fs)}
	s := tui.Start([]*domain.Item{big, item(1, 0, false)}, nil)
	s.Unlock()
	s.Do(tui.Open, 0)
	s.Do(tui.Tab, 0)
	d, _ := tui.Find("Details")
	grid := func() [][]rune {
		var g [][]rune
		for y := d.Y0; y < d.Y1; y++ {
			var l []rune
			for x := d.X0; x < d.X1; x++ {
				l = append(l, tui.Cell(x, y))
			}
			g = append(g, l)
		}
		return g
	}
	dirs := []struct{ key, dx, dy int }{{tui.Down, 0, 1}, {tui.Up, 0, -1}, {tui.Open, 1, 0}, {tui.Back, -1, 0}}
	x, y := 0, 0
	seen := false
	for part := 0; part < 2; part++ {
		m := dirs[sym.Choose("direction", 4)]
		n := 4 + 4*part
		for i := 0; i < n; i++ {
			before := grid()
			form := i % 2
			if m.key == tui.Open || m.key == tui.Back {
				form = 1 + i%2
			}
			s.Do(m.key, form)
			s.Alive()
			dx, dy := m.dx, m.dy
			if x+dx < 0 {
				dx = 0
			}
			if y+dy < 0 {
				dy = 0
			}
			x, y = x+dx, y+dy
			if i > 0 && i < n-1 {
				continue
			}
			after := grid()
			ok := true
			for v := range after {
				for h := range after[v] {
					if v+dy >= 0 && v+dy < len(before) && h+dx >= 0 && h+dx < len(before[v]) {
						ok = sym.And(ok, after[v][h] == before[v+dy][h+dx])
					}
				}
			}
			sym.Assert(ok, "scrolling moves the details by one line or column and stops at their start")
			seen = seen || dx != 0 || dy != 0
		}
	}
	if seen {
		sym.Cover("moved")
	}
	if sym.Bool("cover") {
		s.Do(tui.Tab, 0)
		s.Do(tui.Tab, 0)
		sym.Assert(first(d, big), "revealed details start at their top left corner")
		s.Do(tui.Down, 0)
		s.Do(tui.Tab, 0)
		s.Do(tui.Down, 0)
		look(s, true)
	} else {
		s.Do(tui.Lock, 0)
		s.Unlock()
		s.Do(tui.Open, 0)
		s.Do(tui.Tab, 0)
		sym.Assert(first(d, big), "revealed details start at their top left corner")
	}
	s.Quit()
	sym.Cover("end")
}

// VerifHundreds: hundreds of items.
func VerifHundreds() {
	var all []*domain.Item
	a, b, c := 104, 9, 256
	if sym.Bool("other") {
		a, b, c = 10, 1001, 100
	}
	for i := 0; i < a+b+c; i++ {
		cat := 0
		if i >= a && i < a+b || i%2 == 0 && i >= a+b {
			cat = 4
		}
		all = append(all, domain.NewItem("U"+strconv.Itoa(i), "T"+strconv.Itoa(i), "", "", i >= a+b, tui.Sorted()[cat], nil, 1, 2))
	}
	s := tui.Start(all, nil)
	s.Unlock()
	look(s, true)
	row := sym.Choose("row", 4)
	for i := 0; i < row; i++ {
		s.Do(tui.Down, 0)
	}
	look(s, true)
	s.Do(tui.Open, 0)
	look(s, true)
	for i := 0; i < 25; i++ {
		s.Do(tui.Down, 0)
	}
	look(s, true)
	s.Quit()
	sym.Cover("hundreds")
}

// VerifDepth: far down in a long list, the keys arriving sixteen at once.
func VerifDepth() {
	n := []int{130, 513}[sym.Choose("items", 2)]
	var all []*domain.Item
	for i := 0; i < n; i++ {
		all = append(all, domain.NewItem("U"+strconv.Itoa(i), "T"+strconv.Itoa(i), "", "", false, tui.Sorted()[i%len(tui.Sorted())], nil, 1, 2))
	}
	s := tui.Start(all, nil)
	s.Unlock()
	look(s, true)
	s.Do(tui.Open, 0)
	down := []int{n - 2, n + 3}[sym.Choose("down", 2)]
	for i := 0; i < down; i += 16 {
		s.Burst(func() {
			for k := i; k < down && k < i+16; k++ {
				s.Do(tui.Down, k)
			}
		})
	}
	look(s, true)
	s.Do(tui.Up, 0)
	look(s, true)
	s.Do(tui.Tab, 0)
	look(s, true)
	s.Quit()
	sym.Cover("depth")
}
