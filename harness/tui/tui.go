// Package tui drives the real terminal GUI through an in-memory terminal and says what it
// should show.
package tui

import (
	"errors"
	"sort"
	"strconv"

	"github.com/mashmb/1pass/1pass-app/gui"
	"github.com/mashmb/1pass/1pass-core/core/domain"
	"github.com/mashmb/1pass/1pass-core/port/in"
	"github.com/mashmb/1pass/1pass-term/control/gocui"
	"github.com/nsf/termbox-go"

	"verif/harness/stub"
	"verif/harness/sym"
)

// ErrPassword is what a vault says to wrong passwords.
var ErrPassword = errors.New("no such password")

// Vault is a vault with items in memory, behaving as the facade should.
type Vault struct {
	stub.Vault
	All   []*domain.Item
	Right string
	Err   error // what it says, if not ErrPassword
	Tried []string
	Locks int

	given map[*domain.Item]*domain.Item // what the program gets, apart from what it should show
}

// give hands out the program's own copy of an item, always the same one.
func (v *Vault) give(i *domain.Item) *domain.Item {
	c, ok := v.given[i]
	if !ok {
		d := *i
		d.Sections = nil
		for _, s := range i.Sections {
			if s == nil {
				d.Sections = append(d.Sections, nil)
				continue
			}
			t := &domain.ItemSection{Title: s.Title}
			for _, f := range s.Fields {
				g := *f
				t.Fields = append(t.Fields, &g)
			}
			d.Sections = append(d.Sections, t)
		}
		if v.given == nil {
			v.given = map[*domain.Item]*domain.Item{}
		}
		c = &d
		v.given[i] = c
	}
	return c
}

func (v *Vault) match(c *domain.ItemCategory, trashed bool) []*domain.Item {
	var r []*domain.Item
	if !v.Unlocked {
		return r
	}
	for _, i := range v.All {
		if i.Trashed == trashed && (c == nil || i.Category == c) {
			r = append(r, i)
		}
	}
	return r
}

func (v *Vault) CountItems(c *domain.ItemCategory, trashed bool) int { return len(v.match(c, trashed)) }
func (v *Vault) GetItems(c *domain.ItemCategory, title string, trashed bool) []*domain.SimpleItem {
	var r []*domain.SimpleItem
	for _, i := range v.match(c, trashed) {
		r = append(r, domain.NewSimpleItem(i.Category, i.Title, i.Trashed, i.Uid))
	}
	return r
}
func (v *Vault) GetItem(uid string, trashed bool) *domain.Item {
	if !v.Unlocked {
		return nil
	}
	for _, i := range v.All {
		if i.Trashed == trashed && i.Uid == uid {
			return v.give(i)
		}
	}
	return nil
}
func (v *Vault) Lock() { v.Locks++; v.Unlocked = false }
func (v *Vault) Unlock(vault *domain.Vault, password string) error {
	v.Tried = append(v.Tried, password)
	v.Unlocked = password == v.Right
	if !v.Unlocked {
		if v.Err != nil {
			return v.Err
		}
		return ErrPassword
	}
	return nil
}
func (v *Vault) Validate(vault *domain.Vault) error { return nil }

// Session is a running GUI and what the user should be seeing.
type Session struct {
	V    *Vault
	Up   *stub.Update
	Done bool
	How  sym.Outcome

	Mode       int
	Rows       []Row
	Menu, Item int
	typed      int // keys pressed at the prompt
	held       []termbox.Event
	bursting   bool
}

// What the user is looking at.
const (
	Prompt = iota
	Error
	Menu
	Items
	Details
)

// Row is a row of the menu.
type Row struct {
	Label string
	Items []*domain.Item
}

// Size sets the size of the terminal; to be called before Start.
func Size(w, h int) { termbox.VerifW, termbox.VerifH = w, h }

// Start opens the GUI on a vault; the update check is still running unless up says otherwise.
func Start(items []*domain.Item, up *stub.Update) *Session {
	a := stub.New()
	s := &Session{V: &Vault{All: items, Right: "pw"}, Up: up}
	s.V.Log = a.Log
	if up == nil {
		s.Up = a.Update
		s.Up.Block = make(chan int)
	}
	s.Run(gocui.NewGocuiGuiControl(a.Config, s.Up, s.V))
	return s
}

// Run starts the GUI on a control.
func (s *Session) Run(ctl in.GuiControl) {
	g := gui.NewGocuiGui("9.8.7", ctl)
	s.Go(func() { g.Run("/v") })
}

// Go starts a session with a function that runs the GUI.
func (s *Session) Go(f func()) {
	termbox.VerifEvents = make(chan termbox.Event, 64)
	go func() {
		o := sym.Catch(f)
		s.How = o
		s.Done = true
	}()
	sym.Yield()
}

func (s *Session) rows() []Row {
	var r []Row
	v := s.V
	if a := v.match(nil, false); len(a) > 0 {
		r = append(r, Row{"All (" + strconv.Itoa(len(a)) + ")", a})
		for _, c := range Sorted() {
			if a := v.match(c, false); len(a) > 0 {
				r = append(r, Row{c.GetName() + " (" + strconv.Itoa(len(a)) + ")", a})
			}
		}
	}
	if a := v.match(nil, true); len(a) > 0 {
		r = append(r, Row{"Trashed (" + strconv.Itoa(len(a)) + ")", a})
	}
	return r
}

// Selected is the item under the highlight.
func (s *Session) Selected() *domain.Item { return s.Rows[s.Menu].Items[s.Item] }

func event(k termbox.Key, c rune) termbox.Event {
	return termbox.Event{Type: termbox.EventKey, Key: k, Ch: c}
}

func (s *Session) send(e termbox.Event) {
	if s.bursting {
		s.held = append(s.held, e)
		return
	}
	termbox.VerifEvents <- e
	sym.Yield()
}

// Burst lets the keys that f presses arrive all at once.
func (s *Session) Burst(f func()) {
	s.bursting = true
	f()
	s.bursting = false
	termbox.VerifBurst = s.held
	s.held = nil
	s.send(termbox.Event{Type: termbox.EventNone})
}

// Type types characters.
func (s *Session) Type(t string) {
	for i := 0; i < len(t); i++ {
		s.send(event(0, rune(t[i])))
	}
}

// Press sends any key without following what it does.
func (s *Session) Press(k termbox.Key, c rune) { s.send(event(k, c)) }

// The keys with a meaning; every one has a number of forms.
const (
	Down = iota
	Up
	Open
	Back
	Tab
	Lock
	Other
	Keys
)

// Do presses a key and follows what it should do.
func (s *Session) Do(key, form int) {
	form %= 3
	switch key {
	case Down:
		s.send([]termbox.Event{event(0, 'j'), event(termbox.KeyArrowDown, 0), event(0, 'j')}[form])
	case Up:
		s.send([]termbox.Event{event(0, 'k'), event(termbox.KeyArrowUp, 0), event(0, 'k')}[form])
	case Open:
		s.send([]termbox.Event{event(termbox.KeyEnter, 0), event(0, 'l'), event(termbox.KeyArrowRight, 0)}[form])
	case Back:
		s.send([]termbox.Event{event(0, 'q'), event(0, 'h'), event(termbox.KeyArrowLeft, 0)}[form])
	case Tab:
		s.send(event(termbox.KeyTab, 0))
	case Lock:
		s.send(event(termbox.KeyCtrlL, 0))
	case Other:
		s.send([]termbox.Event{event(0, 'x'), event(termbox.KeyCtrlA, 0), event(termbox.KeyEsc, 0)}[form])
	}
	switch s.Mode {
	case Prompt:
		if key == Open && form == 0 {
			s.Mode = Error // nothing but wrong passwords is typed this way
		} else {
			s.typed++
		}
	case Error:
		if key == Open && form == 0 {
			s.Mode, s.typed = Prompt, 0
		}
	case Menu:
		switch {
		case key == Down && s.Menu < len(s.Rows)-1:
			s.Menu++
		case key == Up && s.Menu > 0:
			s.Menu--
		case key == Open && len(s.Rows) > 0:
			s.Mode, s.Item = Items, 0
		}
	case Items:
		switch {
		case key == Down && s.Item < len(s.Rows[s.Menu].Items)-1:
			s.Item++
		case key == Up && s.Item > 0:
			s.Item--
		case key == Back:
			s.Mode = Menu
		case key == Tab:
			s.Mode = Details
		}
	case Details:
		if key == Tab {
			s.Mode = Items
		}
	}
	if key == Lock && s.Mode >= Menu {
		s.Mode, s.Menu, s.Rows, s.typed = Prompt, 0, nil, 0
	}
}

// Unlock clears the prompt, or closes the error first, and enters the right password.
func (s *Session) Unlock() {
	if s.Mode == Error {
		s.Do(Open, 0)
	}
	for i := 0; i < s.typed; i++ {
		s.send(event(termbox.KeyArrowRight, 0))
	}
	for i := 0; i < s.typed; i++ {
		s.send(event(termbox.KeyBackspace2, 0))
	}
	s.Type(s.V.Right)
	s.send(event(termbox.KeyEnter, 0))
	s.Unlocked()
}

// Unlocked notes that the right password was entered.
func (s *Session) Unlocked() {
	u := s.V.Unlocked
	s.V.Unlocked = true
	s.Mode, s.Menu, s.Rows = Menu, 0, s.rows()
	s.V.Unlocked = u
}

// Alive says that the program is running.
func (s *Session) Alive() { sym.Assert(!s.Done, "no key but CTRL+Q ends the program") }

// Quit ends the session.
func (s *Session) Quit() {
	s.send(event(termbox.KeyCtrlQ, 0))
	sym.Assert(s.Done && s.How.Kind == sym.Returned, "CTRL+Q ends the program normally")
}

// Cell is a character of the screen.
func Cell(x, y int) rune { return termbox.VerifCells[y*termbox.VerifW+x].Ch }

// Pane is the inside of a view.
type Pane struct{ X0, Y0, X1, Y1 int }

// Find looks for the view of the given title.
func Find(title string) (Pane, bool) {
	t := []rune("┌─" + title + "─")
	for y := 0; y < termbox.VerifH; y++ {
		for x := 0; x+len(t) <= termbox.VerifW; x++ {
			k := 0
			for k < len(t) && Cell(x+k, y) == t[k] {
				k++
			}
			if k < len(t) {
				continue
			}
			p := Pane{X0: x + 1, Y0: y + 1, X1: x + 1, Y1: y + 1}
			for p.X1 < termbox.VerifW && Cell(p.X1, y) != '┐' {
				p.X1++
			}
			for p.Y1 < termbox.VerifH && Cell(x, p.Y1) != '└' {
				p.Y1++
			}
			return p, true
		}
	}
	return Pane{}, false
}

// Lines is the text of a pane with trailing blanks removed.
func (p Pane) Lines() []string {
	var r []string
	for y := p.Y0; y < p.Y1; y++ {
		var t []rune
		for x := p.X0; x < p.X1; x++ {
			t = append(t, Cell(x, y))
		}
		n := len(t)
		for n > 0 && (t[n-1] == ' ' || t[n-1] == 0) {
			n--
		}
		r = append(r, string(t[:n]))
	}
	return r
}

// Text is the text of a pane, line by line.
func (p Pane) Text() string {
	t := "\n"
	for _, l := range p.Lines() {
		t += l + "\n"
	}
	return t
}

// Highlighted gives the highlighted lines of a pane.
func (p Pane) Highlighted() []int {
	var r []int
	for y := p.Y0; y < p.Y1; y++ {
		for x := p.X0; x < p.X1; x++ {
			if termbox.VerifCells[y*termbox.VerifW+x].Bg == termbox.ColorBlue {
				r = append(r, y-p.Y0)
				break
			}
		}
	}
	return r
}

// Between says whether a character between lo and hi is on the screen.
func Between(lo, hi rune) bool {
	r := false
	for _, c := range termbox.VerifCells {
		r = sym.Or(r, sym.And(c.Ch >= lo, c.Ch <= hi))
	}
	return r
}

// Secret and Public are texts whose characters appear nowhere else on the screen.
func Secret(name string, n int) string { return sym.In(name, n, '#', '&') }
func Public(name string, n int) string { return sym.In(name, n, '=', '@') }

// SecretShown and PublicShown tell whether any such character is on the screen.
func SecretShown() bool { return Between('#', '&') }
func PublicShown() bool { return Between('=', '@') }

// Sorted gives all categories by code.
func Sorted() []*domain.ItemCategory {
	c := domain.ItemCategoryEnum.GetValues()
	sort.Slice(c, func(i, j int) bool { return c[i].GetCode() < c[j].GetCode() })
	return c
}
