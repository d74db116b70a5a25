// Package c29: command line arguments reach the right command unchanged.
package c29

import (
	"os"
	"strings"

	"github.com/mashmb/1pass/1pass-app/cli"
	"github.com/mashmb/1pass/1pass-app/gui"
	"github.com/mashmb/1pass/1pass-core/core/domain"
	"github.com/mashmb/1pass/1pass-core/port/in"

	"verif/harness/opv"
	"verif/harness/sym"
	"verif/harness/vm"
)

// bound: every command; every subset and 2 orders of its options, in long, short, separate and joined forms, before or after the command's argument; option values of 0..3 and UIDs of 1..3 symbolic printable characters; 0, 1 or 2 arguments; unknown commands and options (14 fixed); no command at all (terminal GUI)
// bound: option values and UIDs of 40, 300 and 5000 characters and with letters outside ASCII, quotes, commas and equals signs
// bound: beyond: repeated options, abbreviations, help output, shell completion commands

type ctl struct {
	calls                       []string
	vault, category, title, uid string
	trashed                     bool
}

func (c *ctl) CheckForUpdate() { c.calls = append(c.calls, "check") }
func (c *ctl) Configure()      { c.calls = append(c.calls, "configure") }
func (c *ctl) FirstRun()       { c.calls = append(c.calls, "first") }
func (c *ctl) GetCategories()  { c.calls = append(c.calls, "categories") }
func (c *ctl) GetItemDetails(vaultPath, uid string, trashed bool) {
	c.calls = append(c.calls, "details")
	c.vault, c.uid, c.trashed = vaultPath, uid, trashed
}
func (c *ctl) GetItemOverview(vaultPath, uid string, trashed bool) {
	c.calls = append(c.calls, "overview")
	c.vault, c.uid, c.trashed = vaultPath, uid, trashed
}
func (c *ctl) GetItems(vaultPath, category, title string, trashed bool) {
	c.calls = append(c.calls, "list")
	c.vault, c.category, c.title, c.trashed = vaultPath, category, title, trashed
}
func (c *ctl) Update() { c.calls = append(c.calls, "update") }

type guiCtl struct {
	in.GuiControl
	paths []string
}

func (g *guiCtl) ValidateVault(p string) (*domain.Vault, error) {
	g.paths = append(g.paths, p)
	return nil, domain.ErrInvalidVault
}

func run(args ...string) (*ctl, *guiCtl, sym.Outcome) {
	c, g := &ctl{}, &guiCtl{}
	os.Args = append([]string{"1pass"}, args...)
	o := sym.Catch(func() { cli.NewCobraCli("9.8.7", gui.NewGocuiGui("9.8.7", g), c).Run() })
	sym.Assert(o.Kind != sym.Panicked, "no command line crashes the program")
	return c, g, o
}

// option renders one option in one of its forms.
func option(long, short, val string, form int) []string {
	if val == "" && form == 3 {
		form = 1
	}
	switch form {
	case 0:
		return []string{"--" + long, val}
	case 1:
		return []string{"-" + short, val}
	case 2:
		return []string{"--" + long + "=" + val}
	}
	return []string{"-" + short + "=" + val}
}

func flag(form int) []string {
	return [][]string{{"-t"}, {"--trashed"}, {"--trashed=true"}, {"-t=true"}}[form]
}

func only(c *ctl, name string) bool {
	n := 0
	for _, k := range c.calls {
		if k == name {
			n++
		} else {
			return false
		}
	}
	return n == 1
}

// VerifList: the list command.
func VerifList() {
	set := sym.Choose("options", 16)
	form := sym.Choose("form", 4)
	size := sym.Choose("size", 4)
	var v, c, n string
	var opts [][]string
	if set&1 != 0 {
		v = sym.Text("vault", size)
		opts = append(opts, option("vault", "v", v, form))
	}
	if set&2 != 0 {
		c = sym.Text("category", 3-size)
		opts = append(opts, option("category", "c", c, (form+1)%4))
	}
	if set&4 != 0 {
		n = sym.Text("name", size)
		opts = append(opts, option("name", "n", n, (form+2)%4))
	}
	if set&8 != 0 {
		opts = append(opts, flag(form))
	}
	args := []string{"list"}
	rev := sym.Bool("reversed")
	for i := range opts {
		if rev {
			i = len(opts) - 1 - i
		}
		args = append(args, opts[i]...)
	}
	k, g, _ := run(args...)
	sym.Assert(only(k, "list") && len(g.paths) == 0, "list runs the list command and nothing else")
	sym.Assert(k.vault == v, "the vault path is the given one")
	sym.Assert(k.category == c, "the category is the given one")
	sym.Assert(k.title == n, "the name is the given one")
	sym.Assert(k.trashed == (set&8 != 0), "the trashed flag is the given one")
	sym.Cover("list")
}

// VerifItem: overview and details.
func VerifItem() {
	name := []string{"overview", "details"}[sym.Choose("command", 2)]
	uid := sym.Text("uid", 1+sym.Choose("uid size", 3))
	dash := sym.Bool("dashes")
	if !dash {
		sym.Assume(uid[0] != '-')
	}
	set := sym.Choose("options", 4)
	form := sym.Choose("form", 4)
	v := ""
	var opts []string
	if set&1 != 0 {
		v = sym.Text("vault", sym.Choose("size", 4))
		opts = append(opts, option("vault", "v", v, form)...)
	}
	if set&2 != 0 {
		opts = append(opts, flag(form)...)
	}
	args := []string{name}
	switch {
	case dash:
		args = append(append(args, opts...), "--", uid)
	case sym.Bool("first"):
		args = append(append(args, uid), opts...)
	default:
		args = append(append(args, opts...), uid)
	}
	k, g, _ := run(args...)
	sym.Assert(only(k, name) && len(g.paths) == 0, "the named command and no other runs")
	sym.Assert(k.uid == uid, "the UID is the given one")
	sym.Assert(k.vault == v, "the vault path is the given one")
	sym.Assert(k.trashed == (set&2 != 0), "the trashed flag is the given one")
	sym.Cover("item")
}

// VerifPlain: commands without arguments.
func VerifPlain() {
	names := []string{"configure", "categories", "update", "version"}
	name := names[sym.Choose("command", len(names))]
	k, g, _ := run(name)
	sym.Assert(len(g.paths) == 0, "the GUI is not started")
	if name == "version" {
		sym.Assert(len(k.calls) == 0 && vm.Has(vm.Out(), "9.8.7"), "the version is printed")
	} else {
		sym.Assert(only(k, name), "the named command and no other runs")
	}
	sym.Cover("plain")
}

// VerifWrong: wrong numbers of arguments, unknown commands and options.
func VerifWrong() {
	x, y := sym.Text("x", 2), sym.Text("y", 2)
	sym.Assume(sym.And(x[0] != '-', y[0] != '-'))
	lines := [][]string{
		{"list", x}, {"list", x, y}, {"list", "-t", x},
		{"overview"}, {"overview", x, y}, {"overview", "-t"}, {"overview", x, "-t", y},
		{"details"}, {"details", x, y}, {"details", "-v", x}, {"details", x, "-t", y},
		{"show", x}, {"List"}, {"detail", x}, {"lists"},
		{"list", "--bogus"}, {"list", "-x"}, {"list", "--trashed=maybe"}, {"list", "-v"}, {"list", "--category"},
		{"overview", x, "--name", y}, {"details", x, "-c", y}, {"overview", x, "-x"}, {"details", x, "--vaults", y},
		{"--category", x}, {"-t"},
	}
	k, g, _ := run(lines[sym.Choose("line", len(lines))]...)
	sym.Assert(len(k.calls) == 0 && len(g.paths) == 0, "a wrong command line runs nothing")
	sym.Cover("wrong")
}

// VerifGui: no command starts the GUI with the vault given.
func VerifGui() {
	v := ""
	var args []string
	if sym.Bool("vault") {
		v = sym.Text("path", sym.Choose("size", 4))
		args = option("vault", "v", v, sym.Choose("form", 4))
	}
	k, g, o := run(args...)
	sym.Assert(len(g.paths) == 1 && g.paths[0] == v, "the GUI opens the vault given")
	sym.Assert(strings.Join(k.calls, " ") == "first", "nothing but the first run question comes before")
	sym.Assert(o.Kind == sym.Exited && o.Code != 0, "an invalid vault ends the program with an error status")
	sym.Cover("gui")
}

// VerifTexts: long and unusual texts.
func VerifTexts() {
	texts := []string{opv.Long(40), opv.Long(300), opv.Long(5000), "/home/użytkownik/мой vault.opvault", "a=b=c", "x,y,\"z\"", "'quoted' `text`", "--trashed", "-t", "line\nbreak\ttab", "~/v", "$HOME", "../../x/./y//z/", "C:\\v", "%s%d", "漢字", "true", "list", "0", "\xff\xfe"}
	t := texts[sym.Choose("text", len(texts))] + sym.In("end", 1, '0', 'z')
	dash := t[0] == '-'
	form := sym.Choose("form", 4)
	switch cmd := sym.Choose("command", 4); cmd {
	case 0:
		k, g, _ := run(append(append(append([]string{"list"}, option("vault", "v", t, form)...), option("name", "n", t+"n", (form+1)%4)...), option("category", "c", t+"c", (form+2)%4)...)...)
		sym.Assert(only(k, "list") && len(g.paths) == 0, "list runs the list command and nothing else")
		sym.Assert(k.vault == t && k.title == t+"n" && k.category == t+"c" && !k.trashed, "the options are the given ones")
	case 1:
		k, g, _ := run(option("vault", "v", t, form)...)
		sym.Assert(len(g.paths) == 1 && g.paths[0] == t, "the GUI opens the vault given")
		sym.Assert(strings.Join(k.calls, " ") == "first", "nothing but the first run question comes before")
	default:
		name := []string{"overview", "details"}[cmd-2]
		args := append([]string{name}, option("vault", "v", t+"v", form)...)
		if dash || form == 1 {
			args = append(args, "--")
		}
		k, g, _ := run(append(args, t)...)
		sym.Assert(only(k, name) && len(g.paths) == 0, "the named command and no other runs")
		sym.Assert(k.uid == t && k.vault == t+"v" && !k.trashed, "UID and vault path are the given ones")
	}
	sym.Cover("texts")
}
