// Package c32: the parts of the program work together, from run to run.
package c32

import (
	"crypto/md5"
	"encoding/hex"
	"os"

	"github.com/mashmb/1pass/1pass-core/core/domain"
	"github.com/nsf/termbox-go"

	"verif/harness/opv"
	"verif/harness/sym"
	"verif/harness/tui"
	"verif/harness/vm"
	app "verif/harness/zz_app"
)

// bound: histories of 2 and 3 runs of the whole program (its own main function): configure, then list, overview or details (option for the vault absent or naming either of two vaults, with and without the trash option) with either vault's password, and the terminal GUI; two update checks any number of seconds up to 3 days apart with periods 0..2, with either of two commands; 3 commands in a row without a configuration at first, with and without choosing a default vault; every subset of 3 settings changed by a second configure; a confirmed update of 1..4 symbolic bytes followed by another run; titles, values and notes of the items symbolic (2..3 characters)
// bound: every sequence of 4 (5 in the thorough tier) events out of: configuring either vault, configuring other settings, a vault changing on disk, version, list, overview of a named vault, details, starting without settings
// bound: two runs in each of 4 environments (22 variables), with and without files of settings in 11 other places
// bound: beyond: longer histories, other variables, another home directory
// assume: a run begins where the last one left the files; the package main of 1pass-app is compiled under another name

func run(args ...string) (sym.Outcome, string) {
	os.Args = append([]string{"1pass"}, args...)
	k := len(vm.Out())
	o := sym.Catch(app.Main)
	return o, vm.Out()[k:]
}

// vault stores a vault with one item and one in the trash; c marks its texts.
func vault(path, pw, c string, texts []string) {
	v := opv.NewVault(path, pw)
	v.WriteProfile()
	v.WriteBand("band_0.js",
		&opv.Item{Uid: c + "1", Category: "001", Overview: "{\"title\":\"" + texts[0] + "\"}", Details: "{\"fields\":[{\"name\":\"user\",\"value\":\"" + texts[1] + "\"}],\"notesPlain\":\"" + texts[2] + "\"}"},
		&opv.Item{Uid: c + "2", Category: "003", Trashed: "true", Overview: "{\"title\":\"" + texts[3] + "\"}", Details: "{\"notesPlain\":\"" + texts[4] + "\"}"})
}

func texts(c string) []string {
	var t []string
	for i := 0; i < 5; i++ {
		t = append(t, c+string(rune(48+i))+sym.In("text", 2, 'a', 'z'))
	}
	return t
}

func configure(notify, timeout, period string) {
	vm.SetStdin("y\n/v1\n" + notify + "\n" + timeout + "\n" + period + "\n")
	o, _ := run("configure")
	sym.Assert(o.Kind == sym.Returned, "configuring succeeds")
}

// VerifVaults: the vault and the side of the trash asked for are shown.
func VerifVaults() {
	t := [][]string{texts("<"), texts(">")}
	vault("/v1", "one", "A", t[0])
	vault("/v2", "two", "A", t[1])
	configure("n", "5", "0")
	n := len(vm.Requests())
	which := 0
	var args []string
	switch sym.Choose("vault", 3) {
	case 1:
		args = append(args, "-v", "/v1")
	case 2:
		args = append(args, "-v", "/v2")
		which = 1
	}
	tr := sym.Bool("trashed")
	uid := "A1"
	title, secret := 0, []int{1, 2}
	if tr {
		args = append(args, "-t")
		uid = "A2"
		title, secret = 3, []int{4}
	}
	good := sym.Bool("good")
	pw := []string{"one", "two"}[which]
	if !good {
		pw = []string{"two", "one"}[which]
	}
	vm.SetPassword([]byte(pw), nil)
	cmd := sym.Choose("command", 3)
	switch cmd {
	case 0:
		args = append([]string{"list"}, args...)
	case 1:
		args = append([]string{"overview", uid}, args...)
	case 2:
		args = append([]string{"details", uid}, args...)
	}
	o, out := run(args...)
	for w := range t {
		for k, x := range t[w] {
			want := good && w == which && (k == title || cmd == 2 && (k == secret[0] || k == secret[len(secret)-1]))
			if want {
				sym.Assert(vm.Has(out, x), "what was asked for is shown")
			} else {
				sym.Assert(sym.Not(vm.Has(out, x)), "nothing else is shown")
			}
		}
	}
	sym.Assert(len(vm.Requests()) == n, "no update check without notifications")
	if good {
		sym.Assert(o.Kind == sym.Returned, "the command succeeds")
		sym.Cover("shown")
	} else {
		sym.Assert(o.Kind == sym.Exited && o.Code != 0, "the other vault's password is refused")
		sym.Cover("refused")
	}
}

// VerifGui: the terminal GUI opens the configured vault.
func VerifGui() {
	t := [][]string{texts("<"), texts(">")}
	vault("/v1", "one", "A", t[0])
	vault("/v2", "two", "A", t[1])
	configure("n", "5", "0")
	which := sym.Choose("vault", 2)
	os.Args = []string{"1pass"}
	if which == 1 {
		os.Args = []string{"1pass", "-v", "/v2"}
	}
	s := &tui.Session{}
	s.Go(app.Main)
	s.Alive()
	if sym.Bool("wrong first") {
		s.Type([]string{"two", "one"}[which])
		s.Press(termbox.KeyEnter, 0)
		s.Alive()
		sym.Assert(sym.Not(tui.Between('<', '<')) && sym.Not(tui.Between('>', '>')), "nothing is shown with a wrong password")
		s.Press(termbox.KeyEnter, 0)
		sym.Cover("gui refused")
	}
	s.Type([]string{"one", "two"}[which])
	s.Press(termbox.KeyEnter, 0)
	s.Press(termbox.KeyEnter, 0)
	s.Press(termbox.KeyTab, 0)
	s.Alive()
	all := ""
	for y := 0; y < termbox.VerifH; y++ {
		for x := 0; x < termbox.VerifW; x++ {
			all += string(tui.Cell(x, y))
		}
	}
	sym.Assert(vm.Has(all, t[which][0]) && vm.Has(all, t[which][1]) && vm.Has(all, t[which][2]), "the item of the chosen vault is shown")
	for k := range t[0] {
		sym.Assert(sym.Not(vm.Has(all, t[1-which][k])), "nothing of the other vault is shown")
	}
	s.Quit()
	sym.Cover("gui")
}

func release(ver string) vm.Reply {
	return vm.Reply{Status: 200, Body: []byte("[{\"tag_name\":\"" + ver + "\",\"body\":\"what changed\",\"assets\":[{\"name\":\"1pass.tar.gz\",\"browser_download_url\":\"http://h/a\"},{\"name\":\"checksum.md5\",\"browser_download_url\":\"http://h/c\"}]}]")}
}

// VerifPeriod: the time of the last check carries over to the next run.
func VerifPeriod() {
	vm.SetHTTP(func(url string) vm.Reply { return release("2.7.1") })
	period := sym.Choose("period", 3)
	vm.SetNow(1600000000)
	configure("y", "5", []string{"0", "1", "2"}[period])
	n := len(vm.Requests())
	sym.Assert(n == 1, "the first run checks for updates")
	d := sym.Int("elapsed", 0, 3*86400)
	vm.SetNow(1600000000 + int64(d))
	var out string
	if sym.Bool("categories") {
		_, out = run("categories")
	} else {
		vm.SetStdin("\n\n\n\n")
		_, out = run("configure")
	}
	due := sym.Fork(d >= period*86400)
	sym.Assert((len(vm.Requests()) == n+1) == due, "a run checks for updates when the period has passed")
	sym.Assert(vm.Has(out, "2.7.1") == due, "the new version is announced after a check")
	if due {
		sym.Cover("due")
	} else {
		sym.Cover("not due")
	}
}

// VerifUpdate: a confirmed update replaces the program that runs.
func VerifUpdate() {
	bin := sym.Bytes("program", sym.Choose("size", 4)+1)
	vm.SetExecutable("/bin/1pass")
	vm.WriteFileMode("/bin/1pass", []byte("old program"), 0755)
	vm.Mkdir("/tmp")
	sum := md5.Sum(bin)
	bad := sym.Bool("bad")
	text := hex.EncodeToString(sum[:])
	if bad {
		text = "00000000000000000000000000000000"
		sym.Assume(sym.Not(sym.EqBytes(sum[:], make([]byte, 16))))
	}
	vm.SetHTTP(func(url string) vm.Reply {
		switch url {
		case domain.GithubReleases:
			return release("2.7.1")
		case "http://h/a":
			return vm.Reply{Body: vm.Archive([]vm.Entry{{Name: "1pass", Type: '0', Data: bin, Mode: 0755}}, 0)}
		case "http://h/c":
			return vm.Reply{Body: []byte(text + "  1pass\n")}
		}
		return vm.Reply{Err: vm.ErrFault}
	})
	yes := sym.Bool("yes")
	vm.SetStdin("n\n")
	if yes {
		vm.SetStdin("y\n")
	}
	o, out := run("update")
	sym.Assert(vm.Has(out, "what changed") && vm.Has(out, "2.7.1"), "the release is described")
	b, ok := vm.ReadFile("/bin/1pass")
	sym.Assert(ok, "a program is installed")
	if yes && !bad {
		sym.Assert(o.Kind == sym.Returned, "the update succeeds")
		sym.Assert(sym.EqBytes(b, bin) && vm.Mode("/bin/1pass")&0111 == 0111, "the new program is installed")
		sym.Assert(vm.Kind(domain.CacheDir) == vm.KindNone, "the temporary directory is removed")
		sym.Cover("updated")
		return
	}
	sym.Assert(o.Kind == sym.Exited && o.Code != 0, "an update that is not made ends with an error status")
	sym.Assert(string(b) == "old program", "the program stays")
	sym.Cover("not updated")
}

// VerifFirst: the first run asks for the settings, later ones use them without asking.
func VerifFirst() {
	t := [][]string{texts("<"), texts(">")}
	vault("/v1", "one", "A", t[0])
	vault("/v2", "one", "A", t[1])
	vm.SetPassword([]byte("one"), nil)
	cmds := [][]string{{"list"}, {"overview", "A1"}, {"details", "A1"}}
	w := sym.Choose("answer", 2)
	c := sym.Choose("command", 3)
	vm.SetStdin("y\n/v" + []string{"1", "2"}[w] + "\nn\n5\n0\n")
	for i := 0; i < 3; i++ {
		o, out := run(cmds[(c+i)%3]...)
		sym.Assert(o.Kind == sym.Returned, "the command succeeds")
		sym.Assert(vm.Has(out, t[w][0]), "the vault of the first run is used")
		sym.Assert(sym.Not(vm.Has(out, t[1-w][0])), "no other vault is used")
		vm.SetStdin("y\n/v" + []string{"2", "1"}[w] + "\nn\n5\n0\n")
	}
	sym.Cover("first run")
}

// VerifEnvironment: from what place and session runs are started does not matter.
func VerifEnvironment() {
	t := [][]string{texts("<"), texts(">")}
	vault("/v1", "one", "A", t[0])
	vault("/v2", "one", "A", t[1])
	vm.SetPassword([]byte("one"), nil)
	env := func(k int) {
		for _, n := range []string{"PWD", "OLDPWD", "XDG_CONFIG_HOME", "XDG_DATA_HOME", "XDG_CACHE_HOME", "XDG_RUNTIME_DIR"} {
			os.Setenv(n, []string{"", "/work", "/home/user", "/home/user/.config"}[k])
		}
		for _, n := range []string{"USER", "LOGNAME", "SUDO_USER", "HOSTNAME", "LANG", "LC_ALL", "SHELL", "SSH_TTY", "DISPLAY", "COLUMNS", "LINES", "EDITOR", "VAULT", "ONEPASSWORD_VAULT", "OP_VAULT"} {
			os.Setenv(n, []string{"", "alice", "200", "/v1"}[k])
		}
	}
	env(sym.Choose("first environment", 4))
	w := sym.Choose("vault", 2)
	if sym.Bool("others") {
		// settings of somebody or something else
		for _, d := range []string{"/", "/work", "/etc", "/etc/1pass", "/home/user", "/home/user/.1pass", "/home/user/.config", "/home/user/.config/onepass", "/home/user/.local/share/1pass", "/work/1pass", "/home/other/.config/1pass"} {
			for _, n := range []string{"1pass.yml", ".1pass.yml", "1pass.yaml", "config.yml"} {
				vm.WriteFile(d+"/"+n, []byte("opvault: "+[]string{"/v2", "/v1"}[w]+"\ntimeout: 7\nupdate-notification: false\nupdate-period: 0\n"))
			}
		}
	}
	vm.SetStdin("y\n" + []string{"/v1", "/v2"}[w] + "\nn\n5\n0\n")
	o, _ := run("configure")
	sym.Assert(o.Kind == sym.Returned, "configuring succeeds")
	vm.SetStdin("y\n" + []string{"/v2", "/v1"}[w] + "\nn\n5\n0\n")
	env(sym.Choose("second environment", 4))
	for _, c := range [][]string{{"list"}, {"details", "A1"}} {
		o, out := run(c...)
		sym.Assert(o.Kind == sym.Returned, "the command succeeds")
		sym.Assert(vm.Has(out, t[w][0]), "the configured vault is used")
		sym.Assert(sym.Not(vm.Has(out, t[1-w][0])), "no other vault is used")
	}
	sym.Cover("environment")
}

// VerifNoVault: settings without a default vault are settings too.
func VerifNoVault() {
	t := [][]string{texts("<"), texts(">")}
	vault("/v1", "one", "A", t[0])
	vault("/v2", "one", "A", t[1])
	vm.SetPassword([]byte("one"), nil)
	cmds := [][]string{{"list", "-v", "/v2"}, {"overview", "A1", "-v", "/v2"}, {"details", "-v", "/v2", "A1"}}
	c := sym.Choose("command", 3)
	if sym.Bool("configure") {
		vm.SetStdin("n\nn\n5\n0\n")
		o, _ := run("configure")
		sym.Assert(o.Kind == sym.Returned, "configuring succeeds")
		vm.SetStdin("")
	} else {
		vm.SetStdin("n\nn\n5\n0\n")
	}
	for i := 0; i < 3; i++ {
		o, out := run(cmds[(c+i)%3]...)
		sym.Assert(o.Kind == sym.Returned, "the command succeeds")
		sym.Assert(vm.Has(out, t[1][0]), "the vault named is used")
		sym.Assert(sym.Not(vm.Has(out, t[0][0])), "no other vault is used")
		vm.SetStdin("y\n/v1\nn\n7\n0\n")
	}
	o, out := run("list")
	sym.Assert(o.Kind == sym.Exited && o.Code != 0, "without a vault there is nothing to list")
	sym.Assert(sym.Not(vm.Has(out, t[0][0])), "no other vault is used")
	sym.Cover("no vault")
}

// VerifChange: settings changed by configure are used from then on, the others stay.
func VerifChange() {
	t := [][]string{texts("<"), texts(">")}
	vault("/v1", "one", "A", t[0])
	vault("/v2", "one", "A", t[1])
	vm.SetPassword([]byte("one"), nil)
	vm.SetHTTP(func(url string) vm.Reply { return release("2.7.1") })
	configure("n", "5", "0")
	w, notify := 0, false
	answers := "\n"
	if sym.Bool("change vault") {
		answers = "y\n/v2\n"
		w = 1
	}
	if sym.Bool("change notification") {
		answers += "y\n"
		notify = true
	} else {
		answers += "\n"
	}
	if sym.Bool("change timeout") {
		answers += "9\n"
	} else {
		answers += "\n"
	}
	vm.SetStdin(answers + "\n")
	run("configure")
	vm.SetStdin("")
	for i := 0; i < 2; i++ {
		n := len(vm.Requests())
		o, out := run("list")
		sym.Assert(o.Kind == sym.Returned, "the command succeeds")
		sym.Assert(vm.Has(out, t[w][0]), "the vault configured last is used")
		sym.Assert(sym.Not(vm.Has(out, t[1-w][0])), "no other vault is used")
		sym.Assert((len(vm.Requests()) > n) == notify, "updates are looked for exactly when configured")
		sym.Assert(vm.Has(out, "2.7.1") == notify, "new versions are announced exactly when configured")
	}
	sym.Cover("changed")
}

// VerifHistory: any runs in any order.
func VerifHistory() {
	// the texts of vault 1 and 2, before and after being changed
	var t [][]string
	for _, c := range []string{"<", ">", "[", "]"} {
		t = append(t, []string{c + "0" + sym.In("title", 2, 'a', 'z'), c + "1", c + "2", c + "3", c + "4"})
	}
	vault("/v1", "one", "A", t[0])
	vault("/v2", "one", "A", t[1])
	vm.SetPassword([]byte("one"), nil)
	vm.SetHTTP(func(url string) vm.Reply { return release("2.7.1") })
	acts := []int{sym.Choose("1st", 8), sym.Choose("2nd", 8), sym.Choose("3rd", 8), sym.Choose("4th", 8)}
	if sym.Thorough() {
		acts = append(acts, sym.Choose("5th", 8))
	}
	configured, notify, w := false, true, -1 // the settings so far
	content := []int{0, 1}                   // the texts that the vaults hold
	for _, a := range acts {
		n := len(vm.Requests())
		asks := notify // this run looks for updates
		switch a {
		case 0, 1: // settings for either vault
			vm.SetStdin("y\n" + []string{"/v1", "/v2"}[a] + "\n\n\n0\n")
			o, _ := run("configure")
			sym.Assert(o.Kind == sym.Returned, "configuring succeeds")
			configured, w = true, a
		case 2: // other settings
			vm.SetStdin("\n" + map[bool]string{true: "n", false: "y"}[notify] + "\n\n0\n")
			o, _ := run("configure")
			sym.Assert(o.Kind == sym.Returned, "configuring succeeds")
			configured, notify = true, !notify
		case 3: // a vault changes on disk
			content[0], content[1] = content[0]^2, content[1]^2
			vault("/v1", "one", "A", t[content[0]])
			vault("/v2", "one", "A", t[content[1]])
			asks = false
		case 4: // the program's version
			_, out := run("version")
			sym.Assert(vm.Has(out, domain.Version), "the version is shown")
			asks = false
		default:
			args := [][]string{{"list"}, {"overview", "A1", "-v", "/v2"}, {"details", "A1"}}[a-5]
			if !configured { // the first run asks
				vm.SetStdin("y\n/v1\n\n\n0\n")
				configured, w = true, 0
			} else {
				vm.SetStdin("y\n/v2\nn\n\n\n")
			}
			use := w
			if a == 6 {
				use = 1
			}
			o, out := run(args...)
			sym.Assert((o.Kind == sym.Returned) == (use >= 0), "the command succeeds when there is a vault")
			for k := range t {
				if use >= 0 && k == content[use] {
					sym.Assert(vm.Has(out, t[k][0]), "the item of the vault is shown, as it is now")
				} else {
					sym.Assert(sym.Not(vm.Has(out, t[k][0])), "no other item is shown")
				}
			}
		}
		sym.Assert((len(vm.Requests()) > n) == asks, "updates are looked for exactly when configured")
	}
	sym.Cover("history")
}
