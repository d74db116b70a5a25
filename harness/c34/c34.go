// Package c34: runs change only the program's own files, and no secret reaches a file.
package c34

import (
	"crypto/md5"
	"encoding/hex"
	"os"
	"path/filepath"
	"strings"

	"github.com/mashmb/1pass/1pass-core/core/domain"
	"github.com/nsf/termbox-go"

	"verif/harness/opv"
	"verif/harness/sym"
	"verif/harness/tui"
	"verif/harness/vm"
	app "verif/harness/zz_app"
)

// bound: one run of the whole program (its own main function) of every command, and GUI sessions of up to 12 keys, with or without settings before, with the right and a wrong password, a wrong vault, damaged items and profiles, 4 outcomes of the update check, updates with 7 archives and checksums, confirmed or not; any one of the first 12 changes of the file system failing with 8 kinds of error; titles, values, notes and passwords symbolic (2 characters each beside a mark)
// bound: files of others (in the vault, beside the settings, the program and the temporary directory) are compared before and after
// bound: beyond: several runs in a row (C32), several faults at once, damage by interruptions
// assume: what changes the file system goes through the os package; the package main of 1pass-app is compiled under another name

const exe = "/usr/local/bin/1pass"
const conf = "/home/user/.config/1pass"

// marks are in every secret and nowhere else.
const mark, passMark = "<#", "<$"

const wrong = passMark + "wrong"

type world struct {
	texts  []string
	pw     string
	update bool
	ok     bool
	before map[string][]byte
	kinds  map[string]int
	fault  int
	why    error
	ops    int
}

func release(ver string) vm.Reply {
	return vm.Reply{Status: 200, Body: []byte("[{\"tag_name\":\"" + ver + "\",\"body\":\"what changed\",\"assets\":[{\"name\":\"1pass.tar.gz\",\"browser_download_url\":\"http://h/a\"},{\"name\":\"checksum.md5\",\"browser_download_url\":\"http://h/c\"}]}]")}
}

func text(n string) string { return mark + sym.In(n, 1, 'a', 'z') }

func setup() *world {
	w := &world{ok: true, pw: passMark + sym.In("password", 2, 'a', 'z')}
	for i := 0; i < 4; i++ {
		w.texts = append(w.texts, text("text"))
	}
	w.texts[0], w.texts[2] = mark+"m", mark+"note"
	v := opv.NewVault("/v", w.pw)
	v.WriteProfile()
	bad := &opv.Item{Uid: "A3", Category: "002", Overview: "{\"title\":\"" + w.texts[0] + "\"}", Details: mark + "damaged"}
	v.WriteBand("band_0.js",
		&opv.Item{Uid: "A1", Category: "001", Overview: "{\"title\":\"" + w.texts[0] + "\"}", Details: "{\"fields\":[{\"name\":\"user\",\"value\":\"" + w.texts[1] + "\"}],\"notesPlain\":\"" + w.texts[2] + "\"}"},
		&opv.Item{Uid: "A2", Category: "003", Trashed: "true", Overview: "{\"title\":\"" + w.texts[3] + "\"}", Details: "{\"notesPlain\":\"" + w.texts[2] + "\"}"}, bad)
	_, wm := opv.Derive(wrong, v.Salt, v.Iter)
	n := len(v.MasterBlob) - 32
	sym.Assume(opv.Neq(opv.Mac(wm, v.MasterBlob[:n]), v.MasterBlob[n:]))
	vm.WriteFile("/v/default/folders.js", []byte("loadFolders({});"))
	vm.WriteFile("/v/default/attachment.tmp", []byte("x"))
	vm.WriteFile("/home/user/.config/other", []byte("x"))
	vm.WriteFile(conf+"/mine", []byte("x"))
	vm.WriteFile("/home/user/.bash_history", []byte("x"))
	vm.WriteFile("/tmp/other", []byte("x"))
	vm.WriteFile("/usr/local/bin/other", []byte("x"))
	vm.WriteFileMode(exe, []byte("old program"), 0755)
	vm.SetExecutable(exe)
	vm.SetNow(1600000000)
	return w
}

func settings(notify bool) {
	vm.WriteFile(conf+"/1pass.yml", []byte("opvault: /v\ntimeout: 5\nupdate-notification: "+map[bool]string{true: "true", false: "false"}[notify]+"\nupdate-period: 0\n"))
}

// own tells whether the program may change what is at a path.
func (w *world) own(path string) bool {
	path = filepath.Clean(path)
	switch path {
	case conf, "/home/user/.config", "/home/user":
		return true
	}
	if strings.HasPrefix(path, conf+"/") {
		_, there := w.kinds[path]
		return !there || path == conf+"/1pass.yml" || path == conf+"/lastcheck"
	}
	if !w.update {
		return false
	}
	if filepath.Dir(path) == filepath.Dir(exe) && w.kinds[path] == 0 {
		return true // a place for the new program, before it is the program
	}
	return path == exe || path == domain.CacheDir || strings.HasPrefix(path, domain.CacheDir+"/")
}

func (w *world) secret(b []byte) bool {
	if w.update { // what is downloaded has nothing secret
		return false
	}
	s := string(b)
	return vm.Has(s, mark) || vm.Has(s, passMark)
}

func (w *world) start() {
	w.before, w.kinds = map[string][]byte{}, map[string]int{}
	for _, p := range vm.Paths() {
		w.before[p], _ = vm.ReadFile(p)
		w.kinds[p] = vm.Kind(p)
	}
	vm.OnOp(func(op, path string) error {
		if !w.own(path) {
			w.ok = false
		}
		if op == "remove" || op == "rename" || op == "removeall" || op == "truncate" {
			if b, there := vm.ReadFile(path); there && path != exe {
				w.ok = sym.And(w.ok, !w.secret(b))
			}
		}
		w.ops++
		if w.ops == w.fault {
			return w.why
		}
		return nil
	})
}

func (w *world) end() {
	vm.OnOp(nil)
	sym.Assert(w.ok, "only the program's own files are changed, at any time")
	now := map[string]bool{}
	for _, p := range vm.Paths() {
		now[p] = true
		b, file := vm.ReadFile(p)
		if !w.own(p) {
			sym.Assert(w.kinds[p] == vm.Kind(p), "no other files come into being")
			if file {
				sym.Assert(sym.EqBytes(b, w.before[p]), "no other files are changed")
			}
			continue
		}
		if file {
			sym.Assert(!w.secret(b), "no secret is written to a file")
		}
	}
	for p := range w.before {
		if !w.own(p) {
			sym.Assert(now[p], "no other files are removed")
		}
	}
}

func (w *world) faults(most int) {
	w.fault = sym.Choose("fault", most+1)
	w.why = vm.ErrFault
	if w.fault == 1 {
		w.why = vm.Faults[sym.Choose("why", len(vm.Faults))]
	}
}

func run(args ...string) sym.Outcome {
	os.Args = append([]string{"1pass"}, args...)
	return sym.Catch(app.Main)
}

func server(kind int) {
	vm.SetHTTP(func(url string) vm.Reply {
		switch kind {
		case 0:
			return release("2.7.1")
		case 1:
			return release("1.0")
		case 2:
			return vm.Reply{Err: vm.ErrFault}
		}
		return vm.Reply{Body: []byte("<html>")}
	})
}

var commands = [][]string{{"list"}, {"list", "-t"}, {"list", "-n", "<"}, {"list", "-c", "login"}, {"overview", "A1"}, {"overview", "A2", "-t"}, {"details", "A1"}, {"details", "A2", "-t"}, {"details", "A3"}, {"details", "nothing"},
	{"categories"}, {"version"}, {"--help"}, {"help", "list"}, {"nonsense"}, {"details"}}

// VerifCommands: every command that shows something.
func VerifCommands() {
	w := setup()
	server(sym.Choose("server", 4))
	c := commands[sym.Choose("command", len(commands))]
	given := w.pw
	switch sym.Choose("situation", 5) {
	case 0:
		settings(true)
	case 1:
		settings(false)
		given = wrong
	case 2: // no settings yet
		vm.SetStdin("y\n/v\ny\n5\n0\n")
	case 3:
		settings(true)
		c = append(append([]string{}, c...), "-v", []string{"/v/default", "/nowhere", "/", "/v/"}[sym.Choose("other vault", 4)])
	case 4:
		settings(true)
		vm.WriteFile("/v/default/profile.js", []byte("damaged"))
	}
	vm.SetPassword([]byte(given), nil)
	w.faults(4)
	w.start()
	run(c...)
	w.end()
	sym.Cover("commands")
}

// VerifConfigure: settings are the only file that configuring writes.
func VerifConfigure() {
	w := setup()
	server(sym.Choose("server", 4))
	if sym.Bool("before") {
		settings(sym.Bool("notify"))
	}
	vm.SetStdin([]string{"", "y\n/v\ny\n5\n0\n", "y\n/elsewhere/vault\nn\n5\n365\n", "n\n", "y\n../x\n", "\n\n\n\n\n"}[sym.Choose("answers", 6)])
	w.faults(6)
	w.start()
	run("configure")
	w.end()
	sym.Cover("configure")
}

// VerifUpdate: an update changes its temporary directory and the program.
func VerifUpdate() {
	w := setup()
	settings(sym.Bool("notify"))
	bin := []byte("new program")
	sum := md5.Sum(bin)
	entries := []vm.Entry{{Name: "1pass", Type: '0', Data: bin, Mode: 0755}}
	check := hex.EncodeToString(sum[:]) + "  1pass\n"
	cut := 0
	switch sym.Choose("archive", 7) {
	case 1:
		entries = append(entries, vm.Entry{Name: "../other", Type: '0', Data: bin, Mode: 0644})
	case 2:
		entries = append(entries, vm.Entry{Name: "/v/default/profile.js", Type: '0', Data: bin, Mode: 0644}, vm.Entry{Name: "README.md", Type: '0', Data: bin, Mode: 0644})
	case 3:
		check = "00000000000000000000000000000000"
	case 4:
		cut = vm.CutBefore(0)
	case 5:
		entries = nil
	case 6:
		entries = append([]vm.Entry{{Name: "doc", Type: '5', Mode: 0755}, {Name: "doc/README.md", Type: '0', Data: bin, Mode: 0644}}, entries...)
	}
	vm.SetHTTP(func(url string) vm.Reply {
		switch url {
		case domain.GithubReleases:
			return release("2.7.1")
		case "http://h/a":
			return vm.Reply{Body: vm.Archive(entries, cut)}
		case "http://h/c":
			return vm.Reply{Body: []byte(check)}
		}
		return vm.Reply{Err: vm.ErrFault}
	})
	yes := sym.Bool("yes")
	w.update = yes
	vm.SetStdin(map[bool]string{true: "y\n", false: "n\n"}[yes])
	if sym.Bool("leftovers") {
		vm.WriteFile(domain.CacheDir+"/1pass", []byte("left"))
		vm.WriteFile(domain.CacheDir+"/old", []byte("left"))
	}
	w.faults(12)
	w.start()
	run("update")
	w.end()
	sym.Cover("update")
}

// VerifGui: the terminal GUI, with every key that does something.
func VerifGui() {
	w := setup()
	server(sym.Choose("server", 2))
	settings(true)
	if sym.Bool("full disk") {
		w.fault, w.why = 1, vm.ErrFault
	}
	w.start()
	os.Args = []string{"1pass"}
	s := &tui.Session{}
	s.Go(app.Main)
	if s.Done {
		w.end()
		return
	}
	if sym.Bool("wrong first") {
		s.Type(wrong)
		s.Press(termbox.KeyEnter, 0)
		s.Press(termbox.KeyEnter, 0)
		for range wrong {
			s.Press(termbox.KeyArrowRight, 0)
		}
		for range wrong {
			s.Press(termbox.KeyBackspace2, 0)
		}
	}
	s.Type(w.pw)
	s.Press(termbox.KeyEnter, 0)
	s.Press(termbox.KeyArrowDown, 0)
	s.Press(termbox.KeyEnter, 0)
	s.Press(termbox.KeyArrowDown, 0)
	s.Press(termbox.KeyTab, 0)
	if p, there := tui.Find("Details"); there && vm.Has(strings.Join(p.Lines(), "\n"), "<#note") {
		sym.Cover("revealed")
	}
	switch sym.Choose("then", 3) {
	case 1:
		s.Press(termbox.KeyCtrlL, 0)
	case 2:
		s.Press(termbox.KeyTab, 0)
		s.Press(0, 'j')
		s.Press(0, 'q')
		s.Press(termbox.KeyCtrlL, 0)
	}
	s.Quit()
	w.end()
	sym.Cover("gui")
}
