// Package c35: the update command says truly what it does.
package c35

import (
	"crypto/md5"
	"encoding/hex"
	"os"
	"strings"

	"github.com/mashmb/1pass/1pass-core/core/domain"

	"verif/harness/opv"
	"verif/harness/sym"
	"verif/harness/vm"
	app "verif/harness/zz_app"
)

// bound: the update command run by the program's own main function: 4 release versions, change logs of two lines with 3 symbolic characters, programs of 3 symbolic bytes, 6 kinds of releases (complete, wrong checksum, a cut archive, an archive without the program, no archive or no checksum to download), 3 answers, leftovers of an earlier update or none, any one of the first 14 changes of the file system failing
// bound: beyond: several faults at once, errors other than a failing operation (C18)
// assume: what changes the file system goes through the os package; the package main of 1pass-app is compiled under another name

const exe = "/usr/local/bin/1pass"

var stages = []string{"Creating update cache", "Downloading new version", "Downloading checksums", "Extracting downloaded files", "Validating checksums", "Replacing binary", "Cleaning update cache"}

type watch struct{ early, late bool }

// now is to be called when the step of a stage is going on.
func (w *watch) now(stage int) {
	out := vm.Out()
	for i, s := range stages {
		if i+1 <= stage && !strings.Contains(out, s) {
			w.late = true
		}
		if i+1 > stage && strings.Contains(out, s) {
			w.early = true
		}
	}
}

// VerifUpdate: what is printed at every moment of an update is true.
func VerifUpdate() {
	vm.WriteFile("/home/user/.config/1pass/1pass.yml", []byte("opvault: /v\ntimeout: 5\nupdate-notification: true\nupdate-period: 1\n"))
	vm.WriteFileMode(exe, []byte("old program"), 0755)
	vm.SetExecutable(exe)
	vm.SetNow(1600000000)
	ver := []string{"2.7.1", "10.0.0", domain.Version, "0.0.9"}[sym.Choose("version", 4)]
	newer := ver == "2.7.1" || ver == "10.0.0"
	log1, log2 := "first "+sym.In("change log", 3, 'a', 'z'), "second line"
	bin := append([]byte("new program "), sym.Bytes("program", 3)...)
	sum := md5.Sum(bin)
	check := hex.EncodeToString(sum[:]) + "  1pass\n"
	entries := []vm.Entry{{Name: "1pass", Type: '0', Data: bin, Mode: 0755}}
	cut, kind := 0, 0
	if newer {
		kind = sym.Choose("kind", 6)
	}
	switch kind {
	case 1:
		sum[0] ^= 1
		check = hex.EncodeToString(sum[:]) + "  1pass\n"
	case 2:
		cut = vm.CutBefore(0)
	case 3:
		entries = nil
	}
	w := &watch{}
	moment := 0
	vm.SetHTTP(func(url string) vm.Reply {
		switch {
		case url == domain.GithubReleases:
			return vm.Reply{Status: 200, Body: []byte("[{\"tag_name\":\"" + ver + "\",\"body\":\"" + log1 + "\\n" + log2 + "\",\"assets\":[{\"name\":\"1pass.tar.gz\",\"browser_download_url\":\"http://h/a\"},{\"name\":\"checksum.md5\",\"browser_download_url\":\"http://h/c\"}]}]")}
		case url == "http://h/a":
			w.now(2)
			moment |= 2
			if kind != 4 {
				return vm.Reply{Body: vm.Archive(entries, cut)}
			}
		case url == "http://h/c":
			w.now(3)
			moment |= 4
			if kind != 5 {
				return vm.Reply{Body: []byte(check)}
			}
		}
		return vm.Reply{Err: vm.ErrFault}
	})
	answer := sym.Choose("answer", 3)
	vm.SetStdin([]string{"y\n", "n\n", ""}[answer])
	yes := answer == 0
	if sym.Bool("leftovers") {
		vm.WriteFile(domain.CacheDir+"/1pass", []byte("left"))
	}
	fault := 0
	if newer && yes {
		fault = sym.Choose("fault", 15)
	}
	n, first, replaced := 0, true, false
	vm.OnOp(func(op, path string) error {
		switch {
		case path == exe:
			w.now(6)
			moment |= 8
		case path == domain.CacheDir+"/1pass" && op == "open":
			w.now(4)
			moment |= 16
		case path == domain.CacheDir && first:
			w.now(1)
			first = false
			moment |= 1
		case path == domain.CacheDir && op == "removeall":
			b, _ := vm.ReadFile(exe)
			replaced = string(b) != "old program"
			w.now(7)
			moment |= 32
		}
		n++
		if n == fault {
			return vm.ErrFault
		}
		return nil
	})
	os.Args = []string{"1pass", "update"}
	o := sym.Catch(app.Main)
	vm.OnOp(nil)
	out := vm.Out()
	success := "updated to version " + ver
	sym.Assert(o.Kind != sym.Panicked, "the command does not crash")
	sym.Assert(!w.late && !w.early, "a stage is announced when it begins, neither earlier nor later")
	started := strings.Contains(out, stages[0])
	// the program, as it is now
	b, _ := vm.ReadFile(exe)
	sym.Assert(moment&32 == 0 || replaced, "cleaning is announced once the program is replaced")
	if string(b[:3]) == "new" {
		sym.Assert(sym.EqBytes(b, bin), "the program is the new one")
		sym.Assert(strings.Contains(out, stages[5]), "replacing the program is announced")
	}
	if o.Kind == sym.Returned || o.Code == 0 {
		sym.Assert(string(b[:3]) == "new" && strings.Contains(out, success), "success means the program is replaced")
		sym.Assert(opv.InOrder(out, append(append([]string{ver, log1, log2}, stages...), success)...), "all stages are told in order")
		sym.Cover("updated")
		return
	}
	sym.Assert(!strings.Contains(out, success), "a failed update is not called a success")
	if !newer {
		sym.Assert(!started && strings.Contains(out, domain.ErrNoUpdate.Error()), "nothing newer is told")
		sym.Cover("none")
		return
	}
	sym.Assert(opv.InOrder(out, ver, log1, log2, "update now"), "version and change log are told before asking")
	if !yes {
		sym.Assert(!started && moment == 0 && strings.Contains(out, "Aborting"), "a refusal is told")
		sym.Cover("refused")
		return
	}
	// what failed follows the last stage that is told
	at := 0
	for _, s := range stages {
		if i := strings.Index(out[at:], s); i >= 0 {
			at += i + len(s)
		}
	}
	sym.Assert(!started || strings.TrimSpace(strings.TrimLeft(out[at:], ".")) != "", "the failure is told")
	sym.Assert(fault != 0 || kind != 0, "an update that can be done succeeds")
	sym.Cover("failed")
}
