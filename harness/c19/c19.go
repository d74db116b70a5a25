// Package c19: no update happens without the user's consent.
package c19

import (
	"context"
	"errors"
	"io"
	"os"

	"github.com/mashmb/1pass/1pass-core/core/domain"
	"github.com/mashmb/1pass/1pass-core/core/facade"
	"github.com/mashmb/1pass/1pass-core/core/service"
	"github.com/mashmb/1pass/1pass-term/control/cobra"
	"github.com/mashmb/1pass/1pass-up/component/github"

	"verif/harness/stub"
	"verif/harness/sym"
	"verif/harness/vm"
)

// bound: answers: end of input, an empty line, one word of 1..3 symbolic printable characters, 13 fixed odd answers, some of several words; release found or not (error texts and versions of 3 symbolic characters), updating failing or not; for the notifications every command (finding items or none), every configuration (3 default vaults), with a check that finds a version, finds none or fails in one of 6 ways
// bound: beyond: longer answers

var odd = []string{"yes", "YES", "yy", "ny", "nope", "1", "true", "ÿ", "y n", "n y", "y y", "y please", "no y"}

// answer gives the input and whether it is a consent.
func answer() (string, bool) {
	k := sym.Choose("answer", 5+len(odd))
	switch {
	case k == 0:
		return "", false
	case k == 1:
		return "\n", false
	case k >= 5:
		return odd[k-5] + "\n", false
	}
	w := sym.Text("word", k-1)
	for i := range w {
		sym.Assume(w[i] != ' ')
	}
	return w + "\n", sym.Or(w == "y", w == "Y")
}

// settings are any configuration.
func settings(s *stub.All, notify bool) {
	c := s.Config.Conf
	c.Vault = []string{"", "/v", "/other vault"}[sym.Choose("configured vault", 3)]
	c.Timeout, c.UpdatePeriod, c.UpdateNotify = sym.Int("timeout", 1, 30), sym.Int("period", 0, 365), notify
}

// VerifUpdate: the update command.
func VerifUpdate() {
	s := stub.New()
	settings(s, sym.Bool("notify"))
	ver, msg := sym.Text("version", 3), sym.Text("message", 3)
	found := sym.Bool("found")
	if found {
		s.Update.Info, s.Update.Err = domain.NewUpdateInfo("http://a", "http://c", "CHANGES", "v-"+ver, true), nil
	} else {
		s.Update.Err = errors.New("no update: " + msg)
	}
	s.Update.Stages = []int{1, 2, 3, 4, 5, 6, 7}
	fail := sym.Bool("fail")
	if fail {
		s.Update.UpdateErr = errors.New("update error: " + msg)
	}
	in, yes := answer()
	vm.SetStdin(in)
	o := sym.Catch(func() { cobra.NewCobraCliControl(s.Config, s.Update, s.Vault).Update() })
	sym.Assert(o.Kind != sym.Panicked, "the command does not crash")
	out := vm.Out()
	n := s.Log.Count("update")
	sym.Assert(n <= 1, "at most one update is started")
	sym.Assert(len(s.Update.Forced) > 0 && s.Update.Forced[0], "the update command always asks the server")
	if !found {
		sym.Assert(n == 0, "nothing is updated when nothing newer was found")
		sym.Assert(o.Kind == sym.Exited && o.Code != 0, "finding nothing ends with an error status")
		sym.Assert(vm.Has(out, "no update: "+msg), "the reason is printed")
		sym.Cover("none")
		return
	}
	sym.Assert(vm.Has(out, "v-"+ver), "the version is shown")
	sym.Assert((n == 1) == yes, "exactly a consent starts the update")
	if n == 0 {
		sym.Assert(o.Kind == sym.Exited && o.Code != 0, "without consent the command ends with an error status")
		sym.Cover("refused")
		return
	}
	if fail {
		sym.Assert(o.Kind == sym.Exited && o.Code != 0, "a failed update ends with an error status")
		sym.Assert(vm.Has(out, "update error: "+msg), "the failure is printed")
		sym.Cover("failed")
		return
	}
	sym.Assert(o.Kind == sym.Returned, "a successful update ends normally")
	sym.Cover("updated")
}

type cfg struct{ s *stub.All }

func (c cfg) GetConfig() *domain.Config   { return c.s.Config.GetConfig() }
func (c cfg) IsConfigAvailable() bool     { return true }
func (c cfg) SaveConfig(k *domain.Config) {}

// VerifReal: with the real updater nothing is downloaded or changed without consent.
func VerifReal() {
	s := stub.New()
	vm.SetExecutable("/bin/1pass")
	vm.WriteFileMode("/bin/1pass", []byte("old"), 0755)
	vm.Mkdir("/cfg")
	s.Config.Conf.UpdatePeriod = []int{0, 1, 365}[sym.Choose("period", 3)]
	tag := []string{"2.0.0", domain.Version, "0.9.9", "v2.0.0", "9.9.9"}[sym.Choose("release", 5)]
	newer := tag == "2.0.0" || tag == "9.9.9"
	var urls []string
	vm.SetHTTP(func(url string) vm.Reply {
		urls = append(urls, url)
		return vm.Reply{Status: 200, Body: []byte("[{\"tag_name\":\"" + tag + "\",\"body\":\"CHANGED-X\",\"assets\":[{\"name\":\"1pass.tar.gz\",\"browser_download_url\":\"http://h/a\"},{\"name\":\"checksum.md5\",\"browser_download_url\":\"http://h/c\"}]}]")}
	})
	var changed []string
	vm.OnOp(func(op, path string) error {
		if path != "/cfg/lastcheck" {
			changed = append(changed, path)
		}
		return nil
	})
	in, yes := answer()
	vm.SetStdin(in)
	uf := facade.NewDfltUpdateFacade("/cfg", cfg{s}, service.NewDfltUpdateService(github.NewGithubUpdater()))
	o := sym.Catch(func() { cobra.NewCobraCliControl(s.Config, uf, s.Vault).Update() })
	vm.OnOp(nil)
	sym.Assert(o.Kind == sym.Exited && o.Code != 0, "the command ends with an error status") // also with consent: the archive is none
	b, _ := vm.ReadFile("/bin/1pass")
	sym.Assert(string(b) == "old", "the program is as before")
	if newer && sym.Fork(yes) {
		sym.Assert(len(urls) > 1, "with consent the update starts")
		sym.Cover("consent")
		return
	}
	sym.Assert(len(changed) == 0, "without consent nothing is written")
	for _, u := range urls {
		sym.Assert(u == domain.GithubReleases, "without consent nothing is downloaded")
	}
	sym.Assert(newer == vm.Has(vm.Out(), "CHANGED-X") && (!newer || vm.Has(vm.Out(), tag)), "exactly a newer version is offered")
	sym.Cover("no consent")
}

// VerifNotify: other commands at most print a notification.
func VerifNotify() {
	s := stub.New()
	ver := sym.Text("version", 3)
	notify := sym.Bool("notify")
	settings(s, notify)
	kind := sym.Choose("check", 4)
	switch kind {
	case 0:
		s.Update.Info, s.Update.Err = domain.NewUpdateInfo("http://a", "http://c", "CHANGES", "v-"+ver, true), nil
	case 1:
		s.Update.Err = domain.ErrNoUpdate
	case 2:
		s.Update.Err = errors.New("lookup failed: " + ver)
	case 3:
		s.Update.Err = []error{io.EOF, context.DeadlineExceeded, os.ErrNotExist, domain.ErrInvalidVault, errors.New("")}[sym.Choose("error", 5)]
	}
	s.Vault.Items = []*domain.SimpleItem{domain.NewSimpleItem(domain.ItemCategoryEnum.Login, "TITLE-X", false, "UID-X")}
	s.Vault.Item = domain.NewItem("UID-X", "TITLE-X", "", "", false, domain.ItemCategoryEnum.Login, nil, 1, 2)
	vm.SetPassword([]byte("pw"), nil)
	vm.SetStdin("\n\n\n\n")
	c := sym.Choose("command", 8)
	o := sym.Catch(func() {
		ctl := cobra.NewCobraCliControl(s.Config, s.Update, s.Vault)
		switch c {
		case 0:
			ctl.GetItems("/v", "", "", false)
		case 1:
			ctl.GetItemOverview("/v", "UID-X", false)
		case 2:
			ctl.GetItemDetails("/v", "UID-X", false)
		case 3:
			ctl.GetCategories()
		case 4:
			ctl.Configure()
		case 5:
			s.Vault.Items, s.Vault.Item = nil, nil
			ctl.GetItems("/v", "Login", "x", true)
		case 6:
			s.Vault.Items, s.Vault.Item = nil, nil
			ctl.GetItemOverview("/v", "UID-X", true)
		case 7:
			s.Vault.Items, s.Vault.Item = nil, nil
			ctl.GetItemDetails("/v", "UID-X", true)
		}
	})
	out := vm.Out()
	sym.Assert(o.Kind == sym.Returned, "an update check does not disturb the command")
	sym.Assert(vm.Has(out, []string{"TITLE-X", "TITLE-X", "TITLE-X", "Secure Note", "1pass configured", "No results", "UID-X", "UID-X"}[c]), "the command does its work")
	sym.Assert(s.Log.Count("update") == 0, "no update is started")
	for _, f := range s.Update.Forced {
		sym.Assert(!f, "the check respects the period")
	}
	note := vm.Has(out, "New version of 1pass is available")
	sym.Assert(note == (notify && kind == 0), "exactly a newer version is notified, when wanted")
	if note {
		sym.Assert(vm.Has(out, "v-"+ver), "the notification names the version")
		sym.Cover("notified")
	}
	if !notify {
		sym.Assert(s.Log.Count("check") == 0, "no check without notifications")
	}
	sym.Cover("command")
}
