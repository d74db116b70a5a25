// Package c14: commands open the chosen vault, and nothing shows before unlocking.
package c14

import (
	"errors"
	"io"

	"github.com/mashmb/1pass/1pass-core/core/domain"
	"github.com/mashmb/1pass/1pass-term/control/cobra"
	"github.com/mashmb/1pass/1pass-term/control/gocui"

	"verif/harness/opv"
	"verif/harness/stub"
	"verif/harness/sym"
	"verif/harness/vm"
)

// bound: list, overview and details commands; vault arguments of 0..4 symbolic bytes, configured default vaults of 0..4 symbolic bytes, passwords of 0..5 arbitrary symbolic bytes, validation and unlocking each succeeding or failing with an error text of 3 symbolic characters, with and without an existing configuration
// bound: fixed passwords of up to 1100 characters against the real vault code
// bound: beyond: longer paths and passwords
// assume: the terminal delivers the typed password; a failure to read it is not modelled as a password

func run(c int, s *stub.All, vault string) sym.Outcome {
	return sym.Catch(func() {
		ctl := cobra.NewCobraCliControl(s.Config, s.Update, s.Vault)
		switch c {
		case 0:
			ctl.GetItems(vault, "", "", false)
		case 1:
			ctl.GetItemOverview(vault, "AA", false)
		default:
			ctl.GetItemDetails(vault, "AA", false)
		}
	})
}

func all(s *stub.All) {
	s.Vault.Items = []*domain.SimpleItem{domain.NewSimpleItem(domain.ItemCategoryEnum.Login, "TITLE-X", false, "UID-X")}
	s.Vault.Item = domain.NewItem("UID-X", "TITLE-X", "URL-X", "NOTES-X", false, domain.ItemCategoryEnum.Login,
		[]*domain.ItemSection{domain.NewItemSection("SEC-X", []*domain.ItemField{domain.NewItemField("NAME-X", "VALUE-X")})}, 1, 2)
}

func leak(out string) bool {
	for _, w := range []string{"UID-X", "TITLE-X", "URL-X", "NOTES-X", "SEC-X", "NAME-X", "VALUE-X"} {
		if vm.Has(out, w) {
			return true
		}
	}
	return false
}

// VerifCommand: one command, everything about the vault arbitrary.
func VerifCommand() {
	s := stub.New()
	all(s)
	arg := sym.Str("arg", sym.Choose("arglen", 5))
	def := sym.Str("default", sym.Choose("deflen", 4)+1)
	pw := sym.Bytes("password", sym.Choose("pwlen", 6))
	s.Config.Conf.Vault = def
	s.Config.Conf.UpdateNotify = sym.Bool("notify")
	e := sym.Text("error", 3)
	bad := sym.Choose("bad", 3)
	switch bad {
	case 1:
		s.Vault.ValidErr = errors.New("bad vault " + e)
	case 2:
		s.Vault.UnlockErr = errors.New("bad password " + e)
	}
	askedAtUnlock := -1
	outAtUnlock := -1
	s.Vault.Hook = func(op string) {
		if op == "unlock" {
			askedAtUnlock = vm.PasswordAsked()
			outAtUnlock = len(vm.Out())
		}
	}
	vm.SetPassword(pw, nil)
	o := run(sym.Choose("command", 3), s, arg)
	want := arg
	if len(arg) == 0 {
		want = def
		sym.Cover("default vault")
	}
	out := vm.Out()
	sym.Assert(o.Kind != sym.Panicked, "the command does not crash")
	sym.Assert(s.Log.First("validate") >= 0, "the vault is validated")
	sym.Assert(s.Vault.ValidPath == want, "the vault that is validated is the chosen one")
	items := s.Log.Count("item") + s.Log.Count("items")
	if bad == 1 {
		sym.Assert(o.Kind == sym.Exited && o.Code != 0, "an invalid vault ends the command with an error status")
		sym.Assert(vm.PasswordAsked() == 0 && s.Log.Count("unlock") == 0, "no password is asked for an invalid vault")
		sym.Assert(items == 0, "no item is fetched from an invalid vault")
		sym.Assert(vm.Has(out, "bad vault "+e), "the error is printed")
		sym.Assert(!leak(out), "nothing of an item is printed")
		sym.Cover("invalid vault")
		return
	}
	sym.Assert(s.Log.Count("unlock") == 1, "the vault is unlocked once")
	sym.Assert(s.Log.First("validate") < s.Log.First("unlock"), "validation comes first")
	sym.Assert(s.Vault.Path == want, "the vault that is unlocked is the chosen one")
	sym.Assert(askedAtUnlock == 1, "the password is asked for once")
	sym.Assert(s.Vault.Password == string(pw), "the password tried is the one typed")
	sym.Assert(outAtUnlock >= 0 && !leak(out[:outAtUnlock]), "nothing of an item is printed before unlocking")
	if bad == 2 {
		sym.Assert(o.Kind == sym.Exited && o.Code != 0, "a refused password ends the command with an error status")
		sym.Assert(items == 0, "no item is fetched after a refused password")
		sym.Assert(vm.Has(out, "bad password "+e), "the error is printed")
		sym.Assert(!leak(out), "nothing of an item is printed")
		sym.Cover("refused")
		return
	}
	sym.Assert(o.Kind == sym.Returned, "the command succeeds")
	sym.Assert(items == 1, "the item data is fetched")
	sym.Assert(s.Log.Calls[len(s.Log.Calls)-1] == "item" || s.Log.Calls[len(s.Log.Calls)-1] == "items", "items are fetched after unlocking")
	sym.Assert(vm.Has(out, "TITLE-X"), "the item is printed")
	sym.Cover("unlocked")
}

// VerifNoPassword: the password cannot be read.
func VerifNoPassword() {
	s := stub.New()
	all(s)
	s.Config.Conf.Vault = "/default"
	refuse := sym.Bool("refuse")
	if refuse {
		s.Vault.UnlockErr = errors.New("bad password")
	}
	var part []byte
	if sym.Bool("part") {
		part = sym.Bytes("part", 2)
	}
	vm.SetPassword(part, []error{vm.ErrFault, io.EOF}[sym.Choose("error", 2)])
	o := run(sym.Choose("command", 3), s, []string{"", "/v"}[sym.Choose("arg", 2)])
	sym.Assert(o.Kind != sym.Panicked, "the command does not crash")
	items := s.Log.Count("item") + s.Log.Count("items")
	if items > 0 || leak(vm.Out()) {
		sym.Assert(s.Log.Count("unlock") > 0 && !refuse, "nothing is fetched or printed unless the vault was unlocked")
		sym.Cover("unlocked without password")
		return
	}
	if refuse {
		sym.Assert(o.Kind == sym.Exited && o.Code != 0, "the command ends with an error status")
	}
}

// VerifFirstRun: the default vault given at the first run is used at once.
func VerifFirstRun() {
	s := stub.New()
	all(s)
	s.Config.Available = false
	s.Config.Conf.Vault = ""
	p := sym.Text("path", 3)
	for i := range p {
		sym.Assume(p[i] != ' ')
	}
	vm.SetStdin("y\n" + p + "\nn\n\n\n")
	vm.SetPassword([]byte("pw"), nil)
	o := run(sym.Choose("command", 3), s, "")
	sym.Assert(o.Kind == sym.Returned, "the command succeeds")
	sym.Assert(s.Vault.ValidPath == p && s.Vault.Path == p, "the vault just configured is used")
	sym.Assert(len(s.Config.Saved) == 1 && s.Config.Saved[0].Vault == p, "the configuration is saved")
	sym.Cover("first run")
}

// VerifGui: the graphical interface chooses and validates alike.
func VerifGui() {
	s := stub.New()
	arg := sym.Str("arg", sym.Choose("arglen", 5))
	def := sym.Str("default", sym.Choose("deflen", 4)+1)
	s.Config.Conf.Vault = def
	if sym.Bool("bad") {
		s.Vault.ValidErr = errors.New("bad vault")
	}
	v, err := gocui.NewGocuiGuiControl(s.Config, s.Update, s.Vault).ValidateVault(arg)
	want := arg
	if len(arg) == 0 {
		want = def
	}
	sym.Assert(s.Vault.ValidPath == want, "the vault that is validated is the chosen one")
	if s.Vault.ValidErr != nil {
		sym.Assert(err != nil && v == nil, "an invalid vault is refused")
		sym.Cover("gui refused")
		return
	}
	sym.Assert(err == nil && v != nil, "a valid vault is accepted")
	sym.Assert(v.Path == want, "the vault to be opened is the chosen one")
	sym.Cover("gui accepted")
}

// VerifWrong: with the real vault code, a wrong password shows nothing.
func VerifWrong() {
	s := stub.New()
	good := sym.Bool("good")
	right := []string{"right", opv.Long(20), opv.Long(65), opv.Long(129), opv.Long(1100)}[sym.Choose("length", 5)]
	n := len(right)
	pw := []string{"wrong", "", right + " ", "R" + right[1:], right[:n-1], right[:n-1] + "#", right + right, right[:(n+1)/2]}[sym.Choose("which", 8)]
	if good {
		pw = right
	}
	v := opv.NewVault("/v", right)
	v.WriteProfile()
	v.WriteBand("band_0.js", &opv.Item{Uid: "AA", Category: "001", Overview: "{\"title\":\"TITLE-X\",\"url\":\"URL-X\"}", Details: "{\"notesPlain\":\"NOTES-X\",\"fields\":[{\"name\":\"NAME-X\",\"value\":\"VALUE-X\"}]}"})
	a := opv.NewApp("/cfg")
	vm.SetPassword([]byte(pw), nil)
	c := sym.Choose("command", 3)
	o := sym.Catch(func() {
		ctl := cobra.NewCobraCliControl(s.Config, s.Update, a.Vaults)
		switch c {
		case 0:
			ctl.GetItems("/v", "", "", false)
		case 1:
			ctl.GetItemOverview("/v", "AA", false)
		default:
			ctl.GetItemDetails("/v", "AA", false)
		}
	})
	if good {
		sym.Assert(o.Kind == sym.Returned && vm.Has(vm.Out(), "TITLE-X"), "the right password opens the vault")
		sym.Cover("right")
		return
	}
	sym.Assert(o.Kind == sym.Exited && o.Code != 0, "a wrong password ends the command with an error status")
	sym.Assert(!leak(vm.Out()), "a wrong password shows nothing")
	sym.Cover("wrong")
}
