// Package c17: saved settings are read back unchanged and defaults fill the gaps.
package c17

import (
	"github.com/mashmb/1pass/1pass-core/core/domain"
	"github.com/mashmb/1pass/1pass-core/core/facade"
	"github.com/mashmb/1pass/1pass-core/core/service"
	"github.com/mashmb/1pass/1pass-parse/repo/file"

	"verif/harness/sym"
	"verif/harness/vm"
)

// bound: settings: timeout 1..30, period 0..365, both notification settings, vault paths of 0..4 arbitrary symbolic bytes and 22 fixed odd texts (these with fixed numbers); previous file: no directory, no file, empty, comment only, every subset of the four settings, a complete file; one or two saves; both the running program and a new one read
// bound: beyond: files edited by hand with other value types or invalid YAML, failing disks
// assume: yaml.Unmarshal(yaml.Marshal(x)) gives x for symbolic strings (the real library runs on all concrete ones and in replays)

var odd = []string{"", "true", "no", "~", "null", "123", "1e3", "0x1F", "1:30", "2001-01-01", " lead", "trail ", "a: b", "#c", "'q'", "\"d\"", "a\nb", "- x", "{a}", "[b]", "Zażółć/漢字", "/a b/c"}

func conf(dir string) facade.ConfigFacade {
	return facade.NewDfltConfigFacade(service.NewDfltConfigService(file.NewFileConfigRepo(dir)))
}

func any(k string) *domain.Config {
	n := sym.Choose(k+"kind", 5+len(odd))
	if n >= 5 {
		// all known: the real YAML library decides
		return domain.NewConfig([]int{1, 30, 9}[n%3], []int{0, 365, 1, 30}[n%4], n%2 == 0, odd[n-5])
	}
	return domain.NewConfig(sym.Int(k+"timeout", 1, 30), sym.Int(k+"period", 0, 365), sym.Bool(k+"notify"), sym.Str(k+"vault", n))
}

// before prepares a previous state and says what it means.
func before(dir string) (*domain.Config, bool) {
	want := domain.NewConfig(1, 1, true, "")
	text := ""
	available := false
	f := dir + "/1pass.yml"
	switch sym.Choose("before", 5) {
	case 0:
		return want, false
	case 1:
		vm.Mkdir(dir)
		return want, false
	case 2:
		vm.WriteFile(f, nil)
		return want, false
	case 3:
		vm.WriteFile(f, []byte("# nothing here\n"))
		return want, false
	}
	m := sym.Choose("settings", 15) + 1
	if m&1 != 0 {
		text += "opvault: /before\n"
		want.Vault = "/before"
	}
	if m&2 != 0 {
		text += "timeout: 17\n"
		want.Timeout = 17
	}
	if m&4 != 0 {
		text += "update-notification: false\n"
		want.UpdateNotify = false
	}
	if m&8 != 0 {
		text += "update-period: 0\n"
		want.UpdatePeriod = 0
	}
	available = true
	vm.WriteFile(f, []byte(text))
	return want, available
}

func same(a, b *domain.Config) bool {
	return sym.And(sym.And(a.Timeout == b.Timeout, a.UpdatePeriod == b.UpdatePeriod), sym.And(a.UpdateNotify == b.UpdateNotify, a.Vault == b.Vault))
}

// VerifDefaults: what is not saved has its default.
func VerifDefaults() {
	want, av := before("/home/u/.config/1pass")
	var c facade.ConfigFacade
	o := sym.Catch(func() { c = conf("/home/u/.config/1pass") })
	sym.Assert(o.Kind == sym.Returned, "reading the configuration neither crashes nor ends the program")
	sym.Assert(same(c.GetConfig(), want), "missing settings have their defaults, others are read")
	sym.Assert(c.IsConfigAvailable() == av, "the configuration is available exactly when a setting is stored")
	sym.Cover("defaults")
}

// VerifSaved: a saved configuration is read back, now and later.
func VerifSaved() {
	dir := "/home/u/.config/1pass"
	before(dir)
	c := conf(dir)
	k := any("new")
	keep := *k
	o := sym.Catch(func() { c.SaveConfig(k) })
	sym.Assert(o.Kind == sym.Returned, "saving neither crashes nor ends the program")
	sym.Assert(same(c.GetConfig(), &keep), "the running program sees what was saved")
	sym.Assert(c.IsConfigAvailable(), "a saved configuration is available")
	d := conf(dir)
	sym.Assert(same(d.GetConfig(), &keep), "a later run sees what was saved")
	sym.Assert(d.IsConfigAvailable(), "a saved configuration is available later")
	sym.Cover("saved")
}

// VerifTwice: the second save counts.
func VerifTwice() {
	dir := "/c"
	c := conf(dir)
	c.SaveConfig(any("first"))
	if sym.Bool("restart") {
		c = conf(dir)
	}
	k := domain.NewConfig(2, 0, false, "/x")
	if sym.Bool("symbolic") {
		k = domain.NewConfig(sym.Int("timeout", 1, 30), sym.Int("period", 0, 365), sym.Bool("notify"), sym.Str("vault", sym.Choose("vaultlen", 3)))
	}
	keep := *k
	o := sym.Catch(func() { c.SaveConfig(k) })
	sym.Assert(o.Kind == sym.Returned, "saving neither crashes nor ends the program")
	sym.Assert(same(c.GetConfig(), &keep), "the running program sees what was saved last")
	sym.Assert(same(conf(dir).GetConfig(), &keep), "a later run sees what was saved last")
	sym.Cover("twice")
}
