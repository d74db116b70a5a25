// Package c12: the overview command never discloses sensitive data.
package c12

import (
	"github.com/mashmb/1pass/1pass-core/core/domain"
	"github.com/mashmb/1pass/1pass-term/control/cobra"

	"verif/harness/opv"
	"verif/harness/stub"
	"verif/harness/sym"
	"verif/harness/vm"
)

// bound: two runs of the overview command on items that differ in all field values and in the notes only: values and notes of 0..3 arbitrary bytes and of 40 and 200 bytes (lengths independent between the runs), field names, section titles, title and URL symbolic (1..2 characters), 6 section shapes with up to 2 sections and 4 fields, 6 combinations (60 in the thorough tier) of dates, category, trashed state and URL; items of every category, trashed or not, with 37 fields in 7 sections under 14 common names; values and notes of up to 5000 bytes; 68 pairs of values of recognisable kinds (dates, addresses, numbers, ...)
// bound: fixed titles, URLs, section titles and field names of up to 6001 characters
// bound: 6 kinds of configuration and update outcome with any timeout and update period, the vault given by option or taken from the configuration
// bound: beyond: more fields, other lengths
// assume: an item as given by the vault facade; decoding is C06's and C28's matter

var lens = []int{0, 1, 3, 40, 200}

var setting, path = -1, "/v"

func show(it *domain.Item) string {
	s := stub.New()
	s.Config.Conf.UpdateNotify = false
	if setting >= 0 {
		s.Set(setting)
	}
	s.Vault.Item = it
	vm.SetPassword([]byte("pw"), nil)
	k := len(vm.Out())
	o := sym.Catch(func() {
		cobra.NewCobraCliControl(s.Config, s.Update, s.Vault).GetItemOverview(path, "AA", it.Trashed)
	})
	sym.Assert(o.Kind == sym.Returned, "the command ends normally")
	return vm.Out()[k:]
}

func pair(a *domain.Item, val func() string) *domain.Item {
	b := *a
	if a.Sections != nil {
		b.Sections = []*domain.ItemSection{}
	}
	for _, s := range a.Sections {
		t := domain.NewItemSection(s.Title, nil)
		for _, f := range s.Fields {
			t.Fields = append(t.Fields, domain.NewItemField(f.Name, val()))
		}
		b.Sections = append(b.Sections, t)
	}
	return &b
}

func compare(a, b *domain.Item) {
	want := stub.Pieces(a, func(s, f int) string { return "**********" }, "**********")
	x := show(a)
	y := show(b)
	sym.Assert(x == y, "the overview does not depend on any field value or on the notes")
	sym.Assert(opv.InOrder(x, want...), "the overview shows everything else, and masks")
}

// VerifKinds: every category, common names of fields, many fields.
func VerifKinds() {
	a := stub.Skeleton()
	a.Category = domain.ItemCategoryEnum.GetValues()[sym.Choose("category", len(domain.ItemCategoryEnum.GetValues()))]
	a.Trashed = sym.Bool("trashed")
	n := []int{1, 12}[sym.Choose("len", 2)]
	a.Sections = stub.Wide(func() string { return sym.Str("value", n) })
	b := pair(a, func() string { return sym.Str("other", 2) })
	a.Notes = sym.Str("notes", 2)
	b.Notes = sym.Str("othernotes", 1)
	compare(a, b)
	sym.Cover("kinds")
}

// VerifSettings: every kind of configuration, and every vault option.
func VerifSettings() {
	a := stub.Skeleton()
	n := sym.Choose("vallen", 3)
	a.Sections = stub.Sections(1+sym.Choose("shape", stub.Shapes-1), func() string { return sym.Str("value", n) })
	a.Notes = sym.Str("notes", 1+n)
	a.Trashed = sym.Bool("trashed")
	setting = sym.Choose("setting", stub.Settings)
	path = []string{"/v", "", "/v2"}[sym.Choose("option", 3)]
	b := pair(a, func() string { return sym.Str("other", n) })
	b.Notes = sym.Str("other notes", 1+n)
	compare(a, b)
	sym.Cover("settings")
}

// VerifTelling: values that look like something known are masked as well.
func VerifTelling() {
	k := sym.Choose("value", len(stub.Telling))
	old, other := stub.Telling[k], stub.Telling[(k+1)%len(stub.Telling)]
	if sym.Bool("other kind") {
		other = stub.Telling[(k+7)%len(stub.Telling)]
	}
	a := domain.NewItem("AA", sym.Text("title", 2), "http://u", "", false, nil, nil, 1, 2)
	a.Trashed = sym.Bool("trashed")
	a.Category = domain.ItemCategoryEnum.GetValues()[k%len(domain.ItemCategoryEnum.GetValues())]
	f := func(name string) *domain.ItemField { return domain.NewItemField(name, old) }
	a.Sections = []*domain.ItemSection{
		domain.NewItemSection("", []*domain.ItemField{f("Username"), f(""), f("Date")}),
		domain.NewItemSection("Extra", []*domain.ItemField{f("Pin"), f(old)}),
	}
	b := pair(a, func() string { return other })
	a.Notes, b.Notes = old, other
	compare(a, b)
	sym.Cover("telling values")
}

// VerifLong: long secrets.
func VerifLong() {
	a := domain.NewItem("AA", "t", "", "", false, domain.ItemCategoryEnum.Login, nil, 1, 2)
	n := []int{64, 257, 1025, 5000}[sym.Choose("len", 4)]
	a.Sections = stub.Sections(3, func() string { return sym.Str("value", n) })
	b := pair(a, func() string { return sym.Str("other", 2) })
	a.Notes = sym.Str("notes", n)
	b.Notes = sym.Str("othernotes", 1)
	compare(a, b)
	sym.Cover("long")
}

// VerifMasked: two items that differ in secrets only look the same.
func VerifMasked() {
	a := stub.Skeleton()
	n := lens[sym.Choose("vallen", len(lens))]
	shape := sym.Choose("shape", stub.Shapes)
	a.Sections = stub.Sections(shape, func() string { return sym.Str("value", n) })
	m := lens[sym.Choose("otherlen", len(lens))]
	b := pair(a, func() string { return sym.Str("other", m) })
	if sym.Bool("notes") {
		a.Notes = sym.Str("notes", 1+sym.Choose("noteslen", 3))
		b.Notes = sym.Str("othernotes", 1+2*sym.Choose("othernoteslen", 2))
		sym.Cover("notes")
	}
	compare(a, b)
	if n > 3 {
		sym.Cover("long values")
	}
	sym.Cover("shown")
}

// VerifVault: the whole way from an encrypted vault to the screen.
func VerifVault() {
	v := opv.NewVault("/v", "pw")
	v.WriteProfile()
	val, pw, note := sym.Text("value", 4), sym.Text("password", 3), sym.Text("notes", 4)
	for _, s := range []string{val, pw, note} {
		for i := range s {
			sym.Assume(s[i] >= 'a')
			sym.Assume(s[i] <= 'z')
		}
	}
	v.WriteBand("band_0.js", &opv.Item{Uid: "AA", Category: "001", Overview: "{\"title\":\"Tit\",\"url\":\"http://u\"}",
		Details: "{\"notesPlain\":\"" + note + "\",\"fields\":[{\"name\":\"user\",\"value\":\"" + val + "\",\"type\":\"T\",\"designation\":\"username\"},{\"name\":\"pass\",\"value\":\"" + pw +
			"\",\"type\":\"P\"}],\"sections\":[{\"name\":\"s\",\"title\":\"extra\",\"fields\":[{\"k\":\"concealed\",\"n\":\"x\",\"t\":\"pin\",\"v\":\"" + val + "\"}]}]}"})
	a := opv.NewApp("/cfg")
	s := stub.New()
	s.Config.Conf.UpdateNotify = false
	vm.SetPassword([]byte("pw"), nil)
	o := sym.Catch(func() {
		cobra.NewCobraCliControl(s.Config, s.Update, a.Vaults).GetItemOverview("/v", "AA", false)
	})
	sym.Assert(o.Kind == sym.Returned, "the command ends normally")
	out := vm.Out()
	sym.Assert(opv.InOrder(out, "Login\n", "\nTit\n", "URL: http://u\n", "User: **********\n", "Pass: **********\n", "Extra\n", "Pin: **********\n", "**********\n"), "the overview shows masks")
	// the words of the screen itself cannot be what is looked for
	for _, w := range []string{val, pw, note} {
		for i := 0; i+len(w) <= len(frame); i++ {
			sym.Assume(frame[i:i+len(w)] != w)
		}
	}
	for _, w := range []string{val, pw, note} {
		for i := 0; i+len(w) <= len(out); i++ {
			sym.Assert(out[i:i+len(w)] != w, "no secret is on the screen")
		}
	}
	sym.Cover("vault")
}

const frame = "assword: ogin -- it pdated: reated: rashed: false rue http://u ser: ass: xtra in: otes"

// VerifLongNames: long titles, URLs, section titles and field names.
func VerifLongNames() {
	n := []int{24, 40, 81, 130, 257, 3000}[sym.Choose("len", 6)]
	l := opv.Long(n)
	secret := "SECRET" + opv.Long(9)
	f := func(name string) *domain.ItemField { return domain.NewItemField(name, secret) }
	a := domain.NewItem("AA", l+"1", l+"2", secret, sym.Bool("trashed"), domain.ItemCategoryEnum.Login, []*domain.ItemSection{
		domain.NewItemSection("", []*domain.ItemField{f(l + "3"), f("short"), f(l + " " + l)}),
		domain.NewItemSection(l+"4", []*domain.ItemField{f(l + "5"), f("")}),
	}, 1, 2)
	want := stub.Pieces(a, func(s, f int) string { return "**********" }, "**********")
	x := show(a)
	sym.Assert(!vm.Has(x, secret), "no secret is shown")
	sym.Assert(opv.InSeq(x, want...), "the overview shows everything else, and masks")
	sym.Cover("long names")
}
