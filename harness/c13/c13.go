// Package c13: the details command shows every field and the notes in full.
package c13

import (
	"strings"

	"github.com/mashmb/1pass/1pass-core/core/domain"
	"github.com/mashmb/1pass/1pass-term/control/cobra"

	"verif/harness/opv"
	"verif/harness/stub"
	"verif/harness/sym"
	"verif/harness/vm"
)

// bound: field values and notes of 0..3 arbitrary bytes and of 40 and 200 bytes, field names, section titles, title and URL symbolic (1..2 characters), 6 section shapes with up to 2 sections and 4 fields, 6 combinations (60 in the thorough tier) of dates, category, trashed state and URL; items of every category, trashed or not, with 37 fields in 7 sections under 14 common names; values and notes of up to 1028 bytes; 68 values of recognisable kinds (dates, addresses, numbers, ...) as value, label, title and notes; UIDs of 0..3 symbolic characters without an item
// bound: fixed titles, URLs, section titles and field names of up to 6001 characters; fixed values and notes of up to 70000 characters
// bound: 6 kinds of configuration and update outcome with any timeout and update period, the vault given by option or taken from the configuration
// bound: beyond: more fields, other lengths
// assume: an item as given by the vault facade; decoding is C06's and C28's matter

var lens = []int{0, 1, 3, 40, 200}

// VerifShown: everything is there.
func VerifShown() {
	a := stub.Skeleton()
	n := lens[sym.Choose("vallen", len(lens))]
	a.Sections = stub.Sections(sym.Choose("shape", stub.Shapes), func() string { return sym.Str("value", n) })
	if sym.Bool("notes") {
		a.Notes = sym.Str("notes", []int{1, 2, 40, 300}[sym.Choose("noteslen", 4)])
		sym.Cover("notes")
	}
	details(a)
	if n > 3 {
		sym.Cover("long values")
	}
	sym.Cover("shown")
}

var setting, path = -1, "/v"

// VerifSettings: every kind of configuration, and every vault option.
func VerifSettings() {
	a := stub.Skeleton()
	n := sym.Choose("vallen", 3)
	a.Sections = stub.Sections(sym.Choose("shape", stub.Shapes), func() string { return sym.Str("value", n) })
	a.Notes = sym.Str("notes", n)
	a.Trashed = sym.Bool("trashed")
	setting = sym.Choose("setting", stub.Settings)
	path = []string{"/v", "", "/v2"}[sym.Choose("option", 3)]
	details(a)
	sym.Cover("settings")
}

func details(a *domain.Item) {
	want := stub.Pieces(a, func(s, f int) string { return a.Sections[s].Fields[f].Value }, a.Notes)
	sym.Assert(opv.InOrder(shown(a), want...), "the details show everything")
}

func shown(a *domain.Item) string {
	s := stub.New()
	s.Config.Conf.UpdateNotify = false
	if setting >= 0 {
		s.Set(setting)
	}
	s.Vault.Item = a
	vm.SetPassword([]byte("pw"), nil)
	k := len(vm.Out())
	o := sym.Catch(func() {
		cobra.NewCobraCliControl(s.Config, s.Update, s.Vault).GetItemDetails(path, "AA", a.Trashed)
	})
	sym.Assert(o.Kind == sym.Returned, "the command ends normally")
	return vm.Out()[k:]
}

// VerifKinds: every category, common names of fields, many fields.
func VerifKinds() {
	a := stub.Skeleton()
	a.Category = domain.ItemCategoryEnum.GetValues()[sym.Choose("category", len(domain.ItemCategoryEnum.GetValues()))]
	a.Trashed = sym.Bool("trashed")
	a.Sections = stub.Wide(func() string { return sym.Str("value", 1) })
	a.Notes = sym.Str("notes", 2)
	details(a)
	sym.Cover("kinds")
}

// VerifTelling: values that look like something known are shown as they are.
func VerifTelling() {
	k := sym.Choose("value", len(stub.Telling))
	t := func(i int) string { return stub.Telling[(k+i)%len(stub.Telling)] }
	a := domain.NewItem("AA", sym.Text("title", 2), "http://u", "", false, nil, nil, 1, 2)
	a.Trashed = sym.Bool("trashed")
	a.Category = domain.ItemCategoryEnum.GetValues()[k%len(domain.ItemCategoryEnum.GetValues())]
	f := func(name, val string) *domain.ItemField { return domain.NewItemField(name, val) }
	a.Sections = []*domain.ItemSection{
		domain.NewItemSection("", []*domain.ItemField{f("Username", t(0)), f("", t(1)), f("Date", t(0)), f("Date", t(0))}),
		domain.NewItemSection("Extra", []*domain.ItemField{f("Pin", t(2)), f(t(0), t(0))}),
		domain.NewItemSection(t(0), []*domain.ItemField{f("Pin", t(0))}),
	}
	a.Notes = t(0)
	if sym.Bool("title") {
		a.Title, a.Url = t(0), t(0)
	}
	details(a)
	sym.Cover("telling values")
}

// VerifLong: long values.
func VerifLong() {
	n := []int{64, 257, 1025}[sym.Choose("len", 3)]
	a := domain.NewItem("AA", "t", "", "", false, domain.ItemCategoryEnum.Login, nil, 1, 2)
	long := make([]byte, n)
	for i := range long {
		long[i] = byte('a' + i%26)
	}
	a.Sections = stub.Sections(3, func() string { return string(long) + sym.Str("value", 3) })
	a.Notes = string(long) + sym.Str("notes", 3)
	details(a)
	sym.Cover("long")
}

// VerifMissing: an unknown UID is said to be unknown.
func VerifMissing() {
	s := stub.New()
	s.Config.Conf.UpdateNotify = false
	uid := sym.Text("uid", sym.Choose("uidlen", 4))
	vm.SetPassword([]byte("pw"), nil)
	det := sym.Bool("details")
	tr := sym.Bool("trashed")
	o := sym.Catch(func() {
		c := cobra.NewCobraCliControl(s.Config, s.Update, s.Vault)
		if det {
			c.GetItemDetails("/v", uid, tr)
		} else {
			c.GetItemOverview("/v", uid, tr)
		}
	})
	sym.Assert(o.Kind == sym.Returned, "the command ends normally")
	sym.Assert(opv.InOrder(vm.Out(), "Item with UID "+uid+" do not exist\n"), "a missing item is reported")
	sym.Assert(s.Vault.Uid == uid, "the item asked for is the one of the command")
	sym.Assert(s.Vault.Trashed == tr, "the side of the trash is the one of the command")
	sym.Cover("missing")
}

// VerifLongNames: long titles, URLs, section titles and field names.
func VerifLongNames() {
	n := []int{24, 40, 81, 130, 257, 3000}[sym.Choose("len", 6)]
	l := opv.Long(n)
	secret := "SECRET" + opv.Long(9)
	f := func(name string) *domain.ItemField { return domain.NewItemField(name, secret) }
	a := domain.NewItem("AA", l+"1", l+"2", secret, sym.Bool("trashed"), domain.ItemCategoryEnum.Login, []*domain.ItemSection{
		domain.NewItemSection("", []*domain.ItemField{f(l + "3"), f("short"), f(l + " " + l)}),
		domain.NewItemSection(l+"4", []*domain.ItemField{f(l + "5"), f("")}),
	}, 1, 2)
	want := stub.Pieces(a, func(s, f int) string { return secret }, secret)
	sym.Assert(opv.InSeq(shown(a), want...), "the details show everything")
	sym.Cover("long names")
}

// VerifHuge: values and notes far beyond a screen.
func VerifHuge() {
	n := []int{2049, 4097, 8200, 70000}[sym.Choose("len", 4)]
	l := opv.Long(n)
	if sym.Bool("lines") {
		l = strings.Repeat(opv.Long(39)+"\n", n/40) + "end"
	}
	a := domain.NewItem("AA", "t", "", l+"N", false, domain.ItemCategoryEnum.Login, []*domain.ItemSection{domain.NewItemSection("s", []*domain.ItemField{domain.NewItemField("f", l+"V"), domain.NewItemField("g", "w")})}, 1, 2)
	want := stub.Pieces(a, func(s, f int) string { return a.Sections[s].Fields[f].Value }, a.Notes)
	sym.Assert(opv.InSeq(shown(a), want...), "the details show everything")
	sym.Cover("huge")
}
