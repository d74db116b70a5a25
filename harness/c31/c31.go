// Package c31: the list command shows exactly what was searched for.
package c31

import (
	"strconv"
	"strings"

	"github.com/mashmb/1pass/1pass-core/core/domain"
	"github.com/mashmb/1pass/1pass-term/control/cobra"

	"verif/harness/opv"
	"verif/harness/stub"
	"verif/harness/sym"
	"verif/harness/vm"
)

// bound: 0..4 and 12 items found (and 55 and 130 with fixed titles), with UIDs of 2 symbolic lower case letters, titles of 0..3 symbolic printable characters (up to 2 items) or letters, of up to 5000 characters, letters outside ASCII, every category; 2..30 items alike in title, category, UID or trashed state; every category name in every mix of letter cases, with and without blanks around it; every other category text of 1..5 symbolic printable characters and 19 fixed ones; search texts of 0..3 symbolic printable characters with and without blanks around them; both trashed states
// bound: 6 kinds of configuration and update outcome with any timeout and update period, the vault given by option or taken from the configuration
// bound: beyond: more items, titles with control characters, longer unknown category texts
// assume: the items found are what the vault facade answers (C09, C10)

func list(s *stub.All, category, title string, trashed bool) (sym.Outcome, string) {
	s.Config.Conf.UpdateNotify = false
	if setting >= 0 {
		s.Set(setting)
	}
	vm.SetPassword([]byte("pw"), nil)
	k := len(vm.Out())
	o := sym.Catch(func() {
		cobra.NewCobraCliControl(s.Config, s.Update, s.Vault).GetItems(path, category, title, trashed)
	})
	return o, vm.Out()[k:]
}

var setting, path = -1, "/v"

func count(s string, c byte) int {
	n := 0
	for i := 0; i < len(s); i++ {
		n += sym.IteInt(s[i] == c, 1, 0)
	}
	return n
}

func rows(items []*domain.SimpleItem) {
	s := stub.New()
	s.Vault.Items = items
	var p []string
	for i, it := range items {
		p = append(p, " "+strconv.Itoa(i+1)+" ", " "+it.Uid+" ", " "+it.Category.GetName()+" ", it.Title)
		if i < len(items)-1 {
			p = append(p, "\n")
		}
	}
	o, out := list(s, "", "", false)
	sym.Assert(o.Kind == sym.Returned, "the command ends normally")
	if len(items) > 50 {
		// all known
		rest := out
		for _, x := range p {
			k := strings.Index(rest, x)
			sym.Assert(k >= 0, "every item found is listed with its number, UID, category and title, in order")
			rest = rest[k+len(x):]
		}
		sym.Assert(count(out, '`') == len(items), "every item is listed once")
		return
	}
	sym.Assert(opv.InOrder(out, p...), "every item found is listed with its number, UID, category and title, in order")
	sym.Assert(count(out, '`') == len(items), "every item is listed once")
	sym.Assert(!strings.Contains(out, "No results"), "a list is not called empty")
}

func item(i int, title string) *domain.SimpleItem {
	c := domain.ItemCategoryEnum.GetValues()
	return domain.NewSimpleItem(c[(sym.Choose("cat", 3)*6+i)%len(c)], title, false, "`"+sym.In("uid", 2, 'a', 'z'))
}

// VerifRows: what was found is printed.
func VerifRows() {
	n := sym.Choose("n", 4) + 1
	var items []*domain.SimpleItem
	for i := 0; i < n; i++ {
		t := ""
		if n < 3 {
			t = sym.In("title", sym.Choose("tlen", 4), ' ', '_')
		} else {
			t = sym.In("title", i%3, 'A', 'Z')
		}
		items = append(items, item(i, t))
	}
	rows(items)
	sym.Cover("rows")
}

// VerifSettings: every kind of configuration, every vault option, some items or none.
func VerifSettings() {
	var items []*domain.SimpleItem
	c := domain.ItemCategoryEnum.GetValues()
	n := sym.Choose("n", 4)
	for i := 0; i < n; i++ {
		items = append(items, domain.NewSimpleItem(c[i*5], sym.In("title", 2, 'A', 'Z'), i%2 == 0, "`"+sym.In("uid", 2, 'a', 'z')))
	}
	setting = sym.Choose("setting", stub.Settings)
	path = []string{"/v", "", "/v2"}[sym.Choose("option", 3)]
	if n > 0 {
		rows(items)
	}
	s := stub.New()
	s.Vault.Items = items
	tr := sym.Bool("trashed")
	w := sym.In("word", 2, 'a', 'z')
	o, out := list(s, []string{"", "login", " Secure Note "}[n%3], w, tr)
	sym.Assert(o.Kind == sym.Returned, "the command ends normally")
	want := []string{"", "Login", "Secure Note"}[n%3]
	sym.Assert((want == "") == (s.Vault.Category == nil) && (want == "" || s.Vault.Category.GetName() == want), "the category named is searched")
	sym.Assert(s.Vault.Title == w && s.Vault.Trashed == tr, "the text and side of the trash given are searched")
	sym.Assert(strings.Contains(out, "No results") == (n == 0), "an empty result is said to be one")
	sym.Cover("settings")
}

// VerifHundred: also a very long list is complete.
func VerifHundred() {
	var items []*domain.SimpleItem
	n := []int{55, 130}[sym.Choose("count", 2)]
	for i := 0; i < n; i++ {
		items = append(items, domain.NewSimpleItem(domain.ItemCategoryEnum.GetValues()[i%18], "Title"+strconv.Itoa(i), false, "`u"+strconv.Itoa(i)))
	}
	rows(items)
	sym.Cover("hundred")
}

// VerifEqual: items that are alike in every other respect are all listed.
func VerifEqual() {
	n := []int{2, 3, 7, 30}[sym.Choose("count", 4)]
	alike := sym.Choose("alike", 6)
	c := domain.ItemCategoryEnum.GetValues()
	title := []string{"", "Same", "same title with words", "100%"}[sym.Choose("title", 4)]
	var items []*domain.SimpleItem
	cat := 4
	if n == 3 {
		cat = sym.Choose("category", len(c))
	}
	for i := 0; i < n; i++ {
		t, k, u, tr := title, c[cat], "`u"+strconv.Itoa(i), false
		switch alike {
		case 1:
			k = c[i%2]
		case 2:
			t += []string{"", " ", "a"}[i%3]
		case 3:
			u = "`same"
		case 4:
			tr = i%2 == 0
		case 5:
			u, tr = "`same", true
		}
		items = append(items, domain.NewSimpleItem(k, t, tr, u))
	}
	rows(items)
	sym.Cover("equal")
}

// VerifWide: titles and UIDs longer than any screen is wide.
func VerifWide() {
	long := ""
	n := []int{60, 120, 400, 5000}[sym.Choose("length", 4)]
	for len(long) < n {
		long += "word" + strconv.Itoa(len(long)) + " "
	}
	end := sym.In("end", 1, 'A', 'Z')
	c := domain.ItemCategoryEnum.GetValues()
	long += "żółw "
	rows([]*domain.SimpleItem{
		domain.NewSimpleItem(c[3], long+end, false, "`AA"),
		domain.NewSimpleItem(c[3], "short", false, "`"+long[:50]+end),
		domain.NewSimpleItem(c[3], "Łódź 漢字 é", false, "`CC"),
		domain.NewSimpleItem(c[3], "", false, "`DD"),
	})
	sym.Cover("wide")
}

// VerifMany: also a longer list is complete.
func VerifMany() {
	var items []*domain.SimpleItem
	for i := 0; i < 12; i++ {
		items = append(items, domain.NewSimpleItem(domain.ItemCategoryEnum.GetValues()[i], sym.In("title", 2, 'A', 'Z'), false, "`"+sym.In("uid", 2, 'a', 'z')))
	}
	rows(items)
	sym.Cover("many")
}

func mixed(name string) string {
	b := []byte(name)
	m := sym.Bytes("case", len(b))
	for i := range b {
		if b[i] != ' ' {
			sym.Assume(sym.Or(m[i] == 0, m[i] == 0x20))
			b[i] ^= m[i]
		} else {
			sym.Assume(m[i] == 0)
		}
	}
	return string(b)
}

func blanks(s string) string {
	switch sym.Choose("blanks", 4) {
	case 1:
		return " " + s
	case 2:
		return s + "  "
	case 3:
		return "\t" + s + "\n"
	}
	return s
}

// VerifFilter: what is searched for is what the command line says.
func VerifFilter() {
	s := stub.New()
	var want *domain.ItemCategory
	cat := ""
	if k := sym.Choose("category", 19); k > 0 {
		want = domain.ItemCategoryEnum.GetValues()[k-1]
		cat = blanks(mixed(want.GetName()))
		sym.Cover("category")
	}
	title := sym.In("title", sym.Choose("tlen", 4), '!', '~')
	if len(title) == 3 {
		title = title[:1] + " " + title[2:]
	}
	tr := sym.Bool("trashed")
	o, out := list(s, cat, blanks(title), tr)
	sym.Assert(o.Kind == sym.Returned, "the command ends normally")
	sym.Assert(s.Log.Count("items") == 1, "the vault is searched once")
	sym.Assert(s.Vault.Category == want, "the category searched is the one named")
	sym.Assert(s.Vault.Title == title, "the text searched for is the one given")
	sym.Assert(s.Vault.Trashed == tr, "the side of the trash is the one chosen")
	sym.Assert(strings.Contains(out, "No results"), "an empty result is said to be empty")
	sym.Cover("searched")
}

// VerifUnknown: a category that does not exist is an error.
func VerifUnknown() {
	s := stub.New()
	s.Vault.Items = []*domain.SimpleItem{domain.NewSimpleItem(domain.ItemCategoryEnum.Login, "TITLE-X", false, "UID-X")}
	cat := sym.In("category", sym.Choose("len", 5)+1, '!', '~')
	for _, c := range domain.ItemCategoryEnum.GetValues() {
		n := c.GetName()
		if len(n) == len(cat) {
			same := true
			for i := range n {
				same = sym.And(same, cat[i]|0x20 == n[i]|0x20)
			}
			sym.Assume(!same)
		}
	}
	unknown(s, cat, "", len(cat)%2 == 0)
	sym.Cover("unknown")
}

// VerifWords: further categories that do not exist.
func VerifWords() {
	words := []string{"Logins", "Logi", "Secure", "Note", "Secure  Note", "SecureNote", "secure_note", "Credit", "Credit Card 2", "all", "001", "Login,Password", "Bank Account;", "Lögin", "ssn.", "  x  ", "L ogin", "trashed", "Credit\tCard"}
	s := stub.New()
	s.Vault.Items = []*domain.SimpleItem{domain.NewSimpleItem(domain.ItemCategoryEnum.Login, "TITLE-X", false, "UID-X")}
	unknown(s, words[sym.Choose("word", len(words))], []string{"", "t"}[sym.Choose("title", 2)], sym.Bool("trashed"))
	sym.Cover("word")
}

func unknown(s *stub.All, cat, title string, trashed bool) {
	o, out := list(s, cat, title, trashed)
	sym.Assert(o.Kind == sym.Exited && o.Code != 0, "an unknown category ends the command with an error status")
	sym.Assert(s.Log.Count("items") == 0 && !strings.Contains(out, "TITLE-X"), "nothing is listed for an unknown category")
	sym.Assert(strings.Contains(out, domain.ErrUnknownItemCat.Error()), "the error is printed")
}

// VerifCategories: the categories command names them all.
func VerifCategories() {
	s := stub.New()
	s.Config.Conf.UpdateNotify = sym.Bool("notify")
	o := sym.Catch(func() { cobra.NewCobraCliControl(s.Config, s.Update, s.Vault).GetCategories() })
	sym.Assert(o.Kind == sym.Returned, "the command ends normally")
	var p []string
	for i, c := range []string{"Login", "Credit Card", "Secure Note", "Identity", "Password", "Tombstone", "Software License", "Bank Account", "Database", "Driver License", "Outdoor License", "Membership", "Passport", "Rewards", "SSN", "Router", "Server", "Email"} {
		p = append(p, " "+strconv.Itoa(i+1)+" ", " "+c+" ", "\n")
	}
	sym.Assert(opv.InOrder(vm.Out(), p...), "every category is listed in order of its code")
	sym.Assert(s.Log.Count("validate")+s.Log.Count("unlock") == 0 && vm.PasswordAsked() == 0, "no vault is opened")
	sym.Cover("categories")
}
