// Package c09: listing and counting select exactly the matching items.
package c09

import (
	"strconv"
	"strings"

	"github.com/mashmb/1pass/1pass-core/core/domain"
	"github.com/mashmb/1pass/1pass-core/core/service"
	"github.com/mashmb/1pass/1pass-parse/repo/file"
	"github.com/mashmb/1pass/1pass-parse/util/pbkdf2"

	"verif/harness/opv"
	"verif/harness/sym"
)

// bound: up to 3 items with titles of 0..3 symbolic printable ASCII characters (and fixed non-ASCII titles), any of 3 categories each, any trashed state; search texts of 0..2 symbolic printable ASCII characters (and fixed non-ASCII ones); every category filter including none; fixed sets of 64, 257 and 1200 items; fixed titles and search texts of up to 3000 characters
// bound: beyond: more items, longer texts, non-ASCII symbolic characters
// assume: strings.ToLower maps printable ASCII as documented (encoded directly)

func svc(items []*domain.Item) service.ItemService {
	repo := file.NewFileItemRepo()
	repo.StoreItems(items)
	ks := service.NewDfltKeyService(pbkdf2.NewPbkdf2CryptoUtils(), file.NewFileProfileRepo())
	return service.NewDfltItemService(ks, repo)
}

// fold: the same character but for letter case.
func fold(a, b byte) bool {
	up := func(c byte) bool { return sym.And(c >= 'A', c <= 'Z') }
	return sym.Or(a == b, sym.Or(sym.And(up(a), a+32 == b), sym.And(up(b), b+32 == a)))
}

// has is the oracle for ASCII texts.
func has(title, text string) bool {
	r := false
	for i := 0; i+len(text) <= len(title); i++ {
		m := true
		for j := 0; j < len(text); j++ {
			m = sym.And(m, fold(title[i+j], text[j]))
		}
		r = sym.Or(r, m)
	}
	return r
}

var cats = []*domain.ItemCategory{domain.ItemCategoryEnum.Login, domain.ItemCategoryEnum.SecureNote, domain.ItemCategoryEnum.Tombstone}

func check(items []*domain.Item, filter *domain.ItemCategory, text string, trashed bool, match func(title string) bool) {
	s := svc(items)
	list := s.GetSimpleItems(filter, text, trashed)
	want := 0
	for _, it := range items {
		in := false
		if filter == nil || it.Category == filter {
			in = sym.And(it.Trashed == trashed, match(it.Title))
		}
		n := 0
		for _, l := range list {
			if l.Uid == it.Uid {
				n++
				sym.Assert(l.Category == it.Category, "a listed item shows its own category")
				sym.Assert(sym.And(l.Title == it.Title, l.Trashed == it.Trashed), "a listed item shows its own title and trashed state")
			}
		}
		sym.Assert(n <= 1, "no item is listed twice")
		sym.Assert((n == 1) == in, "exactly the matching items are listed")
		want += n
	}
	sym.Assert(len(list) == want, "nothing else is listed")
	c := s.CountItems(filter, trashed)
	all := s.GetSimpleItems(filter, "", trashed)
	sym.Assert(c == len(all), "the count is the length of the list")
	k := 0
	for _, it := range items {
		if filter == nil || it.Category == filter {
			k = sym.IteInt(it.Trashed == trashed, k+1, k)
		}
	}
	sym.Assert(c == k, "the count is the number of items of the category")
	// asking once more gives the same
	sym.Assert(len(s.GetSimpleItems(filter, text, trashed)) == want, "listing does not change anything")
}

func item(uid, title string, c int, tr bool) *domain.Item {
	return domain.NewItem(uid, title, "http://"+uid, "notes", tr, cats[c], nil, 1, 2)
}

func filter() *domain.ItemCategory {
	n := sym.Choose("filter", 5)
	if n == 4 {
		return nil
	}
	if n == 3 {
		return domain.ItemCategoryEnum.Email
	}
	return cats[n]
}

// VerifOne: one item, every text.
func VerifOne() {
	title := sym.Text("title", sym.Choose("titlelen", 5))
	text := sym.Text("text", sym.Choose("textlen", 4))
	it := item("AA", title, sym.Choose("cat", 3), sym.Bool("trashed"))
	check([]*domain.Item{it}, filter(), text, sym.Bool("wanted"), func(t string) bool { return has(t, text) })
	sym.Cover("one item")
}

// VerifSet: several items together.
func VerifSet() {
	lens := [][]int{{2, 2, 2}, {0, 1, 3}, {1, 1, 1}}
	n := sym.Choose("count", 3) + 1
	l := lens[sym.Choose("lens", len(lens))]
	text := sym.Text("text", sym.Choose("textlen", 2)+1)
	var items []*domain.Item
	for i := 0; i < n; i++ {
		items = append(items, item([]string{"AA", "BB", "CC"}[i], sym.Text("title", l[i]), sym.Choose("cat", 2), sym.Bool("trashed")))
	}
	check(items, filter(), text, sym.Bool("wanted"), func(t string) bool { return has(t, text) })
	sym.Cover("items")
}

// VerifAll: no search text selects every title.
func VerifAll() {
	n := sym.Choose("count", 4)
	var items []*domain.Item
	for i := 0; i < n; i++ {
		items = append(items, item([]string{"AA", "BB", "CC"}[i], sym.Str("title", i), sym.Choose("cat", 3), sym.Bool("trashed")))
	}
	check(items, filter(), "", sym.Bool("wanted"), func(t string) bool { return true })
	sym.Cover("all")
}

// VerifMany: a large vault.
func VerifMany() {
	n := []int{64, 257, 1200}[sym.Choose("count", 3)]
	var items []*domain.Item
	want := map[string]bool{}
	f, trashed, text := filter(), sym.Bool("wanted"), []string{"", "7", "ITEM 1"}[sym.Choose("text", 3)]
	for i := 0; i < n; i++ {
		uid, title, c, tr := "U"+strconv.Itoa(i), "Item "+strconv.Itoa(i), i%3, i%5 == 0
		items = append(items, item(uid, title, c, tr))
		if tr == trashed && (f == nil || f == cats[c]) && strings.Contains(strings.ToUpper(title), text) {
			want[uid] = true
		}
	}
	s := svc(items)
	list := s.GetSimpleItems(f, text, trashed)
	sym.Assert(len(list) == len(want), "exactly the matching items are listed")
	for _, l := range list {
		sym.Assert(want[l.Uid], "every listed item matches and is listed once")
		delete(want, l.Uid)
	}
	if text == "" {
		sym.Assert(s.CountItems(f, trashed) == len(list), "the count is the length of the list")
	}
	sym.Cover("many")
}

// VerifUnicode: letter case is ignored beyond ASCII as well.
func VerifUnicode() {
	titles := []string{"Zażółć Gęślą JAŹŃ", "ÄÖÜ straße", "Ελληνικά", "ПАРОЛЬ", "漢字 Kana", "a\tb", "", "ſ µ ı ς ŉ ǰ", "İ K Å Ω ẞ", "\u200bz", "ﬁ ǅ"}
	texts := []string{"ŻÓŁĆ", "gęślą", "jaźń", "äöü", "STRASSE", "ελληνικΆ", "пароль", "漢字", "KANA", "A\tB", "ż", "x", "ſ", "µ", "ı", "ς", "ŉ", "ǰ", "İ", "K", "Å", "ẞ", "\u200b", "ﬁ", "ǅ", "ǆ"}
	title := titles[sym.Choose("title", len(titles))]
	text := texts[sym.Choose("text", len(texts))]
	items := []*domain.Item{item("AA", title, 0, false), item("BB", titles[0], 1, sym.Bool("trashed"))}
	check(items, nil, text, sym.Bool("wanted"), func(t string) bool { return strings.Contains(strings.ToLower(t), strings.ToLower(text)) })
	sym.Cover("unicode")
}

// VerifLong: long titles and search texts.
func VerifLong() {
	n := []int{17, 40, 65, 130, 300, 3000}[sym.Choose("len", 6)]
	title := opv.Long(n)
	other := title[:n-1] + "#"
	wanted := sym.Bool("wanted")
	items := []*domain.Item{item("AA", title, 0, wanted), item("BB", other, 0, wanted), item("CC", "#"+title, 0, wanted), item("DD", title, 0, !wanted), item("EE", title, 1, wanted)}
	text, want := title, "AACC"
	switch sym.Choose("text", 6) {
	case 1:
		text, want = strings.ToUpper(other), "BB"
	case 2:
		text, want = title[:n-1], "AABBCC"
	case 3:
		text, want = title+"a", ""
	case 4:
		text, want = other[n-3:], "BB"
	case 5:
		text, want = "#"+title, "CC"
	}
	got := ""
	for _, l := range svc(items).GetSimpleItems(cats[0], text, wanted) {
		got += l.Uid
	}
	sym.Assert(len(got) == len(want), "exactly the matching items are listed")
	for i := 0; i < len(want); i += 2 {
		sym.Assert(strings.Contains(got, want[i:i+2]), "every matching item is listed")
	}
	sym.Cover("long texts")
}
