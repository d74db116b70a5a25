// Package c10: lists are ordered by category code, then title.
package c10

import (
	"github.com/mashmb/1pass/1pass-core/core/domain"
	"github.com/mashmb/1pass/1pass-core/core/service"
	"github.com/mashmb/1pass/1pass-parse/repo/file"
	"github.com/mashmb/1pass/1pass-parse/util/pbkdf2"

	"verif/harness/opv"
	"verif/harness/sym"
)

// bound: up to 3 items (4 in the thorough tier) with titles of 0..2 symbolic bytes of any value and any of 4 categories whose names and codes order differently; every filter; 14 items with fixed titles and one of a symbolic title in between
// bound: up to 1009 items with fixed titles of up to 302 characters
// bound: beyond: more items with symbolic titles, longer titles

var cats = []*domain.ItemCategory{domain.ItemCategoryEnum.Login, domain.ItemCategoryEnum.CreditCard, domain.ItemCategoryEnum.BankAccount, domain.ItemCategoryEnum.Tombstone}

func svc(items []*domain.Item) service.ItemService {
	repo := file.NewFileItemRepo()
	repo.StoreItems(items)
	ks := service.NewDfltKeyService(pbkdf2.NewPbkdf2CryptoUtils(), file.NewFileProfileRepo())
	return service.NewDfltItemService(ks, repo)
}

// le is a <= b in byte order, without forking.
func le(a, b string) bool {
	if len(a) == 0 {
		return true
	}
	if len(b) == 0 {
		return false
	}
	return sym.Or(a[0] < b[0], sym.And(a[0] == b[0], le(a[1:], b[1:])))
}

func ordered(l []*domain.SimpleItem, n int) {
	sym.Assert(len(l) == n, "every item is listed")
	for i := 1; i < len(l); i++ {
		a, b := l[i-1], l[i]
		if a.Category == b.Category {
			sym.Assert(le(a.Title, b.Title), "titles of one category are in byte order")
		} else {
			sym.Assert(a.Category.GetCode() < b.Category.GetCode(), "categories are in the order of their codes")
		}
	}
}

// VerifOrder: symbolic titles, mixed categories.
func VerifOrder() {
	k := 3
	if sym.Thorough() {
		k = 4
	}
	n := sym.Choose("count", k) + 1
	var items []*domain.Item
	for i := 0; i < n; i++ {
		l := 1
		if n < 3 {
			l = sym.Choose("len", 3)
		}
		c := cats[sym.Choose("cat", 4)]
		items = append(items, domain.NewItem("U"+string(rune('0'+i)), sym.Str("title", l), "", "", false, c, nil, int64(9-i), int64(i)))
	}
	ordered(svc(items).GetSimpleItems(nil, "", false), n)
	sym.Cover("ordered")
}

// VerifOneCategory: ordering within one category, longer titles, filtered or not.
func VerifOneCategory() {
	n := sym.Choose("count", 3) + 1
	tr := sym.Choose("trashed", 2) == 1
	var items []*domain.Item
	for i := 0; i < n; i++ {
		items = append(items, domain.NewItem("U"+string(rune('0'+i)), "a"+sym.Text("title", 2), "", "", tr, cats[1], nil, 1, 2))
	}
	f := []*domain.ItemCategory{nil, cats[1]}[sym.Choose("filter", 2)]
	ordered(svc(items).GetSimpleItems(f, []string{"", "A"}[sym.Choose("text", 2)], tr), n)
	sym.Cover("ordered in category")
}

// VerifMany: more items than an insertion sort handles.
func VerifMany() {
	var items []*domain.Item
	n := 26
	perm := sym.Choose("perm", 5)
	step := []int{1, 3, 5, 11, 25}[perm]
	for i := 0; i < n; i++ {
		j := i * step % n
		t := string([]byte{byte('a' + j/2), byte('A' + j%2*32)})
		if i == 7 {
			t = sym.Text("title", 2)
		}
		items = append(items, domain.NewItem("U"+string(rune('0'+i)), t, "", "", false, cats[j%3], nil, 1, 2))
	}
	ordered(svc(items).GetSimpleItems(nil, "", false), n)
	sym.Cover("many ordered")
}

// VerifHundreds: large vaults, long titles that differ late.
func VerifHundreds() {
	n := []int{101, 401, 1009}[sym.Choose("count", 3)]
	step := []int{1, 7, 1000, 38}[sym.Choose("perm", 4)]
	pre := []string{"", opv.Long(40), opv.Long(300)}[sym.Choose("prefix", 3)]
	var items []*domain.Item
	for i := 0; i < n; i++ {
		j := i * step % n
		items = append(items, domain.NewItem("U"+string(rune('0'+i)), pre+string([]byte{byte('!' + j/90), byte('!' + j%90)}), "", "", false, cats[j%4], nil, int64(i), int64(j)))
	}
	var f *domain.ItemCategory
	if sym.Bool("filter") {
		f = cats[2]
	}
	l := svc(items).GetSimpleItems(f, "", false)
	k := n
	if f != nil {
		k = (n + 1) / 4
	}
	ordered(l, k)
	sym.Cover("hundreds ordered")
}
