// Package c11: fetching by UID returns that item and no other.
package c11

import (
	"strconv"

	"github.com/mashmb/1pass/1pass-core/core/domain"
	"github.com/mashmb/1pass/1pass-core/core/service"
	"github.com/mashmb/1pass/1pass-parse/repo/file"
	"github.com/mashmb/1pass/1pass-parse/util/pbkdf2"

	"verif/harness/sym"
)

// bound: up to 3 items with UIDs of 0..3 symbolic bytes, any trashed states; asked UIDs of 0..3 symbolic bytes and both flags; no two items with equal UID and equal trashed state
// bound: and fixed sets of 200 items; items of 80 fixed shapes (any of title, URL, notes, 0..40 sections absent or there) asked for by their own and 7 similar UIDs
// bound: beyond: other sets of many items, longer UIDs

func item(n int, uid string, tr bool) *domain.Item {
	d := string(rune('0' + n))
	if n == 0 {
		// a bare item
		return domain.NewItem(uid, "", "", "", tr, domain.ItemCategoryEnum.Login, nil, 100, 200)
	}
	return domain.NewItem(uid, "title"+d, "url"+d, "notes"+d, tr, domain.ItemCategoryEnum.Login,
		[]*domain.ItemSection{domain.NewItemSection("sec"+d, []*domain.ItemField{domain.NewItemField("name"+d, "value"+d)})}, int64(100+n), int64(200+n))
}

// VerifGet: any items, any question.
func VerifGet() {
	n := sym.Choose("count", 4)
	l := sym.Choose("len", 4)
	var items []*domain.Item
	var uid []string
	var tr []bool
	for i := 0; i < n; i++ {
		k := l
		if i == 1 {
			k = sym.Choose("len1", 4)
		}
		u, t := sym.Str("uid", k), sym.Bool("trashed")
		for j := range uid {
			sym.Assume(sym.Not(sym.And(uid[j] == u, tr[j] == t)))
		}
		uid, tr = append(uid, u), append(tr, t)
		items = append(items, item(i, u, t))
	}
	repo := file.NewFileItemRepo()
	repo.StoreItems(items)
	ks := service.NewDfltKeyService(pbkdf2.NewPbkdf2CryptoUtils(), file.NewFileProfileRepo())
	s := service.NewDfltItemService(ks, repo)
	ask, want := sym.Str("ask", sym.Choose("asklen", 4)), sym.Bool("want")
	for round := 0; round < 2; round++ {
		var got *domain.Item
		o := sym.Catch(func() { got = s.GetItem(ask, want) })
		sym.Assert(o.Kind == sym.Returned, "fetching does not crash")
		any := false
		for i := range items {
			any = sym.Or(any, sym.And(uid[i] == ask, tr[i] == want))
		}
		if got == nil {
			sym.Assert(sym.Not(any), "an item that exists is found")
			sym.Cover("none")
			continue
		}
		sym.Assert(any, "only an existing item is found")
		sym.Assert(sym.And(got.Uid == ask, got.Trashed == want), "the item is the one asked for")
		d := string(rune('0' + got.Created - 100))
		k := int(got.Created - 100)
		sym.Assert(uid[k] == got.Uid, "the item has its own UID")
		sym.Cover("found")
		if k == 0 {
			sym.Assert(got.Title == "" && got.Url == "" && got.Notes == "" && len(got.Sections) == 0 && got.Updated == 200 && got.Category == domain.ItemCategoryEnum.Login, "a bare item is unchanged")
			continue
		}
		sym.Assert(got.Title == "title"+d && got.Url == "url"+d && got.Notes == "notes"+d && got.Updated == got.Created+100 && got.Category == domain.ItemCategoryEnum.Login, "the item is complete")
		sym.Assert(len(got.Sections) == 1 && got.Sections[0].Title == "sec"+d && len(got.Sections[0].Fields) == 1 && got.Sections[0].Fields[0].Name == "name"+d && got.Sections[0].Fields[0].Value == "value"+d, "the item has its own fields")
	}
}

// VerifMany: a large vault.
func VerifMany() {
	var items []*domain.Item
	for i := 0; i < 200; i++ {
		uid := "U" + strconv.Itoa(i/2)
		items = append(items, domain.NewItem(uid, "T"+strconv.Itoa(i), "", "", i%2 == 1, domain.ItemCategoryEnum.Login, nil, int64(i), 0))
	}
	repo := file.NewFileItemRepo()
	repo.StoreItems(items)
	s := service.NewDfltItemService(service.NewDfltKeyService(pbkdf2.NewPbkdf2CryptoUtils(), file.NewFileProfileRepo()), repo)
	k, tr := []int{0, 1, 31, 49, 50, 63, 64, 98, 99}[sym.Choose("which", 9)], sym.Bool("trashed")
	got := s.GetItem("U"+strconv.Itoa(k), tr)
	want := 2 * k
	if tr {
		want++
	}
	sym.Assert(got != nil && got.Uid == "U"+strconv.Itoa(k) && got.Trashed == tr && got.Title == "T"+strconv.Itoa(want) && got.Created == int64(want), "the item is the one asked for")
	sym.Assert(s.GetItem("U100", tr) == nil, "no other item is found")
	sym.Cover("many")
}

// VerifShapes: an item of any shape is given as it is.
func VerifShapes() {
	shape := sym.Choose("shape", 16)
	nsec := []int{0, 1, 2, 10, 40}[sym.Choose("sections", 5)]
	make1 := func() *domain.Item {
		t, u, n := "", "", ""
		if shape&1 != 0 {
			t = "the title"
		}
		if shape&2 != 0 {
			u = "https://x.example/"
		}
		if shape&4 != 0 {
			n = "line 1\nline 2\n"
		}
		var secs []*domain.ItemSection
		for i := 0; i < nsec; i++ {
			var fs []*domain.ItemField
			for j := 0; j < (i*7+nsec)%20; j++ {
				fs = append(fs, domain.NewItemField("name"+strconv.Itoa(j%5), "value"+strconv.Itoa(i)+"."+strconv.Itoa(j/2)))
			}
			title := "section" + strconv.Itoa(i/2)
			if i%3 == 0 {
				title = ""
			}
			secs = append(secs, domain.NewItemSection(title, fs))
		}
		c := domain.ItemCategoryEnum.GetValues()
		return domain.NewItem("0C4F27910A64488BB339AED63565D148", t, u, n, shape&8 != 0, c[(shape*5+nsec)%len(c)], secs, int64(nsec)-1, 1<<40)
	}
	repo := file.NewFileItemRepo()
	other := domain.NewItem("0C4F27910A64488BB339AED63565D14", "other", "o", "p", shape&8 != 0, domain.ItemCategoryEnum.Login, nil, 1, 2)
	repo.StoreItems([]*domain.Item{other, make1()})
	s := service.NewDfltItemService(service.NewDfltKeyService(pbkdf2.NewPbkdf2CryptoUtils(), file.NewFileProfileRepo()), repo)
	for round := 0; round < 2; round++ {
		got, want := s.GetItem("0C4F27910A64488BB339AED63565D148", shape&8 != 0), make1()
		sym.Assert(got != nil, "an item that exists is found")
		sym.Assert(got.Uid == want.Uid && got.Title == want.Title && got.Url == want.Url && got.Notes == want.Notes && got.Trashed == want.Trashed && got.Category == want.Category && got.Created == want.Created && got.Updated == want.Updated, "the item is unchanged")
		ok := len(got.Sections) == len(want.Sections)
		for i := 0; ok && i < nsec; i++ {
			a, b := got.Sections[i], want.Sections[i]
			ok = a.Title == b.Title && len(a.Fields) == len(b.Fields)
			for j := 0; ok && j < len(a.Fields); j++ {
				ok = *a.Fields[j] == *b.Fields[j]
			}
		}
		sym.Assert(ok, "the item has all its fields")
		for _, near := range []string{"0C4F27910A64488BB339AED63565D149", "0c4f27910a64488bb339aed63565d148", "0C4F27910A64488BB339AED63565D1480", "0C4F2791-0A64-488B-B339-AED63565D148", " 0C4F27910A64488BB339AED63565D148", "0C4F2791", ""} {
			sym.Assert(s.GetItem(near, shape&8 != 0) == nil, "no item is found under another UID")
		}
		sym.Assert(s.GetItem("0C4F27910A64488BB339AED63565D148", shape&8 == 0) == nil, "no item is found on the other side of the trash")
	}
	sym.Cover("shape")
}
