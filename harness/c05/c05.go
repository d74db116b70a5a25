// Package c05: histories of locking and unlocking.
package c05

import (
	"github.com/mashmb/1pass/1pass-core/core/domain"

	"verif/harness/opv"
	"verif/harness/sym"
	"verif/harness/vm"
)

// bound: every sequence of up to 4 operations (quick) or 6 (thorough) out of lock, unlock with the right password and unlock with a wrong one; before each operation the vault's bands are optionally replaced by others (three contents, one of them empty)
// bound: one item, list or count looked at last before locking and first afterwards, for every pair of contents; items of the categories Login and Secure Note, and (VerifKinds) of all categories
// bound: the right password of 4 and the wrong one of 3 symbolic bytes, titles and notes of 2 symbolic characters
// bound: beyond: longer histories; unlocking an unlocked vault again with the right password after its content changed (the program keeps the first content; not part of the property)
// assume: hashes, PBKDF2 and AES are uninterpreted functions

var title, note [4]string

func it(uid, cat, tr string, n int) *opv.Item {
	return &opv.Item{Uid: uid, Category: cat, Trashed: tr, Overview: "{\"title\":\"" + title[n] + "\"}", Details: "{\"notesPlain\":\"" + note[n] + "\"}"}
}

func put(v *opv.Vault, c int) {
	vm.RemoveFile("/v/default/band_0.js")
	vm.RemoveFile("/v/default/band_A.js")
	switch c {
	case 0:
		v.WriteBand("band_0.js", it("AA", "001", "", 0), it("BB", "003", "true", 1))
	case 1:
		v.WriteBand("band_A.js", it("CC", "001", "", 2), it("BB", "003", "", 3))
	case 2:
		v.WriteBand("band_0.js")
	}
}

var uids = []string{"AA", "BB", "CC"}

// title index of each uid per content (-1: absent) and where it is
var which = [][]int{{0, 1, -1}, {-1, 3, 2}, {-1, -1, -1}}
var trash = [][]bool{{false, true, false}, {false, false, false}, {false, false, false}}

func check(a *opv.App, unlocked bool, c int) {
	sym.Assert(a.Vaults.IsUnlocked() == unlocked, "the lock state is the one of the last change")
	n := map[bool]int{}
	for i, u := range uids {
		for _, tr := range []bool{false, true} {
			item := a.Vaults.GetItem(u, tr)
			if w := which[c][i]; unlocked && w >= 0 && trash[c][i] == tr {
				n[tr]++
				sym.Assert(item != nil, "an unlocked vault has its current items")
				sym.Assert(sym.And(item.Uid == u, sym.And(item.Title == title[w], item.Notes == note[w])), "an unlocked vault has its items' current content")
			} else {
				sym.Assert(item == nil, "no item that should not be there")
			}
		}
	}
	for _, tr := range []bool{false, true} {
		sym.Assert(len(a.Vaults.GetItems(nil, "", tr)) == n[tr], "the list has exactly the items")
		sym.Assert(a.Vaults.CountItems(nil, tr) == n[tr], "the count is right")
	}
}

// VerifHistories: after every operation of every history the items are right.
func VerifHistories() {
	right, wrong := sym.Str("right", 4), sym.Str("wrong", 3)
	for i := range title {
		title[i], note[i] = sym.Text("title", 2), sym.Text("note", 2)
	}
	v := opv.NewVault("/v", right)
	v.WriteProfile()
	_, wm := opv.Derive(wrong, v.Salt, v.Iter)
	n := len(v.MasterBlob) - 32
	sym.Assume(opv.Neq(opv.Mac(wm, v.MasterBlob[:n]), v.MasterBlob[n:]))
	put(v, 0)
	a := opv.NewApp("/cfg")
	vlt := domain.NewVault("/v")
	sym.Assert(a.Vaults.Validate(vlt) == nil, "the vault is valid")
	unlocked, cur, shown := false, 0, 0
	check(a, false, 0)
	k := 4
	if sym.Thorough() {
		k = 6
	}
	for i := 0; i < k; i++ {
		if !unlocked {
			cur = sym.Choose("content", 3)
			put(v, cur)
		}
		switch sym.Choose("op", 3) {
		case 0:
			a.Vaults.Lock()
			unlocked = false
		case 1:
			sym.Assert(a.Vaults.Unlock(vlt, right) == nil, "the right password unlocks")
			if !unlocked {
				shown = cur
			}
			unlocked = true
			sym.Cover("unlocked")
		case 2:
			sym.Assert(a.Vaults.Unlock(vlt, wrong) == domain.ErrInvalidPass, "a wrong password is refused")
			sym.Cover("refused")
		}
		check(a, unlocked, shown)
	}
	sym.Cover("history done")
}

// probe looks at one thing only.
func probe(a *opv.App, what int, tr bool) (found bool, ok bool) {
	switch what {
	case 0, 1, 2:
		i := a.Vaults.GetItem(uids[what], tr)
		if i == nil {
			return false, true
		}
		return true, i.Uid == uids[what]
	case 3:
		l := a.Vaults.GetItems(nil, "", tr)
		return len(l) > 0, true
	case 4:
		l := a.Vaults.GetItems(domain.ItemCategoryEnum.SecureNote, "", tr)
		return len(l) > 0, true
	case 5:
		return a.Vaults.CountItems(nil, tr) > 0, true
	}
	return a.Vaults.CountItems(domain.ItemCategoryEnum.SecureNote, tr) > 0, true
}

// there says what the probe finds in an unlocked vault.
func there(c, what int, tr bool) bool {
	switch what {
	case 0, 1, 2:
		return which[c][what] >= 0 && trash[c][what] == tr
	case 3, 5:
		return there(c, 0, tr) || there(c, 1, tr) || there(c, 2, tr)
	}
	return there(c, 1, tr)
}

// VerifProbe: what was looked at last before locking is the first thing looked at afterwards, and
// nothing of it is left; nor after the next unlock if the vault's content is another one by then.
func VerifProbe() {
	for i := range title {
		title[i], note[i] = sym.Text("title", 2), sym.Text("note", 2)
	}
	v := opv.NewVault("/v", "right")
	v.WriteProfile()
	c1, c2 := sym.Choose("content", 3), sym.Choose("content2", 3)
	put(v, c1)
	a := opv.NewApp("/cfg")
	vlt := domain.NewVault("/v")
	sym.Assert(a.Vaults.Validate(vlt) == nil, "the vault is valid")
	what, tr := sym.Choose("what", 7), sym.Choose("trashed", 2) == 1
	look := func(unlocked bool, c int, msg string) {
		f, ok := probe(a, what, tr)
		sym.Assert(f == (unlocked && there(c, what, tr)), msg)
		sym.Assert(ok, "the item asked for")
		if f && what < 3 {
			w := which[c][what]
			i := a.Vaults.GetItem(uids[what], tr)
			sym.Assert(sym.And(i.Title == title[w], i.Notes == note[w]), "an unlocked vault has its items' current content")
		}
	}
	if sym.Choose("before", 2) == 1 {
		look(false, c1, "nothing before unlocking")
	}
	sym.Assert(a.Vaults.Unlock(vlt, "right") == nil, "the right password unlocks")
	look(true, c1, "an unlocked vault has its current items")
	a.Vaults.Lock()
	if sym.Choose("locked", 2) == 1 {
		look(false, c1, "a locked vault has nothing")
	}
	put(v, c2)
	sym.Assert(a.Vaults.Unlock(vlt, "right") == nil, "the right password unlocks")
	look(true, c2, "an unlocked vault has its current items")
	check(a, true, c2)
	sym.Cover("probed")
}

// VerifKinds: items of no category outlive a lock.
func VerifKinds() {
	v := opv.NewVault("/v", "right")
	v.WriteProfile()
	var items []*opv.Item
	cats := domain.ItemCategoryEnum.GetValues()
	for i, c := range cats {
		for _, tr := range []string{"", "true"} {
			items = append(items, &opv.Item{Uid: string(rune('A'+i)) + tr, Category: c.GetCode(), Trashed: tr, Overview: "{\"title\":\"t\"}", Details: "{}"})
		}
	}
	v.WriteBand("band_0.js", items...)
	a := opv.NewApp("/cfg")
	vlt := domain.NewVault("/v")
	sym.Assert(a.Vaults.Validate(vlt) == nil, "the vault is valid")
	tr := sym.Choose("trashed", 2) == 1
	for r := 0; r < 2; r++ {
		sym.Assert(a.Vaults.Unlock(vlt, "right") == nil, "the right password unlocks")
		sym.Assert(a.Vaults.CountItems(nil, tr) == len(cats), "an unlocked vault has its current items")
		for _, c := range cats {
			sym.Assert(a.Vaults.CountItems(c, tr) == 1, "an unlocked vault has its current items")
		}
		a.Vaults.Lock()
		sym.Assert(a.Vaults.CountItems(nil, tr) == 0 && len(a.Vaults.GetItems(nil, "", tr)) == 0, "a locked vault has nothing")
		for i, c := range cats {
			uid := string(rune('A' + i))
			sym.Assert(a.Vaults.CountItems(c, tr) == 0 && a.Vaults.GetItem(uid, tr) == nil && a.Vaults.GetItem(uid+"true", tr) == nil, "a locked vault has nothing")
		}
	}
	sym.Cover("all kinds")
}
