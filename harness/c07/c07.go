// Package c07: every entry of every band is loaded once with its own metadata.
package c07

import (
	"strconv"

	"github.com/mashmb/1pass/1pass-core/core/domain"

	"verif/harness/opv"
	"verif/harness/sym"
	"verif/harness/vm"
)

// bound: up to 3 band files with up to 2 entries each (including empty bands at every position), band names out of all 16, other files in the directory; category codes of 0 to 5 symbolic characters; a vault with all 16 bands, 54 entries of all categories, UIDs in upper, lower and mixed case; entries with empty or absent-looking encrypted texts; creation and modification times symbolic integers in six size classes from -999999999 to 2^53; trashed absent, null, true or false; vault paths with blanks, non-ASCII letters and pattern characters; two map iteration orders
// bound: up to 2 bands of up to 700 fixed entries and 300 kB
// bound: beyond: more or longer bands, UIDs other than the fixed ones
// assume: hashes, PBKDF2 and AES are uninterpreted; encoding/json parses decimal integers up to 2^53 exactly

var codes = []string{"001", "002", "003", "004", "005", "099", "100", "101", "102", "103", "104", "105", "106", "107", "108", "109", "110", "111"}

func open(v *opv.Vault) *opv.App {
	v.WriteProfile()
	a := opv.NewApp("/cfg")
	vlt := domain.NewVault(v.Path)
	sym.Assert(a.Vaults.Validate(vlt) == nil, "the vault is valid")
	o := sym.Catch(func() {
		sym.Assert(a.Vaults.Unlock(vlt, v.Pw) == nil, "the vault unlocks")
	})
	sym.Assert(o.Kind == sym.Returned, "loading does not crash or end the program")
	return a
}

func item(uid, cat string) *opv.Item {
	return &opv.Item{Uid: uid, Category: cat, Overview: "{\"title\":\"title " + uid + "\"}", Details: "{\"notesPlain\":\"notes " + uid + "\"}"}
}

func exactly(a *opv.App, tr bool, uids ...string) {
	l := a.Vaults.GetItems(nil, "", tr)
	sym.Assert(len(l) == len(uids), "exactly the entries of the bands are loaded")
	sym.Assert(a.Vaults.CountItems(nil, tr) == len(uids), "each entry counts once")
	for _, u := range uids {
		n := 0
		for _, s := range l {
			if s.Uid == u {
				n++
			}
		}
		sym.Assert(n == 1, "each entry is listed once")
		it := a.Vaults.GetItem(u, tr)
		sym.Assert(it != nil && it.Uid == u && it.Title == "title "+u && it.Notes == "notes "+u, "each entry has its own content")
	}
}

// VerifBands: bands and entries in every arrangement, empty ones included.
func VerifBands() {
	v := opv.NewVault("/v", "pw")
	sym.MapOrders(2)
	names := []string{"band_0.js", "band_9.js", "band_F.js"}
	var uids []string
	n := 0
	bands := sym.Choose("bands", 4)
	for b := 0; b < bands; b++ {
		var items []*opv.Item
		for i := 0; i < sym.Choose("entries", 3); i++ {
			u := "U" + strconv.Itoa(n)
			n++
			uids = append(uids, u)
			items = append(items, item(u, []string{"001", "003", "111"}[n%3]))
		}
		v.WriteBand(names[b], items...)
	}
	vm.WriteFile("/v/default/folders.js", []byte("loadFolders({});"))
	vm.WriteFile("/v/default/band_1.js.bak", []byte("ld({broken"))
	vm.WriteFile("/v/default/old_band_1.js", []byte("ld({broken"))
	vm.WriteFile("/v/band_2.js", []byte("ld({broken"))
	a := open(v)
	exactly(a, false, uids...)
	exactly(a, true)
	sym.Cover("bands")
}

// VerifNames: every band name is found, whatever the vault is called.
func VerifNames() {
	paths := []string{"/v", "/my vaults/1Password.opvault", "/v[1]/a*b?c", "/zażółć/{x}", "/v/default", "/q\\z", "/v[", "/%d/$HOME"}
	v := opv.NewVault(paths[sym.Choose("path", len(paths))], "pw")
	i := sym.Choose("band", 16)
	v.WriteBand("band_"+"0123456789ABCDEF"[i:i+1]+".js", item("AA", "001"))
	v.WriteBand("band_"+"123456789ABCDEF0"[i:i+1]+".js", item("BB", "005"), item("CC", "108"))
	a := open(v)
	exactly(a, false, "AA", "BB", "CC")
	sym.Cover("names")
}

// when is a symbolic time, of a size class of its own if asked.
func when(name string, vary bool) int {
	n := 0
	if vary {
		n = sym.Choose(name, 6)
	}
	switch n {
	case 1:
		return sym.Int(name, 0, 9)
	case 2:
		return sym.Int(name, 100000000, 999999999)
	case 3:
		return sym.Int(name, 10000000000, 99999999999)
	case 4:
		return sym.Int(name, 1000000000000000, 1<<53)
	case 5:
		return sym.Int(name, -999999999, -100000000)
	}
	return sym.Int(name, 1000000000, 9999999999)
}

// VerifMetadata: category, times and the trashed flag are the entry's own.
func VerifMetadata() {
	v := opv.NewVault("/v", "pw")
	x, y := item("AA", ""), item("BB", "003")
	cat := sym.Text("category", 3)
	x.Category = cat
	vary := sym.Choose("vary", 3)
	c1, u1 := when("created", vary == 0), when("updated", vary == 1)
	c2, u2 := when("created", vary == 2), when("updated", false)
	x.Created, x.Updated, y.Created, y.Updated = strconv.Itoa(c1), strconv.Itoa(u1), strconv.Itoa(c2), strconv.Itoa(u2)
	tr := []string{"", "true", "false", "null"}
	t1, t2 := sym.Choose("trashed", 4), sym.Choose("other", 2)
	x.Trashed, y.Trashed = tr[t1], tr[t2]
	if sym.Choose("split", 2) == 1 {
		v.WriteBand("band_5.js", x)
		v.WriteBand("band_A.js", y)
	} else {
		v.WriteBand("band_5.js", x, y)
	}
	a := open(v)
	known := -1
	for i, c := range codes {
		if sym.Fork(cat == c) {
			known = i
		}
	}
	it := a.Vaults.GetItem("AA", t1 == 1)
	if known < 0 {
		sym.Assert(it == nil, "an entry of an unknown category is left out")
		sym.Cover("unknown category")
	} else {
		sym.Assert(it != nil, "an entry of a known category is loaded")
		sym.Assert(it.Category != nil && it.Category.GetCode() == codes[known], "an entry has its own category")
		sym.Assert(sym.And(it.Created == int64(c1), it.Updated == int64(u1)), "an entry has its own times")
		sym.Assert(it.Trashed == (t1 == 1), "an entry has its own trashed flag")
		sym.Cover("known category")
	}
	sym.Assert(a.Vaults.GetItem("AA", t1 != 1) == nil, "an entry is on one side of the trash only")
	it = a.Vaults.GetItem("BB", t2 == 1)
	sym.Assert(it != nil, "the other entry is loaded")
	sym.Assert(it.Category == domain.ItemCategoryEnum.SecureNote, "the other entry has its own category")
	sym.Assert(sym.And(it.Created == int64(c2), it.Updated == int64(u2)), "the other entry has its own times")
	sym.Assert(a.Vaults.GetItem("BB", t2 != 1) == nil, "the other entry is on one side of the trash only")
	sym.Cover("metadata")
}

// VerifUnknown: entries of unknown categories never hide their neighbours.
func VerifUnknown() {
	v := opv.NewVault("/v", "pw")
	sym.MapOrders(3)
	where := sym.Choose("where", 3)
	unknown := "777"
	switch n := sym.Choose("codelen", 6); n {
	case 3:
	default:
		unknown = sym.Text("code", n)
	}
	var items []*opv.Item
	for i := 0; i < 3; i++ {
		c := "004"
		u := "U" + strconv.Itoa(i)
		if i == where {
			c, u = unknown, "X"
		}
		items = append(items, item(u, c))
	}
	v.WriteBand("band_5.js", items...)
	a := open(v)
	var want []string
	for i := 0; i < 3; i++ {
		if i != where {
			want = append(want, "U"+strconv.Itoa(i))
		}
	}
	exactly(a, false, want...)
	sym.Cover("unknown left out")
}

// VerifAll: a vault using every band, with entries of every category.
func VerifAll() {
	v := opv.NewVault("/v", "pw")
	sym.MapOrders(2)
	shift := sym.Choose("shift", 3)
	var uids [2][]string
	n := 0
	for b := 0; b < 16; b++ {
		var items []*opv.Item
		for i := 0; i < 3+b%2; i++ {
			u := "0123456789ABCDEF"[b:b+1] + strconv.Itoa(1000+n) + []string{"ABCDEF", "abcdef", "aBcDeF"}[n%3] + "0123456789012345678901"[n%3:]
			it := item(u, codes[(n+shift)%len(codes)])
			tr := 0
			switch (n + shift) % 4 {
			case 0:
				it.Trashed, tr = "true", 1
			case 1:
				it.Trashed = "false"
			}
			uids[tr] = append(uids[tr], u)
			n++
			items = append(items, it)
		}
		v.WriteBand("band_"+"0123456789ABCDEF"[b:b+1]+".js", items...)
	}
	a := open(v)
	exactly(a, false, uids[0]...)
	exactly(a, true, uids[1]...)
	for _, tr := range []bool{false, true} {
		for _, s := range a.Vaults.GetItems(nil, "", tr) {
			k, _ := strconv.Atoi(s.Uid[1:5])
			sym.Assert(s.Category.GetCode() == codes[(k-1000+shift)%len(codes)], "an entry has its own category")
		}
	}
	sym.Cover("all bands")
}

// VerifHollow: an entry whose encrypted texts are empty or not base64 still is an entry.
func VerifHollow() {
	v := opv.NewVault("/v", "pw")
	x := item("AA", codes[sym.Choose("category", len(codes))])
	x.Trashed = []string{"", "true"}[sym.Choose("trashed", 2)]
	bad := []string{"", "AAAA", "*"}[sym.Choose("text", 3)]
	switch sym.Choose("which", 4) {
	case 0:
		x.O, x.SetO = bad, true
	case 1:
		x.D, x.SetD = bad, true
	case 2:
		x.K, x.SetK = bad, true
	case 3:
		x.O, x.SetO, x.D, x.SetD, x.K, x.SetK = bad, true, bad, true, bad, true
	}
	v.WriteBand("band_5.js", x, item("BB", "003"))
	a := open(v)
	tr := x.Trashed == "true"
	it := a.Vaults.GetItem("AA", tr)
	sym.Assert(it != nil && it.Uid == "AA" && it.Category.GetCode() == x.Category && it.Trashed == tr, "the entry is loaded")
	sym.Assert(a.Vaults.GetItem("AA", !tr) == nil, "an entry is on one side of the trash only")
	sym.Assert(a.Vaults.GetItem("BB", false) != nil, "the other entry is loaded")
	n := 1
	if !tr {
		n = 2
	}
	sym.Assert(len(a.Vaults.GetItems(nil, "", false)) == n && a.Vaults.CountItems(nil, false) == n, "each entry is listed once")
	sym.Cover("hollow entry")
}

// VerifLarge: bands of hundreds of entries and hundreds of kilobytes.
func VerifLarge() {
	v := opv.NewVault("/v", "pw")
	n := []int{300, 700}[sym.Choose("entries", 2)]
	big := []int{1, 70000, 300000}[sym.Choose("size", 3)]
	bands := 1 + sym.Choose("bands", 2)
	var want [2]int
	for b := 0; b < bands; b++ {
		var items []*opv.Item
		for i := 0; i < n; i++ {
			u := "0A"[b:b+1] + strconv.Itoa(100000+i)
			x := &opv.Item{Uid: u, Category: codes[i%len(codes)], SetO: true, SetD: true, SetK: true}
			tr := 0
			if i%3 == 2 {
				x.Trashed, tr = "true", 1
			}
			if i == n/2 {
				x.D = opv.Long(big)
			}
			want[tr]++
			items = append(items, x)
		}
		v.WriteBand("band_"+"0A"[b:b+1]+".js", items...)
	}
	a := open(v)
	for tr := 0; tr < 2; tr++ {
		l := a.Vaults.GetItems(nil, "", tr == 1)
		sym.Assert(len(l) == want[tr] && a.Vaults.CountItems(nil, tr == 1) == want[tr], "exactly the entries of the bands are loaded")
		seen := map[string]bool{}
		for _, s := range l {
			i, _ := strconv.Atoi(s.Uid[1:])
			i -= 100000
			sym.Assert(!seen[s.Uid] && s.Category.GetCode() == codes[i%len(codes)] && s.Trashed == (tr == 1) && (i%3 == 2) == (tr == 1), "each entry is listed once, as what it is")
			seen[s.Uid] = true
		}
	}
	sym.Cover("large")
}
