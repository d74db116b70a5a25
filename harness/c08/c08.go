// Package c08: damaged or forged item data is never shown and never crashes.
package c08

import (
	"github.com/mashmb/1pass/1pass-core/core/domain"

	"verif/harness/opv"
	"verif/harness/sym"
)

// bound: one item out of two with one damaged blob (overview, details or keys): any change of its MAC, of its authenticated bytes, every truncation length, up to 17 appended bytes, another item's blob, a blob authentic under other keys, authentic blobs with a wrong length prefix or misaligned ciphertext, texts that are not base64, unencrypted JSON in place of a blob, blobs under every other key pair of the vault; and every subset of an item's three blobs damaged, with items before and after it
// bound: details under another item's keys in items whose own keys are bad in 4 ways or good, for every pair of 3 items, unlocked twice; items of 700 and 5000 characters with a bit changed or a byte left out in 15 places
// bound: beyond: other sizes
// assume: hashes and AES are uninterpreted; the HMAC of changed data does not collide with the stored MAC (assumed explicitly)

const ov = "{\"title\":\"Secret title\",\"url\":\"http://u\"}"
const de = "{\"notesPlain\":\"hidden note\",\"fields\":[{\"name\":\"user\",\"value\":\"pass\"}]}"

func blobs(v *opv.Vault) (o, d, k []byte) {
	ik := opv.ItemKeys(0)
	return opv.Opdata(v.Ok, v.Om, []byte(ov)), opv.Opdata(ik[:32], ik[32:], []byte(de)), opv.KeyBlob(v.Mk, v.Mm, ik)
}

func run(set func(v *opv.Vault, it *opv.Item, which int)) {
	v := opv.NewVault("/v", "pw")
	v.WriteProfile()
	it := &opv.Item{Uid: "AA", Category: "001", Overview: ov, Details: de}
	which := sym.Choose("blob", 3)
	set(v, it, which)
	other := &opv.Item{Uid: "BB", Category: "001", Overview: "{\"title\":\"other\"}", Details: "{\"notesPlain\":\"fine\",\"fields\":[{\"name\":\"login\",\"value\":\"x\"}]}"}
	v.WriteBand("band_0.js", it, other)
	a := opv.NewApp("/cfg")
	vlt := domain.NewVault("/v")
	sym.Assert(a.Vaults.Validate(vlt) == nil, "the vault is valid")
	o := sym.Catch(func() {
		sym.Assert(a.Vaults.Unlock(vlt, "pw") == nil, "the vault unlocks")
	})
	sym.Assert(o.Kind == sym.Returned, "damaged data does not crash the program")
	g := a.Vaults.GetItem("BB", false)
	sym.Assert(g != nil && g.Title == "other" && g.Notes == "fine" && len(g.Sections) == 1 && len(g.Sections[0].Fields) == 1 && g.Sections[0].Fields[0].Value == "x", "other items are not affected")
	g = a.Vaults.GetItem("AA", false)
	if g == nil {
		return
	}
	if which == 0 {
		sym.Assert(g.Title == "" && g.Url == "", "nothing of a bad overview is shown")
	} else {
		sym.Assert(g.Notes == "" && len(g.Sections) == 0, "nothing of bad details is shown")
	}
	for _, s := range a.Vaults.GetItems(nil, "", false) {
		if s.Uid == "AA" && which == 0 {
			sym.Assert(s.Title == "", "nothing of a bad overview is listed")
		}
	}
}

func put(it *opv.Item, which int, text string) {
	switch which {
	case 0:
		it.O, it.SetO = text, true
	case 1:
		it.D, it.SetD = text, true
	case 2:
		it.K, it.SetK = text, true
	}
}

func pick(v *opv.Vault, which int) ([]byte, []byte, []byte) {
	o, d, k := blobs(v)
	ik := opv.ItemKeys(0)
	switch which {
	case 0:
		return o, v.Ok, v.Om
	case 1:
		return d, ik[:32], ik[32:]
	}
	return k, v.Mk, v.Mm
}

// VerifForged: the MAC differs in any way.
func VerifForged() {
	run(func(v *opv.Vault, it *opv.Item, which int) {
		b, _, _ := pick(v, which)
		mask := sym.Bytes("mask", 32)
		sym.Assume(opv.NonZero(mask))
		n := len(b) - 32
		put(it, which, opv.B64(append(append([]byte{}, b[:n]...), opv.Xor(b[n:], mask)...)))
	})
	sym.Cover("forged")
}

// VerifTampered: any authenticated bytes are changed.
func VerifTampered() {
	run(func(v *opv.Vault, it *opv.Item, which int) {
		b, _, mac := pick(v, which)
		n := len(b) - 32
		mask := sym.Bytes("mask", n)
		sym.Assume(opv.NonZero(mask))
		c := opv.Xor(b[:n], mask)
		sym.Assume(opv.Neq(opv.Mac(mac, c), b[n:]))
		put(it, which, opv.B64(append(c, b[n:]...)))
	})
	sym.Cover("tampered")
}

// VerifTruncated: the blob ends early or has bytes too many.
func VerifTruncated() {
	run(func(v *opv.Vault, it *opv.Item, which int) {
		b, _, mac := pick(v, which)
		n := sym.Choose("length", len(b)+17)
		if n < len(b) {
			b = b[:n]
		} else {
			b = append(append([]byte{}, b...), sym.Bytes("more", n-len(b)+1)...)
			sym.Assume(opv.Neq(opv.Mac(mac, b[:len(b)-32]), b[len(b)-32:]))
		}
		put(it, which, opv.B64(b))
	})
	sym.Cover("truncated")
}

// VerifTexts: what should be base64 is not.
func VerifTexts() {
	run(func(v *opv.Vault, it *opv.Item, which int) {
		b, _, _ := pick(v, which)
		s := opv.B64(b)
		bad := []string{"", "A", "====", "@@@@", s[:len(s)-4], s[:len(s)-5], s[:len(s)-6], s[1:], "!" + s[1:], s[:40] + "*" + s[41:], s[:60], s[:8] + " " + s[9:], "AAAA",
			"{\\\"title\\\":\\\"x\\\",\\\"notesPlain\\\":\\\"x\\\"}"}
		put(it, which, bad[sym.Choose("text", len(bad))])
	})
	sym.Cover("not base64")
}

// VerifForeign: blobs of another item, in the wrong place or under the wrong keys.
func VerifForeign() {
	run(func(v *opv.Vault, it *opv.Item, which int) {
		var b []byte
		const x = "{\"title\":\"x\",\"url\":\"x\",\"notesPlain\":\"x\"}"
		ik := opv.ItemKeys(1)
		switch sym.Choose("kind", 9) {
		case 4: // under the master keys
			if which == 2 {
				b = opv.KeyBlob(v.Ok, v.Om, opv.ItemKeys(0))
			} else {
				b = opv.Opdata(v.Mk, v.Mm, []byte(x))
			}
		case 5: // under the keys of the other kind
			switch which {
			case 0:
				i0 := opv.ItemKeys(0)
				b = opv.Opdata(i0[:32], i0[32:], []byte(x))
			case 1:
				b = opv.Opdata(v.Ok, v.Om, []byte(x))
			default:
				b = opv.KeyBlob(v.Dk, v.Mm, opv.ItemKeys(0))
			}
		case 6: // no encryption at all
			b = []byte(x)
		case 7: // no encryption, but the shape of a blob
			b = append([]byte("opdata01\x40\x00\x00\x00\x00\x00\x00\x000123456789abcdef"), x...)
			b = append(b, make([]byte, 32)...)
		case 8: // swapped keys
			switch which {
			case 0:
				b = opv.Opdata(v.Om, v.Ok, []byte(x))
			case 1:
				i0 := opv.ItemKeys(0)
				b = opv.Opdata(i0[32:], i0[:32], []byte(x))
			default:
				b = opv.KeyBlob(v.Mm, v.Mk, opv.ItemKeys(0))
			}
		case 0: // the other item's keys or details, or details as overview
			switch which {
			case 0:
				b = opv.Opdata(ik[:32], ik[32:], []byte(ov))
			case 1:
				b = opv.Opdata(ik[:32], ik[32:], []byte(de))
			default:
				b = opv.KeyBlob(v.Mk, v.Mm, ik)
			}
		case 1: // under the derived keys
			if which == 2 {
				b = opv.KeyBlob(v.Dk, v.Dm, opv.ItemKeys(0))
			} else {
				b = opv.Opdata(v.Dk, v.Dm, []byte("{\"title\":\"x\",\"notesPlain\":\"x\"}"))
			}
		case 2: // under empty and zero MAC keys
			if which == 2 {
				b = opv.KeyBlob(v.Mk, make([]byte, 32), opv.ItemKeys(0))
			} else {
				b = opv.Opdata(v.Ok, nil, []byte("{\"title\":\"x\",\"notesPlain\":\"x\"}"))
			}
		case 3: // encrypted with the right key, authenticated with a wrong one
			k := sym.Bytes("mackey", 32)
			switch which {
			case 0:
				b = opv.Opdata(v.Ok, k, []byte(ov))
				sym.Assume(opv.Neq(opv.Mac(v.Om, b[:len(b)-32]), b[len(b)-32:]))
			case 1:
				i0 := opv.ItemKeys(0)
				b = opv.Opdata(i0[:32], k, []byte(de))
				sym.Assume(opv.Neq(opv.Mac(i0[32:], b[:len(b)-32]), b[len(b)-32:]))
			default:
				b = opv.KeyBlob(v.Mk, k, opv.ItemKeys(0))
				sym.Assume(opv.Neq(opv.Mac(v.Mm, b[:len(b)-32]), b[len(b)-32:]))
			}
		}
		put(it, which, opv.B64(b))
	})
	sym.Cover("foreign")
}

// VerifBadLength: authentic blobs whose length prefix or ciphertext length is impossible, or
// whose content is not JSON, do not crash.
func VerifBadLength() {
	run(func(v *opv.Vault, it *opv.Item, which int) {
		sym.Assume(which != 2)
		b, key, mac := pick(v, which)
		b = append([]byte{}, b[:len(b)-32]...)
		switch sym.Choose("kind", 3) {
		case 0:
			n := sym.Bytes("size", 8)
			var ge bool // more than the ciphertext holds, or negative
			for i := 1; i < 8; i++ {
				ge = sym.Or(ge, n[i] != 0)
			}
			sym.Assume(sym.Or(ge, n[0] > byte(len(b)-32)))
			copy(b[8:], n)
		case 1:
			b = b[:len(b)-1-sym.Choose("less", 15)]
		case 2:
			iv := []byte("0123456789abcdef")
			b = opv.Body(key, iv, []byte("0123456789"), []byte("no JSON"[:6]))
		}
		put(it, which, opv.B64(append(b, opv.Mac(mac, b)...)))
	})
	sym.Cover("bad length")
}

// VerifSeveral: any of an item's blobs are bad at once, and the items around it are complete.
func VerifSeveral() {
	sym.MapOrders(6)
	v := opv.NewVault("/v", "pw")
	v.WriteProfile()
	x := sym.Text("x", 2)
	it := &opv.Item{Uid: "AA", Category: "001", Overview: ov, Details: de}
	bad := [3]bool{}
	for w := range bad {
		bad[w] = sym.Choose("bad", 2) == 1
	}
	how := sym.Choose("how", 3)
	for w := range bad {
		if bad[w] {
			b, _, _ := pick(v, w)
			b = append([]byte{}, b...)
			switch how {
			case 0:
				b[len(b)-1] ^= 1
			case 1:
				b = b[:40]
			case 2:
				b = nil
			}
			put(it, w, opv.B64(b))
		}
	}
	rest := []*opv.Item{it}
	uids := []string{"BB", "CC", "DD"}
	for _, u := range uids {
		rest = append(rest, &opv.Item{Uid: u, Category: "003", Overview: "{\"title\":\"" + u + x + "\",\"url\":\"u" + x + "\"}", Details: "{\"notesPlain\":\"n" + u + x + "\"}"})
	}
	v.WriteBand("band_0.js", rest...)
	a := opv.NewApp("/cfg")
	vlt := domain.NewVault("/v")
	sym.Assert(a.Vaults.Validate(vlt) == nil, "the vault is valid")
	o := sym.Catch(func() {
		sym.Assert(a.Vaults.Unlock(vlt, "pw") == nil, "the vault unlocks")
	})
	sym.Assert(o.Kind == sym.Returned, "damaged data does not crash the program")
	for _, u := range uids {
		g := a.Vaults.GetItem(u, false)
		sym.Assert(g != nil, "other items are not affected")
		sym.Assert(g.Title == u+x && g.Url == "u"+x && g.Notes == "n"+u+x && len(g.Sections) == 0, "other items are not affected")
	}
	g := a.Vaults.GetItem("AA", false)
	if g != nil {
		if bad[0] {
			sym.Assert(g.Title == "" && g.Url == "", "nothing of a bad overview is shown")
		}
		if bad[1] || bad[2] {
			sym.Assert(g.Notes == "" && len(g.Sections) == 0, "nothing of bad details is shown")
		}
	}
	sym.Cover("several bad blobs")
}

// VerifNeighbours: an item whose keys are bad has details that another item's keys would open.
func VerifNeighbours() {
	sym.MapOrders(6)
	v := opv.NewVault("/v", "pw")
	v.WriteProfile()
	var items []*opv.Item
	uids := []string{"AA", "BB", "CC"}
	for _, u := range uids {
		items = append(items, &opv.Item{Uid: u, Category: "001", Overview: "{\"title\":\"t" + u + "\"}", Details: "{\"notesPlain\":\"n" + u + "\"}"})
	}
	at, from := sym.Choose("item", 3), sym.Choose("keys of", 3)
	ik := opv.ItemKeys(from)
	put(items[at], 1, opv.B64(opv.Opdata(ik[:32], ik[32:], []byte("{\"notesPlain\":\"hidden\"}"))))
	b := opv.KeyBlob(v.Mk, v.Mm, opv.ItemKeys(at))
	if at == from {
		b = opv.KeyBlob(v.Mk, v.Mm, make([]byte, 64)) // keys of no item
	}
	switch sym.Choose("damage", 5) {
	case 0:
		b[len(b)-1] ^= 1
	case 1:
		b[20] ^= 0x80
	case 2:
		b = b[:60]
	case 3:
		b = nil
	case 4: // keys that are good, but not the ones
	}
	put(items[at], 2, opv.B64(b))
	v.WriteBand("band_0.js", items...)
	a := opv.NewApp("/cfg")
	vlt := domain.NewVault("/v")
	sym.Assert(a.Vaults.Validate(vlt) == nil, "the vault is valid")
	for round := 0; round < 2; round++ {
		o := sym.Catch(func() {
			sym.Assert(a.Vaults.Unlock(vlt, "pw") == nil, "the vault unlocks")
		})
		sym.Assert(o.Kind == sym.Returned, "damaged data does not crash the program")
		for i, u := range uids {
			g := a.Vaults.GetItem(u, false)
			if i != at {
				sym.Assert(g != nil && g.Title == "t"+u && g.Notes == "n"+u, "other items are not affected")
			} else if g != nil {
				sym.Assert(g.Notes == "" && len(g.Sections) == 0, "nothing of bad details is shown")
			}
		}
		a.Vaults.Lock()
	}
	sym.Cover("neighbours")
}

// VerifLarge: a change anywhere in a large item.
func VerifLarge() {
	long := opv.Long([]int{700, 5000}[sym.Choose("size", 2)])
	run(func(v *opv.Vault, it *opv.Item, which int) {
		sym.Assume(which != 2)
		ik := opv.ItemKeys(0)
		b := opv.Opdata(ik[:32], ik[32:], []byte("{\"notesPlain\":\""+long+"\"}"))
		if which == 0 {
			b = opv.Opdata(v.Ok, v.Om, []byte("{\"title\":\""+long+"\"}"))
		}
		n := len(b)
		at := []int{8, 9, 16, 32, 64, 256, 600, n / 2, n - 96, n - 64, n - 33, n - 32, n - 24, n - 16, n - 1}
		k := at[sym.Choose("at", len(at))]
		switch sym.Choose("change", 3) {
		case 0:
			b[k] ^= 1
		case 1:
			b[k] ^= 0x80
		case 2:
			b = append(b[:k-1], b[k:]...)
		}
		put(it, which, opv.B64(b))
	})
	sym.Cover("large")
}

// VerifConstantKeys: details authentic under keys anybody knows, in an item whose own keys are
// bad, and an overview of that kind.
func VerifConstantKeys() {
	var key, mac []byte
	switch sym.Choose("keys", 6) {
	case 0:
		key, mac = make([]byte, 32), make([]byte, 32)
	case 1:
		key, mac = make([]byte, 32), nil
	case 2:
		key, mac = make([]byte, 16), nil
	case 3:
		key, mac = make([]byte, 32), make([]byte, 64)
	case 4:
		key, mac = []byte("\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff"), make([]byte, 32)
	case 5:
		key, mac = opv.ItemKeys(0)[:32], nil
	}
	damage := sym.Choose("damage", 5)
	run(func(v *opv.Vault, it *opv.Item, which int) {
		sym.Assume(which != 2)
		const x = "{\"title\":\"x\",\"url\":\"x\",\"notesPlain\":\"x\",\"fields\":[{\"name\":\"user\",\"value\":\"pass\"}]}"
		put(it, which, opv.B64(opv.Opdata(key, mac, []byte(x))))
		b := opv.KeyBlob(v.Mk, v.Mm, opv.ItemKeys(0))
		switch damage {
		case 0:
			b[len(b)-1] ^= 1
		case 1:
			b[20] ^= 0x80
		case 2:
			b = b[:60]
		case 3:
			b = nil
		case 4:
		}
		put(it, 2, opv.B64(b))
	})
	sym.Cover("keys anybody knows")
}
