// Package c04: only the right password unlocks a vault.
package c04

import (
	"github.com/mashmb/1pass/1pass-core/core/domain"

	"verif/harness/opv"
	"verif/harness/sym"
)

// bound: right passwords of 0..8 symbolic bytes; attempted passwords of 0..9 symbolic bytes (longer, shorter, equal); one item in the vault, normal or trashed; any deviation of the MAC of either profile key, or of the authenticated bytes of one of them
// bound: beyond: other lengths
// assume: PBKDF2 and HMAC-SHA256 are uninterpreted; the HMAC under the attempted password's keys does not collide with the stored MAC (assumed explicitly)

func vault(pw string) *opv.Vault {
	v := opv.NewVault("/v", pw)
	v.WriteBand("band_0.js", &opv.Item{Uid: "AA", Category: "001", Overview: "{\"title\":\"Secret\"}", Details: "{\"notesPlain\":\"hidden\"}"},
		&opv.Item{Uid: "BB", Category: "003", Trashed: "true", Overview: "{\"title\":\"Gone\"}", Details: "{}"})
	return v
}

func shut(a *opv.App) {
	sym.Assert(!a.Vaults.IsUnlocked(), "the vault counts as locked")
	for _, tr := range []bool{false, true} {
		sym.Assert(len(a.Vaults.GetItems(nil, "", tr)) == 0, "nothing is listed")
		sym.Assert(a.Vaults.CountItems(nil, tr) == 0, "nothing is counted")
		for _, c := range domain.ItemCategoryEnum.GetValues() {
			sym.Assert(a.Vaults.CountItems(c, tr) == 0, "nothing is counted")
		}
		sym.Assert(a.Vaults.GetItem("AA", tr) == nil && a.Vaults.GetItem("BB", tr) == nil, "nothing is fetched")
	}
}

func open(a *opv.App) {
	sym.Assert(a.Vaults.IsUnlocked(), "the vault counts as unlocked")
	sym.Assert(len(a.Vaults.GetItems(nil, "", false)) == 1 && len(a.Vaults.GetItems(nil, "", true)) == 1, "its items are listed")
	sym.Assert(a.Vaults.GetItem("AA", false) != nil && a.Vaults.GetItem("BB", true) != nil, "its items are fetched")
}

func app() (*opv.App, *domain.Vault) {
	a := opv.NewApp("/cfg")
	vlt := domain.NewVault("/v")
	sym.Assert(a.Vaults.Validate(vlt) == nil, "the vault is valid")
	shut(a)
	return a, vlt
}

func unlock(a *opv.App, v *domain.Vault, pw string) error {
	var err error
	o := sym.Catch(func() { err = a.Vaults.Unlock(v, pw) })
	sym.Assert(o.Kind == sym.Returned, "unlocking does not crash")
	return err
}

// VerifPasswords: any two passwords; the attempt succeeds exactly when its keys authenticate.
func VerifPasswords() {
	pw := sym.Str("pw", sym.Choose("len", 9))
	same := sym.Choose("same", 2) == 1
	try := pw
	if !same {
		try = sym.Str("try", sym.Choose("trylen", 10))
		sym.Assume(sym.Not(pw == try))
	}
	v := vault(pw)
	v.WriteProfile()
	a, vlt := app()
	_, dm := opv.Derive(try, v.Salt, v.Iter)
	body := v.MasterBlob[:len(v.MasterBlob)-32]
	right := sym.EqBytes(opv.Mac(dm, body), v.MasterBlob[len(body):])
	body = v.OverBlob[:len(v.OverBlob)-32]
	right2 := sym.EqBytes(opv.Mac(dm, body), v.OverBlob[len(body):])
	if !same {
		// different derived keys do not authenticate by accident
		sym.Assume(sym.And(sym.Not(right), sym.Not(right2)))
		err := unlock(a, vlt, try)
		sym.Assert(err == domain.ErrInvalidPass, "a wrong password is reported as invalid")
		shut(a)
		sym.Cover("wrong password")
	} else {
		err := unlock(a, vlt, try)
		sym.Assert(err == nil, "the right password unlocks")
		open(a)
		sym.Cover("right password")
	}
}

// VerifForgedKeys: with the right password, a profile key that does not authenticate keeps
// the vault shut.
func VerifForgedKeys() {
	pw := sym.Str("pw", 4)
	v := vault(pw)
	m1, m2 := sym.Bytes("mask1", 32), sym.Bytes("mask2", 32)
	n := len(v.MasterBlob) - 32
	v.MasterBlob = append(append([]byte{}, v.MasterBlob[:n]...), opv.Xor(v.MasterBlob[n:], m1)...)
	n = len(v.OverBlob) - 32
	v.OverBlob = append(append([]byte{}, v.OverBlob[:n]...), opv.Xor(v.OverBlob[n:], m2)...)
	v.WriteProfile()
	a, vlt := app()
	err := unlock(a, vlt, pw)
	if sym.Fork(sym.Or(opv.NonZero(m1), opv.NonZero(m2))) {
		sym.Assert(err == domain.ErrInvalidPass, "an unauthentic profile key refuses every password")
		shut(a)
		sym.Cover("forged profile key")
	} else {
		sym.Assert(err == nil, "the right password unlocks")
		open(a)
		sym.Cover("intact profile keys")
	}
}

// VerifDamagedKeys: the same for changed authenticated bytes, truncated and broken texts.
func VerifDamagedKeys() {
	v := vault("pw")
	b := v.MasterBlob
	over := sym.Choose("which", 2) == 1
	if over {
		b = v.OverBlob
	}
	switch sym.Choose("damage", 3) {
	case 0:
		mask := sym.Bytes("mask", len(b)-32)
		sym.Assume(opv.NonZero(mask))
		c := opv.Xor(b[:len(b)-32], mask)
		sym.Assume(opv.Neq(opv.Mac(v.Dm, c), b[len(b)-32:]))
		b = append(c, b[len(b)-32:]...)
	case 1:
		cuts := []int{0, 1, 31, 32, 33, 63, 64, len(b) - 1}
		b = b[:cuts[sym.Choose("cut", len(cuts))]]
	case 2:
		b = append(append([]byte{}, b...), sym.Bytes("more", 1+sym.Choose("extra", 3))...)
		sym.Assume(opv.Neq(opv.Mac(v.Dm, b[:len(b)-32]), b[len(b)-32:]))
	}
	if over {
		v.OverBlob = b
	} else {
		v.MasterBlob = b
	}
	v.WriteProfile()
	a, vlt := app()
	err := unlock(a, vlt, "pw")
	sym.Assert(err == domain.ErrInvalidPass, "a damaged profile key refuses every password")
	shut(a)
	sym.Cover("damaged profile key")
}
