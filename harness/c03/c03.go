// Package c03: derivation and unwrapping of every key.
package c03

import (
	"strconv"

	"github.com/mashmb/1pass/1pass-core/core/domain"
	"github.com/mashmb/1pass/1pass-core/core/service"
	"github.com/mashmb/1pass/1pass-core/port/out"
	"github.com/mashmb/1pass/1pass-parse/util/pbkdf2"

	"verif/harness/opv"
	"verif/harness/sym"
	"verif/harness/vm"
)

// bound: passwords of 0..12 symbolic bytes (any byte value) and of 64, 65 and 130 bytes, salts of 0, 8, 16 and 17 symbolic bytes, iteration counts from a list between 1 and 1000000
// bound: secrets of the profile key blobs of 0, 16, 31, 64 and 256 symbolic bytes; item key blobs of 64 key bytes, all symbolic; blobs whose MAC is wrong in any way
// bound: three derivations in a row by one service, password, salt and iteration count changing or not
// bound: beyond: other lengths
// assume: PBKDF2, SHA-512, HMAC-SHA256 are uninterpreted functions of all their inputs and AES-256 an uninterpreted permutation

func profile(salt []byte, iter int, master, over []byte) *opv.App {
	s := "var profile={\"lastUpdatedBy\":\"Dropbox\",\"profileName\":\"default\",\"salt\":\"" + opv.B64(salt) +
		"\",\"masterKey\":\"" + opv.B64(master) + "\",\"iterations\":" + strconv.Itoa(iter) + ",\"uuid\":\"2B894A18997C4638BACC55F2D56A4890\",\"overviewKey\":\"" +
		opv.B64(over) + "\",\"createdAt\":1373753414};"
	vm.WriteFile("/v/default/profile.js", []byte(s))
	a := opv.NewApp("/cfg")
	if err := a.Vaults.Validate(domain.NewVault("/v")); err != nil {
		sym.Assert(false, "a vault with a profile is valid")
	}
	return a
}

// VerifDerived: PBKDF2 gets the whole password, the decoded salt and the iteration count.
func VerifDerived() {
	long := []int{64, 65, 130}
	n := sym.Choose("pwlen", 13+len(long))
	if n > 12 {
		n = long[n-13]
	}
	pw := sym.Str("pw", n)
	salts := []int{16, 0, 8, 17}
	salt := sym.Bytes("salt", salts[sym.Choose("saltlen", len(salts))])
	iters := []int{1, 10, 999, 50000, 65537, 100001, 1000000}
	it := iters[sym.Choose("iter", len(iters))]
	a := profile(salt, it, []byte("m"), []byte("o"))
	k, m, err := a.Keys.DerivedKeys(pw)
	sym.Assert(err == nil, "key derivation succeeds")
	wk, wm := opv.Derive(pw, salt, it)
	sym.Assert(sym.EqBytes(k, wk), "the derived key is the first half of PBKDF2")
	sym.Assert(sym.EqBytes(m, wm), "the derived MAC key is the second half of PBKDF2")
	sym.Cover("derived")
}

// someProfile is a profile repository holding whatever is put there.
type someProfile struct {
	out.ProfileRepo
	salt string
	iter int
}

func (p *someProfile) GetSalt() string    { return p.salt }
func (p *someProfile) GetIterations() int { return p.iter }

// VerifTwice: what was derived before, and from what, does not matter.
func VerifTwice() {
	p := &someProfile{}
	ks := service.NewDfltKeyService(pbkdf2.NewPbkdf2CryptoUtils(), p)
	lens := [][]int{{6, 6, 6}, {0, 6, 0}, {6, 0, 7}}
	l := lens[sym.Choose("lens", 3)]
	same := sym.Choose("same", 3)
	pw, salt, iter := sym.Str("pw0", l[0]), sym.Bytes("salt0", 16), 10
	for i := 0; i < 3; i++ {
		p.salt, p.iter = opv.B64(salt), iter
		k, m, err := ks.DerivedKeys(pw)
		wk, wm := opv.Derive(pw, salt, iter)
		sym.Assert(err == nil, "key derivation succeeds")
		sym.Assert(sym.EqBytes(k, wk) && sym.EqBytes(m, wm), "the keys are those of this password, salt and iteration count")
		// one of the three stays as it was
		if same != 0 && i < 2 {
			pw = sym.Str("pw", l[i+1])
		}
		if same != 1 {
			salt = sym.Bytes("salt", 16)
		}
		if same != 2 {
			iter += 990
		}
	}
	sym.Cover("derived again")
}

// VerifProfile: master and overview keys come from their own blobs.
func VerifProfile() {
	sizes := []int{16, 0, 31, 64, 256}
	dk, dm := sym.Bytes("dk", 32), sym.Bytes("dm", 32)
	ms := sym.Bytes("master", sizes[sym.Choose("mlen", len(sizes))])
	os := sym.Bytes("overview", sizes[sym.Choose("olen", len(sizes))])
	iv1, iv2 := sym.Bytes("iv1", 16), sym.Bytes("iv2", 16)
	b1 := opv.Body(dk, iv1, sym.Bytes("pad1", opv.PadLen(len(ms))), ms)
	b2 := opv.Body(dk, iv2, sym.Bytes("pad2", opv.PadLen(len(os))), os)
	a := profile([]byte("salt"), 10, append(append([]byte{}, b1...), opv.Mac(dm, b1)...), append(append([]byte{}, b2...), opv.Mac(dm, b2)...))
	second := sym.Choose("again", 2)
	if second == 1 {
		// asking in the other order, and twice, changes nothing
		a.Keys.OverviewKeys(dk, dm)
	}
	mk, mm, err := a.Keys.MasterKeys(dk, dm)
	sym.Assert(err == nil, "master keys unwrap")
	wk, wm := opv.Sha512(ms)
	sym.Assert(sym.EqBytes(mk, wk), "the master key is the first half of the SHA-512 of its secret")
	sym.Assert(sym.EqBytes(mm, wm), "the master MAC key is the second half of the SHA-512 of its secret")
	ok, om, err := a.Keys.OverviewKeys(dk, dm)
	sym.Assert(err == nil, "overview keys unwrap")
	wk, wm = opv.Sha512(os)
	sym.Assert(sym.EqBytes(ok, wk), "the overview key is the first half of the SHA-512 of its secret")
	sym.Assert(sym.EqBytes(om, wm), "the overview MAC key is the second half of the SHA-512 of its secret")
	sym.Cover("profile keys")
}

// VerifForgedProfile: a profile blob with a wrong MAC gives an error and no keys.
func VerifForgedProfile() {
	dk, dm := sym.Bytes("dk", 32), sym.Bytes("dm", 32)
	ms, os := sym.Bytes("master", 16), sym.Bytes("overview", 16)
	b1 := opv.Body(dk, sym.Bytes("iv1", 16), sym.Bytes("pad1", 16), ms)
	b2 := opv.Body(dk, sym.Bytes("iv2", 16), sym.Bytes("pad2", 16), os)
	mask := sym.Bytes("mask", 32)
	sym.Assume(opv.NonZero(mask))
	t1, t2 := opv.Mac(dm, b1), opv.Mac(dm, b2)
	which := sym.Choose("which", 2)
	if which == 0 {
		t1 = opv.Xor(t1, mask)
	} else {
		t2 = opv.Xor(t2, mask)
	}
	a := profile([]byte("salt"), 10, append(append([]byte{}, b1...), t1...), append(append([]byte{}, b2...), t2...))
	mk, mm, err1 := a.Keys.MasterKeys(dk, dm)
	ok, om, err2 := a.Keys.OverviewKeys(dk, dm)
	if which == 0 {
		sym.Assert(err1 != nil && len(mk) == 0 && len(mm) == 0, "no master keys from a forged blob")
		sym.Assert(err2 == nil, "the other blob still unwraps")
	} else {
		sym.Assert(err2 != nil && len(ok) == 0 && len(om) == 0, "no overview keys from a forged blob")
		sym.Assert(err1 == nil, "the other blob still unwraps")
	}
	sym.Cover("forged profile key refused")
}

// VerifItem: item keys are the authenticated decryption of the item's own blob.
func VerifItem() {
	v := sym.Bytes("secrets", 64)
	mk, mm := v[:32], v[32:]
	keys := domain.NewKeys(sym.Bytes("dk", 32), sym.Bytes("dm", 32), mk, mm, sym.Bytes("ok", 32), sym.Bytes("om", 32))
	ik := sym.Bytes("itemkeys", 64)
	iv := sym.Bytes("iv", 16)
	b := append(append([]byte{}, iv...), opv.Cbc(mk, iv, ik)...)
	a := opv.NewApp("/cfg")
	raw := domain.NewRawItem("001", "", "", opv.B64(append(append([]byte{}, b...), opv.Mac(mm, b)...)), "", "U", 1, 2, false)
	for i := 0; i < 2; i++ {
		k, m := a.Keys.ItemKeys(raw, keys)
		sym.Assert(sym.EqBytes(k, ik[:32]), "the item key is the first half of its blob")
		sym.Assert(sym.EqBytes(m, ik[32:]), "the item MAC key is the second half of its blob")
	}
	sym.Cover("item keys")
}

// VerifForgedItem: an item key blob with a wrong MAC releases no keys.
func VerifForgedItem() {
	mk, mm := sym.Bytes("mk", 32), sym.Bytes("mm", 32)
	keys := domain.NewKeys(sym.Bytes("dk", 32), sym.Bytes("dm", 32), mk, mm, sym.Bytes("ok", 32), sym.Bytes("om", 32))
	b := sym.Bytes("blob", 80)
	tag := opv.Mac(mm, b)
	switch sym.Choose("tag", 6) {
	case 0:
		mask := sym.Bytes("mask", 32)
		sym.Assume(opv.NonZero(mask))
		tag = opv.Xor(tag, mask)
	case 1:
		tag = opv.Mac(mm, b[16:])
	case 2:
		tag = opv.Mac(mm, b[:64])
	case 3:
		tag = opv.Mac(mk, b)
	case 4:
		tag = opv.Mac(keys.DerivedMac, b)
	case 5:
		tag = opv.Mac(keys.OverviewMac, b)
	}
	sym.Assume(opv.Neq(tag, opv.Mac(mm, b)))
	a := opv.NewApp("/cfg")
	raw := domain.NewRawItem("001", "", "", opv.B64(append(append([]byte{}, b...), tag...)), "", "U", 1, 2, false)
	var k, m []byte
	o := sym.Catch(func() { k, m = a.Keys.ItemKeys(raw, keys) })
	sym.Assert(o.Kind == sym.Returned, "a forged item key blob does not crash")
	sym.Assert(len(k) == 0 && len(m) == 0, "no item keys from a forged blob")
	sym.Cover("forged item keys refused")
}
