// Package c01: encrypted blobs are released only when their MAC verifies.
package c01

import (
	"github.com/mashmb/1pass/1pass-core/core/service"
	"github.com/mashmb/1pass/1pass-parse/repo/file"
	"github.com/mashmb/1pass/1pass-parse/util/pbkdf2"

	"verif/harness/opv"
	"verif/harness/sym"
)

// bound: blob bodies (header, size, IV, ciphertext) of 32, 48, 64 and 80 bytes, and as damaged input every length from 0 to 31 and 33, 40, 47, 63, 65 and 79 bytes; all bytes, both keys and the tag symbolic
// bound: MAC keys of 32 symbolic bytes, and of 0, 1, 31, 33, 64 and 65; encryption keys of 32, and of 0, 5, 31 and 33 bytes (which AES refuses)
// bound: long blobs of 4128 and 8240 bytes, mostly fixed, one byte of them (first, last and others) changed in every way
// bound: fixed blobs of 1000 to 140000 bytes with the right tag or the tag of a part of them
// bound: one fixed blob with 1 to 32 bytes of its tag overwritten, from either end; every bit of the authenticated bytes and every byte of tag and MAC key changed after a first, good or bad, blob
// bound: tags made with the right key over a part of the bytes, with the encryption key, with no key
// bound: beyond: other longer ciphertexts (the loop over AES blocks is unrolled at most 3 times)
// assume: HMAC-SHA256 and AES-256 are uninterpreted functions of all their input bytes
// assume: (VerifTampered only) the HMAC of the changed data does not collide with the tag

func keySvc() service.KeyService {
	return service.NewDfltKeyService(pbkdf2.NewPbkdf2CryptoUtils(), file.NewFileProfileRepo())
}

func decode(blob, key, mk []byte) ([]byte, error, sym.Outcome) {
	var plain []byte
	var err error
	o := sym.Catch(func() { plain, err = keySvc().DecodeOpdata(blob, key, mk) })
	return plain, err, o
}

func data(n int) []byte {
	d := sym.Bytes("data", n)
	if n >= 8 && sym.Choose("magic", 2) == 1 {
		copy(d, "opdata01")
	}
	return d
}

func refused(plain []byte, err error, o sym.Outcome) {
	sym.Assert(o.Kind == sym.Returned, "refusing a blob does not crash")
	sym.Assert(err != nil, "a blob with a wrong MAC is an error")
	sym.Assert(len(plain) == 0, "a blob with a wrong MAC yields no plaintext")
}

// VerifForged: any tag that differs from the right one in any way is refused, whatever the
// length of the blob.
func VerifForged() {
	sizes := []int{32, 48, 64, 80, 0, 1, 7, 8, 15, 16, 24, 31, 33, 40, 47, 63, 65, 79}
	n := sizes[sym.Choose("size", len(sizes))]
	d := data(n)
	key, mk := sym.Bytes("key", 32), sym.Bytes("mackey", 32)
	mask := sym.Bytes("mask", 32)
	sym.Assume(opv.NonZero(mask))
	blob := append(append([]byte{}, d...), opv.Xor(opv.Mac(mk, d), mask)...)
	plain, err, o := decode(blob, key, mk)
	refused(plain, err, o)
	sym.Cover("forged tag refused")
}

// VerifWrongInput: a tag over other bytes than all of the blob, or under another key, is no tag.
func VerifWrongInput() {
	sizes := []int{48, 64}
	n := sizes[sym.Choose("size", len(sizes))]
	d := data(n)
	key, mk := sym.Bytes("key", 32), sym.Bytes("mackey", 32)
	var tag []byte
	switch sym.Choose("tag", 12) {
	case 0:
		tag = opv.Mac(mk, d[8:])
	case 1:
		tag = opv.Mac(mk, d[16:])
	case 2:
		tag = opv.Mac(mk, d[32:])
	case 3:
		tag = opv.Mac(mk, d[:16])
	case 4:
		tag = opv.Mac(mk, d[:32])
	case 5:
		tag = opv.Mac(mk, nil)
	case 6:
		tag = opv.Mac(key, d)
	case 7:
		tag = opv.Mac(nil, d)
	case 8:
		tag = opv.Mac(mk[:16], d)
	case 9:
		tag = make([]byte, 32)
	case 10:
		tag = append([]byte{}, mk...)
	case 11:
		tag = append([]byte{}, d[len(d)-32:]...)
	}
	sym.Assume(opv.Neq(opv.Mac(mk, d), tag))
	plain, err, o := decode(append(append([]byte{}, d...), tag...), key, mk)
	refused(plain, err, o)
	sym.Cover("wrong tag refused")
}

// VerifKeyLengths: MAC keys of any length count in full.
func VerifKeyLengths() {
	lens := []int{0, 1, 31, 33, 64, 65}
	l := lens[sym.Choose("keylen", len(lens))]
	key, mk := sym.Bytes("key", 32), sym.Bytes("mackey", l)
	body := opv.Body(key, sym.Bytes("iv", 16), sym.Bytes("pad", 12), sym.Bytes("text", 4))
	tag := opv.Mac(mk, body)
	if sym.Choose("forged", 2) == 0 {
		plain, err, o := decode(append(append([]byte{}, body...), tag...), key, mk)
		sym.Assert(o.Kind == sym.Returned && err == nil && len(plain) == 4, "an authentic blob is accepted")
		return
	}
	mask := sym.Bytes("mask", 32)
	sym.Assume(opv.NonZero(mask))
	plain, err, o := decode(append(append([]byte{}, body...), opv.Xor(tag, mask)...), key, mk)
	refused(plain, err, o)
	if l > 0 {
		other := append([]byte{}, mk...)
		other[l-1] ^= 1
		tag2 := opv.Mac(other, body)
		sym.Assume(opv.Neq(tag2, tag))
		plain, err, o = decode(append(append([]byte{}, body...), tag2...), key, mk)
		refused(plain, err, o)
	}
	sym.Cover("forged tag refused")
}

// VerifBadKey: an authentic blob that cannot be decrypted is an error without data.
func VerifBadKey() {
	lens := []int{0, 5, 31, 33}
	key, mk := sym.Bytes("key", lens[sym.Choose("keylen", len(lens))]), sym.Bytes("mackey", 32)
	body := opv.Body(make([]byte, 32), sym.Bytes("iv", 16), sym.Bytes("pad", 12), sym.Bytes("text", 4))
	plain, err, o := decode(append(append([]byte{}, body...), opv.Mac(mk, body)...), key, mk)
	sym.Assert(o.Kind == sym.Returned, "a key of the wrong size does not crash")
	sym.Assert(err != nil && len(plain) == 0, "no data without a usable key")
	sym.Cover("unusable key")
}

// VerifLong: every byte of a long blob counts.
func VerifLong() {
	sizes := []int{4128, 8240}
	n := sizes[sym.Choose("size", len(sizes))]
	d := make([]byte, n)
	for i := range d {
		d[i] = byte(i * 7)
	}
	copy(d, "opdata01")
	at := []int{0, 8, 15, 16, 32, 1023, 2048, 4095, 4096, 4127, 8239, n - 1, n}
	key, mk := make([]byte, 32), []byte("abcdefghabcdefghabcdefghabcdefgh")
	for i := 8; i < 16; i++ {
		d[i] = 0
	}
	tag := opv.Mac(mk, d)
	k := at[sym.Choose("at", len(at))]
	if k < n {
		x := sym.Byte("byte")
		sym.Assume(x != d[k])
		d[k] = x
		sym.Assume(opv.Neq(opv.Mac(mk, d), tag))
	} else {
		tag[sym.Choose("tagbyte", 32)] ^= 0x40
	}
	plain, err, o := decode(append(d, tag...), key, mk)
	refused(plain, err, o)
	sym.Cover("tampered long blob refused")
}

// VerifShort: a blob too short to hold a MAC is refused.
func VerifShort() {
	n := sym.Choose("size", 32)
	blob := sym.Bytes("data", n)
	plain, err, o := decode(blob, sym.Bytes("key", 32), sym.Bytes("mackey", 32))
	refused(plain, err, o)
	sym.Cover("short blob refused")
}

// VerifTampered: any change of the authenticated bytes, or of the MAC key, is noticed.
func VerifTampered() {
	sizes := []int{32, 48, 64, 80}
	n := sizes[sym.Choose("size", len(sizes))]
	d := data(n)
	key, mk, mk2 := sym.Bytes("key", 32), sym.Bytes("mackey", 32), sym.Bytes("mackey2", 32)
	tag := opv.Mac(mk2, d)
	d2 := opv.Xor(d, sym.Bytes("mask", n))
	sym.Assume(opv.Neq(opv.Mac(mk, d2), tag))
	plain, err, o := decode(append(append([]byte{}, d2...), tag...), key, mk)
	refused(plain, err, o)
	sym.Cover("tampered blob refused")
}

// VerifAuthentic: a well formed blob with the right tag is accepted.
func VerifAuthentic() {
	n := sym.Choose("plain", 33)
	key, mk, iv := sym.Bytes("key", 32), sym.Bytes("mackey", 32), sym.Bytes("iv", 16)
	body := opv.Body(key, iv, sym.Bytes("pad", opv.PadLen(n)), sym.Bytes("text", n))
	plain, err, o := decode(append(append([]byte{}, body...), opv.Mac(mk, body)...), key, mk)
	sym.Assert(o.Kind == sym.Returned, "accepting a blob does not crash")
	sym.Assert(err == nil, "an authentic blob is accepted")
	sym.Assert(len(plain) == n, "an authentic blob yields its plaintext")
	sym.Cover("authentic blob accepted")
}

// VerifAnything: whatever the bytes are, plaintext only comes with the right tag.
func VerifAnything() {
	sizes := []int{32, 48, 64, 40, 33, 16}
	n := sizes[sym.Choose("size", len(sizes))]
	d := data(n)
	key, mk := sym.Bytes("key", 32), sym.Bytes("mackey", 32)
	good := opv.Mac(mk, d)
	mask := sym.Bytes("mask", 32)
	blob := append(append([]byte{}, d...), opv.Xor(good, mask)...)
	plain, err, o := decode(blob, key, mk)
	sym.Assert(o.Kind == sym.Returned, "decoding arbitrary bytes does not crash")
	if err == nil {
		sym.Assert(sym.Not(opv.NonZero(mask)), "plaintext only with the right MAC")
		sym.Cover("decoded")
	} else {
		sym.Assert(len(plain) == 0, "an error comes without plaintext")
		sym.Cover("refused")
	}
}

// VerifLongTags: long blobs are judged by all their bytes.
func VerifLongTags() {
	n := []int{1000, 4096, 8200, 70000, 140000}[sym.Choose("size", 5)]
	text := make([]byte, n)
	for i := range text {
		text[i] = byte(i*7 + i>>8)
	}
	key, mk := []byte("abcdefghijklmnopabcdefghijklmnop"), []byte("ABCDEFGHIJKLMNOPABCDEFGHIJKLMNOP")
	blob := opv.Opdata(key, mk, text)
	d := append([]byte{}, blob[:len(blob)-32]...)
	k := sym.Choose("part", 9)
	if k == 0 {
		plain, err, o := decode(blob, key, mk)
		sym.Assert(o.Kind == sym.Returned && err == nil, "a well formed blob with the right MAC is accepted")
		sym.Assert(sym.EqBytes(plain, text), "it yields its plaintext")
		sym.Cover("long blob accepted")
		return
	}
	size := []int{512, 1024, 4096, 65536}[(k-1)%4]
	if size >= len(d) {
		size = len(d) - 16
	}
	part := d[:size]
	if k > 4 {
		part = d[len(d)-size:]
	}
	plain, err, o := decode(append(d, opv.Mac(mk, part)...), key, mk)
	refused(plain, err, o)
	sym.Cover("long blob refused")
}

// VerifZeroed: a tag of which some bytes are wiped is no tag.
func VerifZeroed() {
	key, mk := []byte("abcdefghijklmnopabcdefghijklmnop"), []byte("ABCDEFGHIJKLMNOPABCDEFGHIJKLMNOP")
	blob := opv.Opdata(key, mk, []byte("some text"))
	k := 1 + sym.Choose("bytes", 32)
	fill := []byte{0, 0xff, ' ', '\n'}[sym.Choose("fill", 4)]
	n, end := len(blob), sym.Choose("end", 2)
	for i := 0; i < k; i++ {
		if end == 0 {
			blob[n-1-i] = fill
		} else {
			blob[n-32+i] = fill
		}
	}
	plain, err, o := decode(blob, key, mk)
	refused(plain, err, o)
	sym.Cover("wiped tag refused")
}

// VerifAgain: what was found authentic before vouches for nothing else.
func VerifAgain() {
	key, mk := []byte("abcdefghijklmnopabcdefghijklmnop"), []byte("ABCDEFGHIJKLMNOPABCDEFGHIJKLMNOP")
	good := opv.Opdata(key, mk, []byte("some text"))
	s := keySvc()
	run := func(blob, key, mk []byte) ([]byte, error, sym.Outcome) {
		var plain []byte
		var err error
		o := sym.Catch(func() { plain, err = s.DecodeOpdata(blob, key, mk) })
		return plain, err, o
	}
	first := sym.Choose("first", 3)
	switch first {
	case 0:
		plain, err, _ := run(append([]byte{}, good...), key, mk)
		sym.Assert(err == nil && string(plain) == "some text", "a well formed blob with the right MAC is accepted")
	case 1:
		bad := append([]byte{}, good...)
		bad[20] ^= 1
		plain, err, o := run(bad, key, mk)
		refused(plain, err, o)
	}
	d := append([]byte{}, good...)
	k2, m2 := key, mk
	switch sym.Choose("second", 6) {
	case 0:
		i := sym.Choose("byte", len(d)-32)
		d[i] ^= byte(1 << uint(sym.Choose("bit", 8)))
	case 1:
		d[len(d)-1-sym.Choose("byte", 32)] ^= 0x10
	case 2:
		m2 = append([]byte{}, mk...)
		m2[sym.Choose("byte", 32)] ^= 1
	case 3:
		d = append(d[:len(d)-48], d[len(d)-32:]...) // a block less
	case 4:
		e := opv.Opdata(key, mk, []byte("another t"))
		d = append(append([]byte{}, e[:len(e)-32]...), good[len(good)-32:]...)
	case 5:
		plain, err, o := run(d, k2, m2)
		sym.Assert(o.Kind == sym.Returned && err == nil && string(plain) == "some text", "a well formed blob with the right MAC is accepted")
		sym.Cover("accepted again")
		return
	}
	plain, err, o := run(d, k2, m2)
	refused(plain, err, o)
	sym.Cover("refused after another one")
}

// VerifOften: a blob refused once is refused for ever.
func VerifOften() {
	key, mk := []byte("abcdefghijklmnopabcdefghijklmnop"), []byte("ABCDEFGHIJKLMNOPABCDEFGHIJKLMNOP")
	blob := opv.Opdata(key, mk, []byte("some text"))
	mask := sym.Bytes("mask", 32)
	sym.Assume(opv.NonZero(mask))
	n := len(blob) - 32
	forged := append(append([]byte{}, blob[:n]...), opv.Xor(blob[n:], mask)...)
	s := keySvc()
	for i := 0; i < 6; i++ {
		var plain []byte
		var err error
		o := sym.Catch(func() { plain, err = s.DecodeOpdata(append([]byte{}, forged...), key, mk) })
		refused(plain, err, o)
	}
	plain, err := s.DecodeOpdata(blob, key, mk)
	sym.Assert(err == nil && string(plain) == "some text", "a well formed blob with the right MAC is accepted")
	sym.Cover("refused every time")
}
