// Package c02: decoding an opdata blob returns exactly the plaintext.
package c02

import (
	"github.com/mashmb/1pass/1pass-core/core/service"
	"github.com/mashmb/1pass/1pass-parse/repo/file"
	"github.com/mashmb/1pass/1pass-parse/util/pbkdf2"

	"verif/harness/opv"
	"verif/harness/sym"
)

// bound: plaintext lengths 0..48 (every residue modulo the AES block), 63, 64, 65, 255, 256, 257 and, concretely filled except for 64 symbolic bytes, 65536 and 65541, and fixed ones of 13 lengths from 1000 to 262145; all content, padding, IV and key bytes symbolic
// bound: padding of 1..16 bytes as the format prescribes
// bound: beyond: other plaintext lengths
// assume: AES-256 is an uninterpreted permutation (decryption inverts encryption); HMAC-SHA256 is uninterpreted

func roundTrip(n int, text []byte) {
	key, mk := sym.Bytes("key", 32), sym.Bytes("mackey", 32)
	body := opv.Body(key, sym.Bytes("iv", 16), sym.Bytes("pad", opv.PadLen(n)), text)
	blob := append(append([]byte{}, body...), opv.Mac(mk, body)...)
	ks := service.NewDfltKeyService(pbkdf2.NewPbkdf2CryptoUtils(), file.NewFileProfileRepo())
	var plain []byte
	var err error
	o := sym.Catch(func() { plain, err = ks.DecodeOpdata(blob, key, mk) })
	sym.Assert(o.Kind == sym.Returned, "decoding a well formed blob does not crash")
	sym.Assert(err == nil, "a well formed blob decodes")
	sym.Assert(len(plain) == n, "the plaintext has its original length")
	sym.Assert(sym.EqBytes(plain, text), "the plaintext is exactly the original")
}

// VerifShort: every length up to 48 and some around 64 and 256.
func VerifShort() {
	more := []int{63, 64, 65, 255, 256, 257}
	n := sym.Choose("size", 49+len(more))
	if n > 48 {
		n = more[n-49]
	}
	roundTrip(n, sym.Bytes("text", n))
	sym.Cover("round trip")
}

// VerifLong: lengths whose prefix needs a third byte.
func VerifLong() {
	n := []int{65536, 65541}[sym.Choose("size", 2)]
	text := make([]byte, n)
	for i := range text {
		text[i] = byte(i)
	}
	copy(text, sym.Bytes("head", 32))
	copy(text[n-32:], sym.Bytes("tail", 32))
	roundTrip(n, text)
	sym.Cover("long round trip")
}

// VerifFixed: fixed plaintexts of various lengths.
func VerifFixed() {
	n := []int{1000, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 32767, 32768, 65535, 131072, 262145}[sym.Choose("size", 13)]
	text := make([]byte, n)
	for i := range text {
		text[i] = byte(i*11 + i>>8)
	}
	key, mk := []byte("abcdefghijklmnopabcdefghijklmnop"), []byte("ABCDEFGHIJKLMNOPABCDEFGHIJKLMNOP")
	plain, err := service.NewDfltKeyService(pbkdf2.NewPbkdf2CryptoUtils(), file.NewFileProfileRepo()).DecodeOpdata(opv.Opdata(key, mk, text), key, mk)
	sym.Assert(err == nil, "a well formed blob decodes")
	sym.Assert(len(plain) == n, "the plaintext has its original length")
	sym.Assert(string(plain) == string(text), "the plaintext is exactly the original")
	sym.Cover("fixed round trip")
}
