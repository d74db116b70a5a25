//go:build !vreplay
// +build !vreplay

package vm

import (
	"crypto/aes"
	"crypto/cipher"
	"hash"
)

func ufHash(name string, out int, msg []byte) []byte         { panic("engine") }
func ufMac(name string, out int, key, msg []byte) []byte     { panic("engine") }
func ufKdf(name string, pw, salt []byte, iter, n int) []byte { panic("engine") }
func ufAesDec(key, block []byte) []byte                      { panic("engine") }
func ufAesEnc(key, block []byte) []byte                      { panic("engine") }
func token(kind string, obj interface{}) []byte              { panic("engine") }
func tokenOf(kind string, b []byte) interface{}              { panic("engine") }

type uhash struct {
	name  string
	size  int
	block int
	mac   bool
	key   []byte
	buf   []byte
}

func (h *uhash) Write(p []byte) (int, error)       { h.buf = append(h.buf, p...); return len(p), nil }
func (h *uhash) WriteString(p string) (int, error) { h.buf = append(h.buf, p...); return len(p), nil }
func (h *uhash) Reset()                            { h.buf = nil }
func (h *uhash) Size() int                         { return h.size }
func (h *uhash) BlockSize() int                    { return h.block }
func (h *uhash) Sum(b []byte) []byte {
	var s []byte
	if h.mac {
		s = ufMac(h.name, h.size, h.key, h.buf)
	} else {
		s = ufHash(h.name, h.size, h.buf)
	}
	return append(b, s...)
}

//verif:for crypto/sha256.New
func sha256New() hash.Hash { return &uhash{name: "sha256", size: 32, block: 64} }

//verif:for crypto/sha256.New224
func sha224New() hash.Hash { return &uhash{name: "sha224", size: 28, block: 64} }

//verif:for crypto/sha512.New
func sha512New() hash.Hash { return &uhash{name: "sha512", size: 64, block: 128} }

//verif:for crypto/sha512.New384
func sha384New() hash.Hash { return &uhash{name: "sha384", size: 48, block: 128} }

//verif:for crypto/sha1.New
func sha1New() hash.Hash { return &uhash{name: "sha1", size: 20, block: 64} }

//verif:for crypto/md5.New
func md5New() hash.Hash { return &uhash{name: "md5", size: 16, block: 64} }

//verif:for crypto/sha256.Sum256
func sha256Sum(b []byte) (o [32]byte) { copy(o[:], ufHash("sha256", 32, b)); return }

//verif:for crypto/sha512.Sum512
func sha512Sum(b []byte) (o [64]byte) { copy(o[:], ufHash("sha512", 64, b)); return }

//verif:for crypto/md5.Sum
func md5Sum(b []byte) (o [16]byte) { copy(o[:], ufHash("md5", 16, b)); return }

//verif:for crypto/sha1.Sum
func sha1Sum(b []byte) (o [20]byte) { copy(o[:], ufHash("sha1", 20, b)); return }

func macKey(u *uhash, key []byte) []byte {
	if len(key) > u.block {
		key = ufHash(u.name, u.size, key)
	}
	k := make([]byte, u.block)
	copy(k, key)
	return k
}

//verif:for crypto/hmac.New
func hmacNew(h func() hash.Hash, key []byte) hash.Hash {
	u, ok := h().(*uhash)
	if !ok {
		panic("vm: hmac over an unmodelled hash")
	}
	return &uhash{name: u.name, size: u.size, block: u.block, mac: true, key: macKey(u, key)}
}

//verif:for golang.org/x/crypto/pbkdf2.Key
func pbkdf2Key(password, salt []byte, iter, keyLen int, h func() hash.Hash) []byte {
	u, ok := h().(*uhash)
	if !ok {
		panic("vm: pbkdf2 over an unmodelled hash")
	}
	// the output is a prefix of the 64*k byte stream
	n := (keyLen + u.size - 1) / u.size * u.size
	return ufKdf(u.name, macKey(u, password), salt, iter, n)[:keyLen]
}

type ublock struct{ key []byte }

func (b *ublock) BlockSize() int { return 16 }
func (b *ublock) Encrypt(dst, src []byte) {
	if len(src) < 16 {
		panic("crypto/aes: input not full block")
	}
	if len(dst) < 16 {
		panic("crypto/aes: output not full block")
	}
	copy(dst, ufAesEnc(b.key, src[:16]))
}
func (b *ublock) Decrypt(dst, src []byte) {
	if len(src) < 16 {
		panic("crypto/aes: input not full block")
	}
	if len(dst) < 16 {
		panic("crypto/aes: output not full block")
	}
	copy(dst, ufAesDec(b.key, src[:16]))
}

//verif:for crypto/aes.NewCipher
func aesNew(key []byte) (cipher.Block, error) {
	switch len(key) {
	case 16, 24, 32:
	default:
		return nil, aes.KeySizeError(len(key))
	}
	k := make([]byte, len(key))
	copy(k, key)
	return &ublock{k}, nil
}

type ucbc struct {
	b   cipher.Block
	iv  []byte
	enc bool
}

func (c *ucbc) BlockSize() int { return c.b.BlockSize() }
func (c *ucbc) CryptBlocks(dst, src []byte) {
	if len(src)%16 != 0 {
		panic("crypto/cipher: input not full blocks")
	}
	if len(dst) < len(src) {
		panic("crypto/cipher: output smaller than input")
	}
	in := make([]byte, len(src))
	copy(in, src)
	for i := 0; i < len(in); i += 16 {
		blk := make([]byte, 16)
		if c.enc {
			for j := range blk {
				blk[j] = in[i+j] ^ c.iv[j]
			}
			o := make([]byte, 16)
			c.b.Encrypt(o, blk)
			copy(dst[i:], o)
			c.iv = o
		} else {
			c.b.Decrypt(blk, in[i:i+16])
			for j := range blk {
				dst[i+j] = blk[j] ^ c.iv[j]
			}
			c.iv = in[i : i+16]
		}
	}
}

func newCbc(b cipher.Block, iv []byte, enc bool) cipher.BlockMode {
	if len(iv) != b.BlockSize() {
		panic("cipher.NewCBC: IV length must equal block size")
	}
	v := make([]byte, len(iv))
	copy(v, iv)
	return &ucbc{b, v, enc}
}

//verif:for crypto/cipher.NewCBCDecrypter
func cbcDec(b cipher.Block, iv []byte) cipher.BlockMode { return newCbc(b, iv, false) }

//verif:for crypto/cipher.NewCBCEncrypter
func cbcEnc(b cipher.Block, iv []byte) cipher.BlockMode { return newCbc(b, iv, true) }
