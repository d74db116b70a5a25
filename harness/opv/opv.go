// Package opv builds OPVault data (an independent implementation of the format, used as the
// oracle) and holds helpers shared by the harnesses.
package opv

import (
	"strings"

	"crypto/aes"
	"crypto/cipher"
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"

	"golang.org/x/crypto/pbkdf2"

	"github.com/mashmb/1pass/1pass-core/core/domain"
	"github.com/mashmb/1pass/1pass-core/core/facade"
	"github.com/mashmb/1pass/1pass-core/core/service"
	"github.com/mashmb/1pass/1pass-parse/repo/file"
	putil "github.com/mashmb/1pass/1pass-parse/util/pbkdf2"

	"verif/harness/sym"
	"verif/harness/vm"
)

// Mac is HMAC-SHA256.
func Mac(key, msg []byte) []byte {
	h := hmac.New(sha256.New, key)
	h.Write(msg)
	return h.Sum(nil)
}

// Sha512 is the digest in two halves.
func Sha512(msg []byte) ([]byte, []byte) {
	h := sha512.New()
	h.Write(msg)
	s := h.Sum(nil)
	return s[:32], s[32:64]
}

// Derive is PBKDF2-HMAC-SHA512 in two halves.
func Derive(pw string, salt []byte, iter int) ([]byte, []byte) {
	k := pbkdf2.Key([]byte(pw), salt, iter, 64, sha512.New)
	return k[:32], k[32:]
}

// Cbc encrypts whole blocks.
func Cbc(key, iv, data []byte) []byte {
	b, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	out := make([]byte, len(data))
	cipher.NewCBCEncrypter(b, iv).CryptBlocks(out, data)
	return out
}

// Body is an opdata blob without its MAC.
func Body(key, iv, pad, plain []byte) []byte {
	n := len(plain)
	d := []byte("opdata01")
	for i := 0; i < 8; i++ {
		d = append(d, byte(n))
		n >>= 8
	}
	d = append(d, iv...)
	return append(d, Cbc(key, iv, append(append([]byte{}, pad...), plain...))...)
}

// PadLen is the number of random bytes that precede a plaintext of n bytes.
func PadLen(n int) int { return 16 - n%16 }

// Opdata is a complete blob with fixed IV and padding bytes.
func Opdata(key, mac, plain []byte) []byte {
	iv := []byte("0123456789abcdef")
	pad := []byte("pppppppppppppppp")[:PadLen(len(plain))]
	b := Body(key, iv, pad, plain)
	return append(b, Mac(mac, b)...)
}

// KeyBlob wraps the 64 bytes of item keys.
func KeyBlob(key, mac, itemKeys []byte) []byte {
	iv := []byte("fedcba9876543210")
	b := append([]byte{}, iv...)
	b = append(b, Cbc(key, iv, itemKeys)...)
	return append(b, Mac(mac, b)...)
}

// B64 is standard base64.
func B64(b []byte) string { return base64.StdEncoding.EncodeToString(b) }

// Vault is a vault under construction with known keys.
type Vault struct {
	Path                 string
	Pw                   string
	Salt                 []byte
	Iter                 int
	Dk, Dm               []byte
	Mk, Mm, Ok, Om       []byte
	MasterBlob, OverBlob []byte
	seq                  int
}

// NewVault derives all keys from the password and two secrets.
func NewVault(path, pw string) *Vault {
	v := &Vault{Path: path, Pw: pw, Salt: []byte("NaClNaClNaClNaCl"), Iter: 10}
	v.Dk, v.Dm = Derive(pw, v.Salt, v.Iter)
	ms, os := []byte("master secret of the vault"), []byte("overview secret of the vault")
	v.Mk, v.Mm = Sha512(ms)
	v.Ok, v.Om = Sha512(os)
	v.MasterBlob = Opdata(v.Dk, v.Dm, ms)
	v.OverBlob = Opdata(v.Dk, v.Dm, os)
	return v
}

// Keys gives the unlocked key set.
func (v *Vault) Keys() *domain.Keys { return domain.NewKeys(v.Dk, v.Dm, v.Mk, v.Mm, v.Ok, v.Om) }

// WriteProfile stores default/profile.js.
func (v *Vault) WriteProfile() {
	it := "10"
	s := "var profile={\"lastUpdatedBy\":\"Dropbox\",\"profileName\":\"default\",\"salt\":\"" + B64(v.Salt) +
		"\",\"masterKey\":\"" + B64(v.MasterBlob) + "\",\"iterations\":" + it + ",\"uuid\":\"2B894A18997C4638BACC55F2D56A4890\",\"overviewKey\":\"" +
		B64(v.OverBlob) + "\",\"createdAt\":1373753414};"
	vm.WriteFile(v.Path+"/default/profile.js", []byte(s))
}

// Item is one entry to be stored.
type Item struct {
	Uid, Category    string
	Created          string // JSON number
	Updated          string
	Trashed          string // "", "true" or "false"
	Overview         string // JSON
	Details          string // JSON
	O, D, K          string // overrides of the base64 texts
	SetO, SetD, SetK bool
}

// ItemKeys of the seq-th item.
func ItemKeys(seq int) []byte {
	k := make([]byte, 64)
	for i := range k {
		k[i] = byte(seq*64 + i + 1)
	}
	return k
}

// Raw builds the three encrypted texts of an item.
func (v *Vault) Raw(it *Item, seq int) (o, d, k string) {
	ik := ItemKeys(seq)
	o = B64(Opdata(v.Ok, v.Om, []byte(it.Overview)))
	d = B64(Opdata(ik[:32], ik[32:], []byte(it.Details)))
	k = B64(KeyBlob(v.Mk, v.Mm, ik))
	return
}

// Entry is the JSON text of an item in a band file.
func (v *Vault) Entry(it *Item) string {
	var o, d, k string
	if !it.SetO || !it.SetD || !it.SetK {
		o, d, k = v.Raw(it, v.seq)
	}
	v.seq++
	if it.SetO {
		o = it.O
	}
	if it.SetD {
		d = it.D
	}
	if it.SetK {
		k = it.K
	}
	tr := ""
	if it.Trashed != "" {
		tr = ",\"trashed\":" + it.Trashed
	}
	c, u := it.Created, it.Updated
	if c == "" {
		c = "1325483949"
	}
	if u == "" {
		u = "1325483950"
	}
	return "\"" + it.Uid + "\":{\"category\":\"" + it.Category + "\",\"k\":\"" + k + "\",\"updated\":" + u + ",\"tx\":1373753421,\"d\":\"" + d +
		"\",\"hmac\":\"aG1hYw==\",\"created\":" + c + tr + ",\"uuid\":\"" + it.Uid + "\",\"o\":\"" + o + "\"}"
}

// WriteBand stores a band file.
func (v *Vault) WriteBand(name string, items ...*Item) {
	s := "ld({"
	for i, it := range items {
		if i > 0 {
			s += ","
		}
		s += v.Entry(it)
	}
	s += "});"
	vm.WriteFile(v.Path+"/default/"+name, []byte(s))
}

// App is the wired core of the program.
type App struct {
	Items    service.ItemService
	Keys     service.KeyService
	VaultSvc service.VaultService
	Vaults   facade.VaultFacade
	Config   service.ConfigService
}

// NewApp wires the real implementations as main does.
func NewApp(configDir string) *App {
	a := &App{}
	itemRepo := file.NewFileItemRepo()
	profileRepo := file.NewFileProfileRepo()
	a.Config = service.NewDfltConfigService(file.NewFileConfigRepo(configDir))
	a.Keys = service.NewDfltKeyService(putil.NewPbkdf2CryptoUtils(), profileRepo)
	a.Items = service.NewDfltItemService(a.Keys, itemRepo)
	a.VaultSvc = service.NewDfltVaultService(itemRepo, profileRepo)
	a.Vaults = facade.NewDfltVaultFacade(a.Config, a.Items, a.Keys, a.VaultSvc)
	return a
}

// Neq says that two byte strings of equal length differ.
func Neq(a, b []byte) bool { return sym.Not(sym.EqBytes(a, b)) }

// Xor is bytewise exclusive or.
func Xor(a, b []byte) []byte {
	o := make([]byte, len(a))
	for i := range a {
		o[i] = a[i] ^ b[i]
	}
	return o
}

// NonZero says that some byte is not zero.
func NonZero(b []byte) bool {
	r := false
	for _, x := range b {
		r = sym.Or(r, x != 0)
	}
	return r
}

// InOrder says that the pieces occur in text one after the other without overlap (it does not
// fork on where).
func InOrder(text string, pieces ...string) bool {
	// can[i]: the pieces so far fit into text[:i]
	n := len(text)
	can := make([]bool, n+1)
	for i := range can {
		can[i] = true
	}
	for _, p := range pieces {
		nx := make([]bool, n+1)
		for i := 0; i <= n; i++ {
			r := false
			if i > 0 {
				r = nx[i-1]
			}
			if s := i - len(p); s >= 0 && can[s] != false {
				r = sym.Or(r, sym.And(can[s], text[s:i] == p))
			}
			nx[i] = r
		}
		can = nx
	}
	return can[n]
}

// InSeq is InOrder for texts without symbolic parts.
func InSeq(text string, pieces ...string) bool {
	for _, p := range pieces {
		i := strings.Index(text, p)
		if i < 0 {
			return false
		}
		text = text[i+len(p):]
	}
	return true
}

// Long is a fixed text of n characters without a period shorter than it.
func Long(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + (i+i/26+i/676)%26)
	}
	return string(b)
}
