import sys; sys.path.insert(0, "/verif/tools")
from seedlib import seed, VAULT
KS="1pass-core/core/service/keyservice.go"; IR="1pass-parse/repo/file/itemrepo.go"; VF="1pass-core/core/facade/vaultfacade.go"
CC="1pass-term/control/cobra/clicontrol.go"; CR="1pass-parse/repo/file/configrepo.go"; US="1pass-core/core/service/updateservice.go"
UP="1pass-up/component/github/updater.go"; IS="1pass-core/core/service/itemservice.go"
T="1pass-app", "test/core/facade"

seed("c01-short-mac", "C01", [(KS, "if !hmac.Equal(computed, desiredHmac) {", "if !hmac.Equal(computed[:16], desiredHmac[:16]) {")], *T, VAULT + '''
func TestSeedDemo(t *testing.T) {
	s := service.NewDfltKeyService(pbkdf2.NewPbkdf2CryptoUtils(), file.NewFileProfileRepo())
	key, mac := make([]byte, 32), []byte("mac")
	for i := 1; i <= 32; i++ {
		b := sOpdata(key, mac, []byte("secret"))
		b[len(b)-i] ^= 0x40
		if p, err := s.DecodeOpdata(b, key, mac); err == nil || p != nil {
			t.Errorf("accepted a blob with MAC byte -%d changed", i)
		}
	}
}
''', "a blob whose MAC differs from the right one only in its last 16 bytes", "MAC check compares a truncated tag, so forged blobs are accepted")

seed("c04-early-unlock", "C04", [(VF, '''	overviewKey, overviewMac, err := f.keyService.OverviewKeys(derivedKey, derivedMac)
''', '''	f.keys = domain.NewKeys(derivedKey, derivedMac, masterKey, masterMac, nil, nil)
	overviewKey, overviewMac, err := f.keyService.OverviewKeys(derivedKey, derivedMac)
'''), (VF, '''	f.keys = domain.NewKeys(derivedKey, derivedMac, masterKey, masterMac, overviewKey, overviewMac)
	f.itemS''', '''	f.keys.OverviewKey, f.keys.OverviewMac = overviewKey, overviewMac
	f.itemS''')], *T, VAULT + '''
func TestSeedDemo(t *testing.T) {
	v := sNew(t, "pw")
	v.item("A", "001", `{"title":"a"}`, `{}`)
	o := sOpdata(v.dk, v.dm, []byte("x"))
	o[40] ^= 1
	v.profile["overviewKey"] = s64(o)
	vault := v.write()
	f := setupVaultFacade()
	if err := f.Validate(vault); err != nil {
		t.Fatal(err)
	}
	if err := f.Unlock(vault, "pw"); err == nil {
		t.Fatal("unlocked")
	}
	if f.IsUnlocked() {
		t.Error("counts as unlocked after a failed unlock")
	}
}
''', "a profile whose master key blob authenticates but whose overview key blob does not", "the vault counts as unlocked although unlocking failed")

seed("c05-empty-lock", "C05", [(IR, '''	if repo.items != nil {
		repo.items = nil''', '''	if len(repo.items) > 0 {
		repo.items = nil''')], *T, VAULT + '''
func TestSeedDemo(t *testing.T) {
	v := sNew(t, "pw")
	vault := v.write()
	f := setupVaultFacade()
	f.Validate(vault)
	if err := f.Unlock(vault, "pw"); err != nil {
		t.Fatal(err)
	}
	f.Lock()
	v.item("A", "001", `{"title":"a"}`, `{}`)
	v.write()
	if err := f.Unlock(vault, "pw"); err != nil {
		t.Fatal(err)
	}
	if n := f.CountItems(nil, false); n != 1 {
		t.Errorf("%d items after relocking, expected 1", n)
	}
}
''', "unlock an empty vault, lock it, let items be added, unlock again", "after the second unlock the vault's current content is not shown")

seed("c07-2038", "C07", [(IR, 'created := int64(v["created"].(float64))', 'created := int64(int32(int64(v["created"].(float64))))')], *T, VAULT + '''
func TestSeedDemo(t *testing.T) {
	v := sNew(t, "pw")
	v.item("A", "001", `{"title":"a"}`, `{}`)["created"] = 4000000000
	vault := v.write()
	f := setupVaultFacade()
	f.Validate(vault)
	if err := f.Unlock(vault, "pw"); err != nil {
		t.Fatal(err)
	}
	if it := f.GetItem("A", false); it == nil || it.Created != 4000000000 {
		t.Errorf("wrong creation time: %+v", it)
	}
}
''', "an item created after January 2038", "creation time overflows")

seed("c13-printf", "C13", [(CC, '''						fmt.Println(fmt.Sprintf("%v: %v", field.Name, field.Value))''', '''						fmt.Printf(field.Name + ": " + field.Value + "\\n")''')], "1pass-term", "control/cobra", r'''
package cobra

import (
	"io/ioutil"
	"os"
	"strings"
	"testing"

	"github.com/mashmb/1pass/1pass-core/core/domain"
)

type sConf struct{}

func (sConf) GetConfig() *domain.Config    { return &domain.Config{} }
func (sConf) IsConfigAvailable() bool      { return true }
func (sConf) SaveConfig(c *domain.Config)  {}

type sUp struct{}

func (sUp) CheckForUpdate(force bool) (*domain.UpdateInfo, error) { return nil, domain.ErrNoUpdate }
func (sUp) Update(stage func(int)) error                          { return nil }

type sVaultF struct{ it *domain.Item }

func (s sVaultF) CountItems(c *domain.ItemCategory, tr bool) int { return 1 }
func (s sVaultF) GetItem(uid string, tr bool) *domain.Item      { return s.it }
func (s sVaultF) GetItems(c *domain.ItemCategory, title string, tr bool) []*domain.SimpleItem {
	return nil
}
func (s sVaultF) IsUnlocked() bool                            { return true }
func (s sVaultF) Lock()                                       {}
func (s sVaultF) Unlock(v *domain.Vault, pw string) error     { return nil }
func (s sVaultF) Validate(v *domain.Vault) error              { return nil }

func TestSeedDemo(t *testing.T) {
	f := domain.NewItemField("Password", "100%d%%x")
	it := domain.NewItem("A", "t", "", "", false, domain.ItemCategoryEnum.Login, []*domain.ItemSection{domain.NewItemSection("", []*domain.ItemField{f})}, 1, 1)
	r, w, _ := os.Pipe()
	old := os.Stdout
	os.Stdout = w
	NewCobraCliControl(sConf{}, sUp{}, sVaultF{it}).GetItemDetails("/v", "A", false)
	os.Stdout = old
	w.Close()
	out, _ := ioutil.ReadAll(r)
	if !strings.Contains(string(out), "Password: 100%d%%x\n") {
		t.Errorf("value not shown as it is:\n%s", out)
	}
}
''', "a field value containing a percent sign", "the value is used as a format string and shown garbled")

seed("c16-fraction", "C16", [(CC, '	period, err := strconv.ParseInt(periodVal, 10, 64)', '	period, err := strconv.ParseFloat(periodVal, 64)')], "1pass-term", "control/cobra", r'''
package cobra

import (
	"os"
	"testing"

	"github.com/mashmb/1pass/1pass-core/core/domain"
)

type sConf struct{ c *domain.Config }

func (s sConf) GetConfig() *domain.Config   { return s.c }
func (s sConf) IsConfigAvailable() bool     { return true }
func (s sConf) SaveConfig(c *domain.Config) { *s.c = *c }

type sUp struct{}

func (sUp) CheckForUpdate(force bool) (*domain.UpdateInfo, error) { return nil, domain.ErrNoUpdate }
func (sUp) Update(stage func(int)) error                          { return nil }

func TestSeedDemo(t *testing.T) {
	for _, a := range []string{"0.5", "1e2", "7.9", "x", "366", "-1"} {
		c := &domain.Config{Timeout: 3, UpdatePeriod: 5}
		r, w, _ := os.Pipe()
		w.WriteString("n\n\n\n" + a + "\n")
		w.Close()
		old := os.Stdin
		os.Stdin = r
		NewCobraCliControl(sConf{c}, sUp{}, nil).Configure()
		os.Stdin = old
		if c.UpdatePeriod != 5 {
			t.Errorf("answer %q changed the period to %d", a, c.UpdatePeriod)
		}
	}
}
''', "an answer that is a number but not a whole number", "the update period is changed by an invalid answer")

seed("c18-missing-checksum", "C18", [(US, '''s.updater.ValidateChecksum(binary, checksum); err != nil {''', '''s.updater.ValidateChecksum(binary, checksum); err == domain.ErrInvalidMd5 {''')], "1pass-app", "test/core/service", r'''
package service

import (
	"errors"
	"testing"

	"github.com/mashmb/1pass/1pass-core/core/domain"
	"github.com/mashmb/1pass/1pass-core/core/service"
)

type sUp struct {
	err      error
	replaced bool
}

func (s *sUp) CheckForUpdate(timeout int64) (*domain.UpdateInfo, error) {
	return domain.NewUpdateInfo("a", "c", "l", "9.9.9", true), nil
}
func (s *sUp) CheckTimestamp(dir string)                                {}
func (s *sUp) DownloadFile(destination, url string, timeout int64) error { return nil }
func (s *sUp) ExtractArchive(src, dst string) error                     { return nil }
func (s *sUp) ReplaceBinary(src string) error                           { s.replaced = true; return nil }
func (s *sUp) ShouldCheck(period int, dirPath string) bool              { return true }
func (s *sUp) ValidateChecksum(binary, file string) error               { return s.err }

func TestSeedDemo(t *testing.T) {
	for _, e := range []error{domain.ErrInvalidMd5, errors.New("no such file")} {
		u := &sUp{err: e}
		err := service.NewDfltUpdateService(u).Update(1, func(int) {})
		if err == nil || u.replaced {
			t.Errorf("%v: error %v, replaced %v", e, err, u.replaced)
		}
	}
}
''', "validation failing for another reason than a wrong sum (checksum file or binary unreadable)", "the program is replaced although validation failed")

seed("c20-round", "C20", [(UP, "between := math.Abs(now.Sub(timestamp).Hours() / 24)", "between := math.Round(math.Abs(now.Sub(timestamp).Hours() / 24))")], "1pass-up", "component/github", r'''
package github

import (
	"fmt"
	"io/ioutil"
	"path/filepath"
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	dir := t.TempDir()
	for _, h := range []int{1, 11, 13, 23, 25, 49} {
		ioutil.WriteFile(filepath.Join(dir, "lastcheck"), []byte(fmt.Sprint(time.Now().Add(-time.Duration(h)*time.Hour).Unix())), 0600)
		for p := 0; p < 4; p++ {
			if got := NewGithubUpdater().ShouldCheck(p, dir); got != (h >= 24*p) {
				t.Errorf("%d hours, period %d: %v", h, p, got)
			}
		}
	}
}
''', "a check in the second half of the last day of the period", "the server is contacted up to half a day early")

seed("c23-prefix", "C23", [(UP, "chunks[0] != calculated {", "!strings.HasPrefix(calculated, chunks[0]) {")], "1pass-up", "component/github", r'''
package github

import (
	"crypto/md5"
	"encoding/hex"
	"io/ioutil"
	"path/filepath"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	dir := t.TempDir()
	bin, sum := filepath.Join(dir, "b"), filepath.Join(dir, "s")
	ioutil.WriteFile(bin, []byte("program"), 0600)
	m := md5.Sum([]byte("program"))
	x := hex.EncodeToString(m[:])
	for n := 0; n <= 32; n++ {
		ioutil.WriteFile(sum, []byte(x[:n]+"  1pass\n"), 0600)
		if err := NewGithubUpdater().ValidateChecksum(bin, sum); (err == nil) != (n == 32) {
			t.Errorf("%d characters of the sum: %v", n, err)
		}
	}
}
''', "a checksum file whose first word is a truncated sum", "a truncated checksum is accepted")
