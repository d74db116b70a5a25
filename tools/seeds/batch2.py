import sys; sys.path.insert(0, "/verif/tools")
from seedlib import seed, VAULT
KS="1pass-core/core/service/keyservice.go"; IR="1pass-parse/repo/file/itemrepo.go"; PR="1pass-parse/repo/file/profilerepo.go"
CC="1pass-term/control/cobra/clicontrol.go"; GC="1pass-term/control/gocui/guicontrol.go"; CR="1pass-parse/repo/file/configrepo.go"
UP="1pass-up/component/github/updater.go"; IS="1pass-core/core/service/itemservice.go"; VS="1pass-core/core/service/vaultservice.go"
T="1pass-app", "test/core/facade"
C="1pass-term", "control/cobra"

seed("c03-trim-password", "C03", [(KS, "DeriveKey([]byte(password), salt,", "DeriveKey(bytes.TrimRight([]byte(password), \"\\r\\n\\x00 \"), salt,")], *T, VAULT + '''
func TestSeedDemo(t *testing.T) {
	for _, pw := range []string{"pw", "pw ", " pw", "pw\\n", " "} {
		v := sNew(t, pw)
		vault := v.write()
		f := setupVaultFacade()
		if err := f.Validate(vault); err != nil {
			t.Fatal(err)
		}
		if err := f.Unlock(vault, pw); err != nil {
			t.Errorf("%q: %v", pw, err)
		}
	}
}
''', "a password that ends in a blank", "the wrong keys are derived, so the vault cannot be opened with its password")

seed("c06-upper-label", "C06", [(IS, "field = domain.NewItemField(strings.Title(name), value)", "field = domain.NewItemField(strings.Title(strings.ToLower(name)), value)")], *T, VAULT + '''
func TestSeedDemo(t *testing.T) {
	v := sNew(t, "pw")
	v.item("A", "001", `{"title":"a"}`, `{"fields":[{"name":"user name","value":"v"},{"name":"PIN","value":"w"}]}`)
	vault := v.write()
	f := setupVaultFacade()
	f.Validate(vault)
	if err := f.Unlock(vault, "pw"); err != nil {
		t.Fatal(err)
	}
	it := f.GetItem("A", false)
	if it == nil || len(it.Sections) != 1 || len(it.Sections[0].Fields) != 2 {
		t.Fatalf("wrong item: %+v", it)
	}
	if a, b := it.Sections[0].Fields[0].Name, it.Sections[0].Fields[1].Name; a != "User Name" || b != "PIN" {
		t.Errorf("labels %q, %q", a, b)
	}
}
''', "a top-level field whose name has capital letters after the first one of a word", "the field is shown with another label than its own")

seed("c09-case-category", "C09", [(IR, "if strings.Contains(strings.ToLower(item.Title), title) && item.Category == category &&", "if strings.Contains(item.Title, title) && item.Category == category &&")], *T, VAULT + '''
func TestSeedDemo(t *testing.T) {
	v := sNew(t, "pw")
	v.item("A", "001", `{"title":"My Bank"}`, `{}`)
	vault := v.write()
	f := setupVaultFacade()
	f.Validate(vault)
	if err := f.Unlock(vault, "pw"); err != nil {
		t.Fatal(err)
	}
	for _, s := range []string{"", "my", "MY", "My Bank", "bank"} {
		for _, c := range []*domain.ItemCategory{nil, domain.ItemCategoryEnum.Login} {
			if n := len(f.GetItems(c, s, false)); n != 1 {
				t.Errorf("%q in %v: %d items", s, c, n)
			}
		}
	}
}
''', "a search for a text and a category together, the title holding capital letters", "matching items are not listed")

seed("c10-fold", "C10", [(IS, "return items[i].Title < items[j].Title", "return strings.ToLower(items[i].Title) < strings.ToLower(items[j].Title)")], *T, VAULT + '''
func TestSeedDemo(t *testing.T) {
	v := sNew(t, "pw")
	v.item("A", "001", `{"title":"alpha"}`, `{}`)
	v.item("B", "001", `{"title":"Beta"}`, `{}`)
	vault := v.write()
	f := setupVaultFacade()
	f.Validate(vault)
	if err := f.Unlock(vault, "pw"); err != nil {
		t.Fatal(err)
	}
	if l := f.GetItems(nil, "", false); len(l) != 2 || l[0].Uid != "B" {
		t.Errorf("not in byte order")
	}
}
''', "titles of one category that differ in letter case", "the list is not in byte order")

seed("c11-fold-uid", "C11", [(IR, "if item.Uid == uid && item.Trashed == trashed {", "if strings.EqualFold(item.Uid, uid) && item.Trashed == trashed {")], *T, VAULT + '''
func TestSeedDemo(t *testing.T) {
	v := sNew(t, "pw")
	v.item("ABCDEF", "001", `{"title":"a"}`, `{}`)
	vault := v.write()
	f := setupVaultFacade()
	f.Validate(vault)
	if err := f.Unlock(vault, "pw"); err != nil {
		t.Fatal(err)
	}
	if it := f.GetItem("abcdef", false); it != nil {
		t.Errorf("an item with another UID is returned")
	}
}
''', "a UID that differs from an item's in letter case only", "an item with another UID is returned")

seed("c08-reuse-map", "C08", [(IS, '''type dfltItemService struct {
''', '''type dfltItemService struct {
	overview   map[string]interface{}
'''), (IS, '''	var overviewJson map[string]interface{}
	overviewData, _ :=''', '''	overviewData, _ :='''), (IS, '''	json.Unmarshal(overview, &overviewJson)

	return overviewJson''', '''
	for key := range s.overview {
		if len(overview) > 0 {
			delete(s.overview, key)
		}
	}

	json.Unmarshal(overview, &s.overview)

	return s.overview''')], *T, VAULT + '''
func TestSeedDemo(t *testing.T) {
	for n := 0; n < 20; n++ {
		v := sNew(t, "pw")
		v.item("A", "001", `{"title":"good","url":"http://good"}`, `{}`)
		bad := v.item("B", "001", `{"title":"bad"}`, `{}`)
		bad["o"] = s64(sOpdata(v.ok, []byte("another mac key"), []byte(`{"title":"forged"}`)))
		vault := v.write()
		f := setupVaultFacade()
		f.Validate(vault)
		if err := f.Unlock(vault, "pw"); err != nil {
			t.Fatal(err)
		}
		if it := f.GetItem("B", false); it != nil && (it.Title != "" || it.Url != "") {
			t.Errorf("a damaged item shows %q %q", it.Title, it.Url)
		}
		if it := f.GetItem("A", false); it == nil || it.Title != "good" {
			t.Errorf("the other item is %v", it)
		}
	}
}
''', "an item whose overview does not authenticate, decoded after another item", "the damaged item is shown with another item's title and URL")

STUB = r'''
package cobra

import (
	"io/ioutil"
	"os"
	"strings"
	"testing"

	"github.com/mashmb/1pass/1pass-core/core/domain"
)

var _ = strings.Contains

type sConf struct{ c *domain.Config }

func (s sConf) GetConfig() *domain.Config   { return s.c }
func (s sConf) IsConfigAvailable() bool     { return true }
func (s sConf) SaveConfig(c *domain.Config) { *s.c = *c }

type sUp struct{ checks *int }

func (s sUp) CheckForUpdate(force bool) (*domain.UpdateInfo, error) {
	if s.checks != nil {
		*s.checks++
	}
	return nil, domain.ErrNoUpdate
}
func (sUp) Update(stage func(int)) error { return nil }

type sVaultF struct {
	it     *domain.Item
	simple []*domain.SimpleItem
}

func (s sVaultF) CountItems(c *domain.ItemCategory, tr bool) int { return 1 }
func (s sVaultF) GetItem(uid string, tr bool) *domain.Item      { return s.it }
func (s sVaultF) GetItems(c *domain.ItemCategory, title string, tr bool) []*domain.SimpleItem {
	return s.simple
}
func (s sVaultF) IsUnlocked() bool                        { return true }
func (s sVaultF) Lock()                                   {}
func (s sVaultF) Unlock(v *domain.Vault, pw string) error { return nil }
func (s sVaultF) Validate(v *domain.Vault) error          { return nil }

func sOut(f func()) string {
	r, w, _ := os.Pipe()
	old := os.Stdout
	os.Stdout = w
	f()
	os.Stdout = old
	w.Close()
	out, _ := ioutil.ReadAll(r)
	return string(out)
}
'''
seed("c12-mask-lines", "C12", [(CC, '			fmt.Println("**********")\n', '			fmt.Println(strings.Repeat("**********\\n", strings.Count(strings.TrimSpace(item.Notes), "\\n")) + "**********")\n')], *C, STUB + '''
func TestSeedDemo(t *testing.T) {
	show := func(notes string) string {
		it := domain.NewItem("A", "t", "", notes, false, domain.ItemCategoryEnum.Login, nil, 1, 1)
		return sOut(func() { NewCobraCliControl(sConf{&domain.Config{}}, sUp{}, sVaultF{it: it}).GetItemOverview("/v", "A", false) })
	}
	a := show("one line")
	for _, n := range []string{"two\\nlines", "x", "\\n\\n", "a\\r\\nb\\r\\nc"} {
		if show(n) != a {
			t.Errorf("the overview tells %q from another text", n)
		}
	}
}
''', "notes of several lines", "the overview shows how many lines the notes have")

seed("c31-column", "C31", [(CC, '''	t.AppendHeader(table.Row{"lp.", "uid", "category", "title"})
''', '''	t.AppendHeader(table.Row{"lp.", "uid", "category", "title"})
	t.SetAllowedRowLength(1024)
''')], *C, STUB + '''
func TestSeedDemo(t *testing.T) {
	long := strings.Repeat("long title ", 120) + "END"
	l := []*domain.SimpleItem{domain.NewSimpleItem(domain.ItemCategoryEnum.Login, long, false, "U")}
	out := sOut(func() { NewCobraCliControl(sConf{&domain.Config{}}, sUp{}, sVaultF{simple: l}).GetItems("/v", "", "", false) })
	if !strings.Contains(out, long) {
		t.Errorf("the title is not complete")
	}
}
''', "a title of more than about a thousand characters", "the row of a long title is cut off")

seed("c19-unset", "C19", [(CC, '''	if config.UpdateNotify {
		info''', '''	if config.UpdateNotify || config.Vault == "" {
		info''')], *C, STUB + '''
func TestSeedDemo(t *testing.T) {
	for _, v := range []string{"", "/v"} {
		for _, n := range []bool{false, true} {
			checks := 0
			c := NewCobraCliControl(sConf{&domain.Config{Vault: v, UpdateNotify: n}}, sUp{&checks}, sVaultF{})
			sOut(func() { c.GetCategories() })
			if (checks > 0) != n {
				t.Errorf("vault %q, notifications %v: %d checks", v, n, checks)
			}
		}
	}
}
''', "notifications disabled and no default vault configured", "a check is made although notifications are disabled")

seed("c15-lstat", "C15", [(VS, "	info, err = os.Stat(profilePath)\n", "	info, err = os.Lstat(profilePath)\n")], *T, VAULT + '''
func TestSeedDemo(t *testing.T) {
	v := sNew(t, "pw")
	vault := v.write()
	p := filepath.Join(vault.Path, "default", "profile.js")
	if err := os.Remove(p); err != nil {
		t.Fatal(err)
	}
	if err := os.Symlink("missing", p); err != nil {
		t.Fatal(err)
	}
	// reading a profile that is not there would end the program
	if err := setupVaultFacade().Validate(vault); err == nil {
		t.Error("a vault without a profile file is accepted")
	}
}
''', "a profile file that is a symbolic link to a missing file", "validation passes and reading the profile ends the program")

seed("c22-no-truncate", "C22", [(UP, '''			file, err := os.Create(target)
''', '''			file, err := os.OpenFile(target, os.O_RDWR|os.O_CREATE, 0666)
''')], "1pass-up", "component/github", r'''
package github

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"io/ioutil"
	"path/filepath"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	dir := t.TempDir()
	var b bytes.Buffer
	gz := gzip.NewWriter(&b)
	tw := tar.NewWriter(gz)
	for _, c := range []string{"a long first version of the program", "short"} {
		tw.WriteHeader(&tar.Header{Name: "1pass", Mode: 0755, Size: int64(len(c)), Typeflag: tar.TypeReg})
		tw.Write([]byte(c))
	}
	tw.Close()
	gz.Close()
	src := filepath.Join(dir, "a.tar.gz")
	ioutil.WriteFile(src, b.Bytes(), 0600)
	if err := NewGithubUpdater().ExtractArchive(src, dir); err != nil {
		t.Fatal(err)
	}
	if c, _ := ioutil.ReadFile(filepath.Join(dir, "1pass")); string(c) != "short" {
		t.Errorf("extracted %q", c)
	}
}
''', "a file that is there already, with longer content", "the extracted file keeps the tail of the old one")

seed("c24-remove-first", "C24", [(UP, '''	if err := os.Rename(src, dst); err != nil {''', '''	if err := moveFile(src, dst); err != nil {'''), (UP, '''func (up *githubUpdater) ShouldCheck(''', '''func moveFile(src, dst string) error {
	if err := os.Remove(dst); err != nil {
		return err
	}

	return os.Rename(src, dst)
}

func (up *githubUpdater) ShouldCheck(''')], "1pass-up", "component/github", r'''
package github

import (
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	if src := os.Getenv("SEED_SRC"); src != "" {
		NewGithubUpdater().ReplaceBinary(src)
		return
	}
	dir := t.TempDir()
	prog, src := filepath.Join(dir, "1pass"), filepath.Join(dir, "new")
	me, err := ioutil.ReadFile(os.Args[0])
	if err != nil {
		t.Fatal(err)
	}
	if err := ioutil.WriteFile(prog, me, 0755); err != nil {
		t.Fatal(err)
	}
	// replacing the program by a directory fails, and must leave the program there
	if err := os.Mkdir(src, 0755); err != nil {
		t.Fatal(err)
	}
	c := exec.Command(prog, "-test.run", "TestSeedDemo")
	c.Env = append(os.Environ(), "SEED_SRC="+src)
	if out, err := c.CombinedOutput(); err != nil {
		t.Logf("%s", out)
	}
	if b, err := ioutil.ReadFile(prog); err != nil || len(b) != len(me) {
		t.Errorf("the installed program is gone: %v", err)
	}
}
''', "renaming the new program fails, or the process ends between the two steps", "the installed program is missing")

seed("c26-trash-details", "C26", [(GC, "return ctrl.vaultFacade.GetItem(simple.Uid, simple.Trashed)", "return ctrl.vaultFacade.GetItem(simple.Uid, false)")], "1pass-term", "control/gocui", r'''
package gocui

import (
	"testing"

	"github.com/mashmb/1pass/1pass-core/core/domain"
)

type sVaultF struct{ items []*domain.Item }

func (s sVaultF) CountItems(c *domain.ItemCategory, tr bool) int { return 1 }
func (s sVaultF) GetItem(uid string, tr bool) *domain.Item {
	for _, i := range s.items {
		if i.Uid == uid && i.Trashed == tr {
			return i
		}
	}
	return nil
}
func (s sVaultF) GetItems(c *domain.ItemCategory, title string, tr bool) []*domain.SimpleItem {
	return nil
}
func (s sVaultF) IsUnlocked() bool                        { return true }
func (s sVaultF) Lock()                                   {}
func (s sVaultF) Unlock(v *domain.Vault, pw string) error { return nil }
func (s sVaultF) Validate(v *domain.Vault) error          { return nil }

func TestSeedDemo(t *testing.T) {
	c := domain.ItemCategoryEnum.Login
	f := sVaultF{[]*domain.Item{domain.NewItem("A", "one", "", "", false, c, nil, 1, 1), domain.NewItem("B", "two", "", "", true, c, nil, 1, 1)}}
	g := NewGocuiGuiControl(nil, nil, f)
	for _, i := range f.items {
		got := g.GetItem(domain.NewSimpleItem(c, i.Title, i.Trashed, i.Uid))
		if got != i {
			t.Errorf("%s: the details are those of %v", i.Title, got)
		}
	}
}
''', "an item selected in the trash", "the details pane does not show the item that is highlighted")

seed("c17-zero-period", "C17", [(CR, '''	if repo.config["update-period"] != nil {
		period = repo.config["update-period"].(int)
	}''', '''	if value, _ := repo.config["update-period"].(int); value > 0 {
		period = value
	}''')], "1pass-app", "test/core/service", r'''
package service

import (
	"testing"

	"github.com/mashmb/1pass/1pass-core/core/domain"
	"github.com/mashmb/1pass/1pass-parse/repo/file"
)

func TestSeedDemo(t *testing.T) {
	for _, p := range []int{0, 1, 2, 365} {
		dir := t.TempDir()
		r := file.NewFileConfigRepo(dir)
		r.Save(domain.NewConfig(5, p, true, "/v"))
		if a, b := r.GetUpdatePeriod(), file.NewFileConfigRepo(dir).GetUpdatePeriod(); a != p || b != p {
			t.Errorf("saved %d, read %d and in the next run %d", p, a, b)
		}
	}
}
''', "an update period of 0 days", "the saved period is read back as 1")
