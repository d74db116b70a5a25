import sys
sys.path.insert(0, "/verif/tools")
from seedlib import *
IS = "1pass-core/core/service/itemservice.go"
US = "1pass-core/core/service/updateservice.go"
seed("c34-dump", "C34", [
    (IS, "	json.Unmarshal(details, &detailsJson)\n",
     "\n	if err := json.Unmarshal(details, &detailsJson); err != nil && len(details) > 0 {\n		// kept for bug reports\n		ioutil.WriteFile(filepath.Join(os.TempDir(), \"1pass-\"+encoded.Uid+\".json\"), details, 0600)\n	}\n"),
    (IS, "	\"fmt\"\n", "	\"fmt\"\n	\"io/ioutil\"\n	\"os\"\n	\"path/filepath\"\n")],
    "1pass-core", "core/service", r'''
package service

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"

	"github.com/mashmb/1pass/1pass-core/core/domain"
)

type sKeys struct {
	KeyService
	plain string
}

func (k sKeys) ItemKeys(item *domain.RawItem, keys *domain.Keys) ([]byte, []byte) { return nil, nil }
func (k sKeys) DecodeOpdata(data, key, mac []byte) ([]byte, error) {
	return []byte(k.plain), nil
}

func TestSeedDemo(t *testing.T) {
	d, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(d)
	for _, e := range []string{"TMPDIR", "HOME", "XDG_CONFIG_HOME", "XDG_CACHE_HOME"} {
		old, had := os.LookupEnv(e)
		os.Setenv(e, d)
		if had {
			defer os.Setenv(e, old)
		}
	}
	for _, plain := range []string{`{"notesPlain":"note"}`, `{"notesPlain":"secret`, "secret"} {
		s := &dfltItemService{keyService: sKeys{plain: plain}}
		s.DecodeDetails(&domain.RawItem{Uid: "A1"}, &domain.Keys{})
	}
	filepath.Walk(d, func(p string, i os.FileInfo, err error) error {
		if p != d {
			t.Errorf("%v was written", p)
		}
		return nil
	})
}
''', "an item with details that are no JSON although their checksum is right", "decrypted details are written to a file in the temporary directory")
seed("c35-late", "C35", [
    (US, "		stage(6)\n\n		if err := s.updater.ReplaceBinary(binary); err != nil {\n			return err\n		}\n",
     "		err := s.updater.ReplaceBinary(binary)\n		stage(6)\n\n		if err != nil {\n			return err\n		}\n")],
    "1pass-core", "core/service", r'''
package service

import (
	"testing"

	"github.com/mashmb/1pass/1pass-core/core/domain"
)

type sUpdater struct{ at map[string]int }

var sStage int

func (u sUpdater) CheckForUpdate(timeout int64) (*domain.UpdateInfo, error) {
	return domain.NewUpdateInfo("a", "c", "log", "9.9.9", true), nil
}
func (u sUpdater) CheckTimestamp(dirPath string) {}
func (u sUpdater) DownloadFile(destination, url string, timeout int64) error {
	u.at["download "+url] = sStage
	return nil
}
func (u sUpdater) ExtractArchive(src, dst string) error {
	u.at["extract"] = sStage
	return nil
}
func (u sUpdater) ReplaceBinary(src string) error {
	u.at["replace"] = sStage
	return nil
}
func (u sUpdater) ShouldCheck(period int, dirPath string) bool { return true }
func (u sUpdater) ValidateChecksum(binary, file string) error {
	u.at["validate"] = sStage
	return nil
}

func TestSeedDemo(t *testing.T) {
	u := sUpdater{at: map[string]int{}}
	// only the empty temporary directory of updates is made and removed
	if err := NewDfltUpdateService(u).Update(1, func(n int) { sStage = n }); err != nil {
		t.Fatal(err)
	}
	for k, n := range map[string]int{"download a": 2, "download c": 3, "extract": 4, "validate": 5, "replace": 6} {
		if u.at[k] != n {
			t.Errorf("%v in stage %v", k, u.at[k])
		}
	}
}
''', "someone who watches the stages, or a replacing that takes long or is interrupted", "the replacement of the program is announced after it was done")
