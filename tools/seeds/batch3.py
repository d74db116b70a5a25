import sys; sys.path.insert(0, "/verif/tools")
from seedlib import seed, VAULT
import importlib.util
CC="1pass-term/control/cobra/clicontrol.go"; CR="1pass-parse/repo/file/configrepo.go"; UP="1pass-up/component/github/updater.go"
DT="1pass-core/core/domain/datatype.go"; CO="1pass-app/cli/cobra.go"; KS="1pass-core/core/service/keyservice.go"
T="1pass-app", "test/core/facade"
C="1pass-term", "control/cobra"
U="1pass-up", "component/github"
src=open("/verif/tools/seeds/batch2.py").read()
STUB=src[src.index("STUB = r'''")+len("STUB = r'''"):]; STUB=STUB[:STUB.index("'''")]

seed("c14-tilde", "C14", [(CC, '''func (ctrl *cobraCliControl) GetItems(vaultPath, category, title string, trashed bool) {
	ctrl.FirstRun()
''', '''func (ctrl *cobraCliControl) GetItems(vaultPath, category, title string, trashed bool) {
	if strings.HasPrefix(vaultPath, "~") {
		vaultPath = os.Getenv("HOME") + vaultPath[1:]
	}

	ctrl.FirstRun()
''')], *C, STUB + '''
type sVaultSeen struct {
	sVaultF
	path *string
}

func (s sVaultSeen) Validate(v *domain.Vault) error {
	*s.path = v.Path
	return nil
}

func TestSeedDemo(t *testing.T) {
	os.Setenv("HOME", "/home/somebody")
	for _, p := range []string{"/v", "v~", "~backup.opvault", "a/~b"} {
		seen := ""
		c := NewCobraCliControl(sConf{&domain.Config{Vault: "/d"}}, sUp{}, sVaultSeen{path: &seen})
		sOut(func() { c.GetItems(p, "", "", false) })
		if seen != p {
			t.Errorf("%q named, %q opened", p, seen)
		}
	}
}
''', "a vault whose name begins with a tilde", "another vault than the one named is opened")


seed("c23-last-line", "C23", [(UP, '''	chunks := strings.Fields(strings.TrimSpace(string(fileContent)))
''', '''	lines := strings.Split(strings.TrimSpace(string(fileContent)), "\\n")
	chunks := strings.Fields(lines[len(lines)-1])
''')], *U, r'''
package github

import (
	"crypto/md5"
	"encoding/hex"
	"io/ioutil"
	"path/filepath"
	"strings"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	dir := t.TempDir()
	bin, sum := filepath.Join(dir, "1pass"), filepath.Join(dir, "1pass.md5")
	ioutil.WriteFile(bin, []byte("program"), 0600)
	h := md5.Sum([]byte("program"))
	good, bad := hex.EncodeToString(h[:]), strings.Repeat("0", 32)
	for text, ok := range map[string]bool{good: true, good + "  1pass\n": true, bad + "  1pass\n": false, bad + "  1pass\n" + good + "  other\n": false, "1pass " + good: false, good + "  1pass\n" + bad + "  other\n": true} {
		ioutil.WriteFile(sum, []byte(text), 0600)
		if err := NewGithubUpdater().ValidateChecksum(bin, sum); (err == nil) != ok {
			t.Errorf("%q: %v", text, err)
		}
	}
}
''', "a checksum file of several lines", "the program is compared with the last line's checksum instead of the first word of the file")

seed("c28-noon", "C28", [(DT, "	timestamp := time.Unix(unix, 0)\n", "	timestamp := time.Unix(unix-unix%86400, 0)\n")], "1pass-core", "core/domain", r'''
package domain

import (
	"fmt"
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	for _, h := range []int{0, 5, -5, 11} {
		time.Local = time.FixedZone("test", h*3600)
		for _, u := range []int64{0, 43200, 1600000000, 1373753414, 86399, 86400, -1} {
			want := time.Unix(u, 0).Format("2006-01-02")
			if got := DataTypeEnum.ParseValue(DataTypeEnum.Date, fmt.Sprint(u), nil); got != want {
				t.Errorf("%d at %d h: %s instead of %s", u, h, got, want)
			}
		}
	}
}
''', "a time zone other than UTC, and a time whose local day is not that of the preceding midnight UTC", "a date is shown as the day before")

seed("c28-repeat", "C28", [(DT, '''		formatted := fmt.Sprintf("\\n  %v: %v", key, val)
''', '''
		if val != "" && strings.HasSuffix(parsed, ": "+val) {
			continue
		}

		formatted := fmt.Sprintf("\\n  %v: %v", key, val)
''')], "1pass-core", "core/domain", r'''
package domain

import (
	"strings"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	a := map[string]interface{}{"city": "Luxembourg", "country": "Luxembourg", "zip": "1", "street": "New"}
	got := DataTypeEnum.ParseValue(DataTypeEnum.Address, "", a)
	for _, l := range []string{"city: Luxembourg", "country: Luxembourg", "zip: 1", "street: New"} {
		if !strings.Contains(got, l) {
			t.Errorf("%q is missing in %q", l, got)
		}
	}
}
''', "an address with the same text in two neighbouring parts", "a part of the address is not shown")

seed("c29-trim-uid", "C29", [(CO, "cli.cliControl.GetItemDetails(cli.vault, args[0], cli.trashed)", "cli.cliControl.GetItemDetails(cli.vault, strings.TrimSpace(args[0]), cli.trashed || cmd.Flags().NFlag() > 1)"), (CO, '	"fmt"\n', '	"fmt"\n	"strings"\n')], "1pass-app", "cli", r'''
package cli

import (
	"fmt"
	"os"
	"testing"
)

type sControl struct{ calls []string }

func (c *sControl) CheckForUpdate()  {}
func (c *sControl) Configure()       {}
func (c *sControl) FirstRun()        {}
func (c *sControl) GetCategories()   {}
func (c *sControl) Update()          {}
func (c *sControl) GetItems(vault, category, name string, trashed bool) {
	c.calls = append(c.calls, fmt.Sprintf("%q %q %q %v", vault, category, name, trashed))
}
func (c *sControl) GetItemDetails(vault, uid string, trashed bool) {
	c.calls = append(c.calls, fmt.Sprintf("%q %q %v", vault, uid, trashed))
}
func (c *sControl) GetItemOverview(vault, uid string, trashed bool) {
	c.calls = append(c.calls, fmt.Sprintf("%q %q %v", vault, uid, trashed))
}

func TestSeedDemo(t *testing.T) {
	for want, args := range map[string][]string{
		`"" "U" false`:   {"details", "U"},
		`"/v" "U" true`:  {"details", "U", "-v", "/v", "-t"},
		`"/v" "U" false`: {"details", "U", "-v", "/v"},
		`"/w" "U" false`: {"details", "U", "-v", "/w", "-t=false"},
		`"" " U " false`: {"details", " U "},
	} {
		c := &sControl{}
		os.Args = append([]string{"1pass"}, args...)
		NewCobraCli("1.0.0", nil, c).Run()
		if len(c.calls) != 1 || c.calls[0] != want {
			t.Errorf("%q: %q instead of %s", args, c.calls, want)
		}
	}
}
''', "a UID with blanks around it, or the trashed flag switched off explicitly together with a vault", "the details command looks for another item than the one named")

seed("c32-first-again", "C32", [(CR, "	return len(repo.config) > 0", "	return repo.config[\"opvault\"] != nil && repo.config[\"opvault\"] != \"\"")], *T, VAULT + '''
func TestSeedDemo(t *testing.T) {
	for _, v := range []string{"/v", ""} {
		dir := t.TempDir()
		file.NewFileConfigRepo(dir).Save(&domain.Config{Timeout: 3, UpdateNotify: true, UpdatePeriod: 2, Vault: v})
		if !service.NewDfltConfigService(file.NewFileConfigRepo(dir)).IsConfigAvailable() {
			t.Errorf("settings with vault %q are asked for again", v)
		}
	}
}
''', "settings saved without a default vault", "the program asks the first-run questions again on every run")

seed("c33-cap", "C33", [(UP, '''			tout := time.Duration(timeout) * time.Second
''', '''			tout := time.Duration(timeout) * time.Second

			if network == "tcp" && tout > time.Second {
				tout = tout - tout/2
			}
''')], *U, r'''
package github

import (
	"net/http"
	"syscall"
	"testing"
	"time"
)

// A listener that accepts nothing and whose queue is full: connection attempts get no answer.
func sSilent(t *testing.T) (string, func()) {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM, 0)
	if err != nil {
		t.Fatal(err)
	}
	if err := syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}); err != nil {
		t.Fatal(err)
	}
	if err := syscall.Listen(fd, 0); err != nil {
		t.Fatal(err)
	}
	sa, _ := syscall.Getsockname(fd)
	addr := sa.(*syscall.SockaddrInet4)
	var fds []int
	for i := 0; i < 4; i++ {
		c, _ := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_NONBLOCK, 0)
		syscall.Connect(c, addr)
		fds = append(fds, c)
	}
	time.Sleep(100 * time.Millisecond)
	return "127.0.0.1:" + sItoa(addr.Port), func() {
		for _, c := range fds {
			syscall.Close(c)
		}
		syscall.Close(fd)
	}
}

func sItoa(n int) string {
	if n < 10 {
		return string(rune('0' + n))
	}
	return sItoa(n/10) + string(rune('0'+n%10))
}

func TestSeedDemo(t *testing.T) {
	addr, done := sSilent(t)
	defer done()
	for _, s := range []int64{1, 4} {
		c := httpClient(s)
		start := time.Now()
		_, err := c.Transport.(*http.Transport).Dial("tcp", addr)
		took := time.Since(start)
		if err == nil || took < time.Duration(s)*time.Second-300*time.Millisecond || took > time.Duration(s)*time.Second+3*time.Second {
			t.Errorf("timeout %d s: given up after %v (%v)", s, took, err)
		}
	}
}
''', "a configured timeout of more than a second and a server that does not answer", "connection attempts are given up after half the configured time")
