// Package c33: network waits are limited by the configured timeout.
package c33

import (
	"crypto/md5"
	"encoding/hex"
	"os"
	"strconv"
	"time"

	"github.com/mashmb/1pass/1pass-core/core/domain"
	"github.com/mashmb/1pass/1pass-core/core/facade"
	"github.com/mashmb/1pass/1pass-core/core/service"
	"github.com/mashmb/1pass/1pass-up/component/github"

	"verif/harness/stub"
	"verif/harness/sym"
	"verif/harness/vm"
	app "verif/harness/zz_app"
)

// bound: every timeout from 1 to 30 seconds (symbolic), 6 kinds of server addresses, any one request failing, forced and unforced checks, updates, with the real update facade, service and component; the whole program with every timeout configured by an earlier run
// bound: beyond: what happens after connecting (slow transfers are not limited)
// assume: the limit of a request is the least of the client's timeout, the request's deadline and the time limit with which its transport connects

type cfg struct{ s *stub.All }

func (c cfg) GetConfig() *domain.Config   { return c.s.Config.GetConfig() }
func (c cfg) IsConfigAvailable() bool     { return true }
func (c cfg) SaveConfig(k *domain.Config) {}

var failing = 0

func server() {
	n := 0
	base := []string{"http://h", "https://objects.githubusercontent.com", "https://127.0.0.1:8443", "http://[::1]:8080", "https://[2001:db8::1]", "https://xn--bcher-kva.example"}[sym.Choose("host", 6)]
	bin := []byte("new program")
	sum := md5.Sum(bin)
	vm.SetExecutable("/bin/1pass")
	vm.WriteFileMode("/bin/1pass", []byte("old program"), 0755)
	vm.Mkdir("/tmp")
	vm.SetHTTP(func(url string) vm.Reply {
		n++
		if n == failing {
			return vm.Reply{Err: vm.ErrFault}
		}
		switch url {
		case domain.GithubReleases:
			return vm.Reply{Body: []byte("[{\"tag_name\":\"2.7.1\",\"body\":\"what changed\",\"assets\":[{\"name\":\"1pass.tar.gz\",\"browser_download_url\":\"" + base + "/a\"},{\"name\":\"checksum.md5\",\"browser_download_url\":\"" + base + "/c\"}]}]")}
		case base + "/a":
			return vm.Reply{Body: vm.Archive([]vm.Entry{{Name: "1pass", Type: '0', Data: bin, Mode: 0755}}, 0)}
		case base + "/c":
			return vm.Reply{Body: []byte(hex.EncodeToString(sum[:]) + "  1pass\n")}
		}
		return vm.Reply{Err: vm.ErrFault}
	})
	vm.TrackLimits()
}

func limited(from, atLeast int, sec int) {
	l := vm.Limits()[from:]
	sym.Assert(len(l) >= atLeast, "requests are made")
	for _, d := range l {
		sym.Assert(d == time.Duration(sec)*time.Second, "a connection is given up after the configured time")
	}
}

// VerifFacade: checks and updates, every timeout.
func VerifFacade() {
	server()
	s := stub.New()
	t := sym.Int("timeout", 1, 30)
	s.Config.Conf.Timeout = t
	s.Config.Conf.UpdatePeriod = sym.Int("period", 0, 365)
	f := facade.NewDfltUpdateFacade("/cfg", cfg{s}, service.NewDfltUpdateService(github.NewGithubUpdater()))
	if sym.Bool("update") {
		err := f.Update(func(int) {})
		sym.Assert(err == nil, "the update succeeds")
		limited(0, 3, t)
		sym.Cover("update")
		return
	}
	_, err := f.CheckForUpdate(sym.Bool("forced"))
	sym.Assert(err == nil, "the check succeeds")
	limited(0, 1, t)
	sym.Cover("check")
}

// VerifFailing: a request that fails leads to none without a limit.
func VerifFailing() {
	failing = 1 + sym.Choose("failing", 3)
	server()
	s := stub.New()
	t := []int{1, 5, 30}[sym.Choose("timeout", 3)]
	s.Config.Conf.Timeout = t
	f := facade.NewDfltUpdateFacade("/cfg", cfg{s}, service.NewDfltUpdateService(github.NewGithubUpdater()))
	o := sym.Catch(func() {
		if sym.Bool("update") {
			f.Update(func(int) {})
		} else {
			f.CheckForUpdate(sym.Bool("forced"))
		}
	})
	sym.Assert(o.Kind == sym.Returned, "a failing request does not crash the program")
	limited(0, 1, t)
	sym.Cover("failing")
}

// VerifProgram: the timeout given to configure is that of later runs.
func VerifProgram() {
	server()
	t := sym.Choose("timeout", 30) + 1
	run := func(args ...string) {
		os.Args = append([]string{"1pass"}, args...)
		sym.Catch(app.Main)
	}
	vm.SetStdin("n\ny\n" + strconv.Itoa(t) + "\n0\n")
	run("configure")
	n := len(vm.Limits())
	switch sym.Choose("command", 2) {
	case 0:
		run("categories")
		limited(n, 1, t)
	case 1:
		vm.SetStdin("y\n")
		run("update")
		limited(n, 3, t)
	}
	sym.Cover("program")
}
