// Package c18: an update installs only a verified newer release.
package c18

import (
	"crypto/md5"
	"encoding/hex"
	"errors"
	"io"
	"os"
	"strings"
	"syscall"

	"github.com/mashmb/1pass/1pass-core/core/domain"
	"github.com/mashmb/1pass/1pass-core/core/facade"
	"github.com/mashmb/1pass/1pass-core/core/service"
	"github.com/mashmb/1pass/1pass-up/component/github"

	"verif/harness/stub"
	"verif/harness/sym"
	"verif/harness/vm"
)

// bound: every combination of outcomes of the update's steps (release check with error, nothing, not newer, newer; each download, extraction, validation, replacement and each change of the file system failing or not), release addresses of 3 symbolic bytes each; with the real updater: program contents of up to 4 symbolic bytes, any wrong checksum, failing or interrupted transfers, damaged archives, archives without the program, one file system fault at any point
// bound: beyond: several faults at once with the real updater, other sizes, archives that bring their own checksum file
// assume: MD5 is an uninterpreted function in symbolic runs

type call struct{ op, a, b string }

type updater struct {
	calls []call
	fail  map[string]bool
	info  *domain.UpdateInfo
	err   error
	errs  error
	half  bool // failing steps leave files
	dirty bool // something was left in the temporary directory when downloading began
}

var errStep = errors.New("step failed")

// what steps fail with
var errors1 = []error{errStep, &os.PathError{Op: "open", Path: "/x", Err: syscall.EACCES}, &os.PathError{Op: "open", Path: "/x", Err: syscall.ENOENT}, io.EOF, io.ErrUnexpectedEOF, domain.ErrInvalidMd5, domain.ErrNoUpdate, &os.LinkError{Op: "rename", Old: "a", New: "b", Err: syscall.EXDEV}}

func (u *updater) step(op, a, b string) error {
	u.calls = append(u.calls, call{op, a, b})
	if u.fail[op] {
		return u.errs
	}
	return nil
}
func (u *updater) CheckForUpdate(timeout int64) (*domain.UpdateInfo, error) {
	u.step("check", "", "")
	return u.info, u.err
}
func (u *updater) CheckTimestamp(dir string)               {}
func (u *updater) ShouldCheck(period int, dir string) bool { return true }
func (u *updater) ExtractArchive(src, dst string) error {
	err := u.step("extract", src, dst)
	if err == nil || u.half {
		vm.WriteFile(dst+"/1pass", []byte("extracted"))
	}
	return err
}
func (u *updater) ReplaceBinary(src string) error { return u.step("replace", src, "") }
func (u *updater) ValidateChecksum(binary, file string) error {
	return u.step("validate", binary, file)
}
func (u *updater) DownloadFile(dst, url string, timeout int64) error {
	if len(u.calls) == 1 {
		if vm.Kind(domain.CacheDir) != vm.KindDir || vm.Kind(domain.CacheDir+"/old") != vm.KindNone || vm.Kind(domain.CacheDir+"/1pass") != vm.KindNone {
			u.dirty = true
		}
	}
	op := "archive"
	if u.info != nil && sym.Fork(url == u.info.ChecksumUrl) && (url != u.info.ArchiveUrl || len(u.calls) > 1) {
		op = "checksum"
	}
	err := u.step(op, dst, url)
	if err == nil || u.half {
		vm.WriteFile(dst, []byte("x"))
	}
	return err
}
func (u *updater) find(op string) (call, int) {
	for i, c := range u.calls {
		if c.op == op {
			return c, i
		}
	}
	return call{}, -1
}

// VerifSteps: every combination of outcomes.
func VerifSteps() {
	u := &updater{fail: map[string]bool{}, errs: errStep}
	kind := sym.Choose("release", 4)
	au, cu := "http://a/"+sym.Str("archive", 3), "http://c/"+sym.Str("checksum", 3)
	switch kind {
	case 0:
		u.err = errStep
	case 1:
	case 2:
		u.info = domain.NewUpdateInfo(au, cu, "log", []string{domain.Version, "0.9.9", "9.9.9", ""}[sym.Choose("version", 4)], false)
	case 3:
		switch sym.Choose("addresses", 4) {
		case 1:
			au, cu = "", ""
		case 2:
			au = cu
		case 3:
			cu = ""
		}
		u.info = domain.NewUpdateInfo(au, cu, "log", "9.9.9", true)
	}
	failing := false
	for _, s := range []string{"archive", "checksum", "extract", "validate", "replace"} {
		if kind == 3 && sym.Bool("fail "+s) {
			u.fail[s] = true
			failing = true
		}
	}
	if failing {
		u.errs = errors1[sym.Choose("error", len(errors1))]
		u.half = sym.Bool("half done")
	}
	if sym.Bool("leftovers") {
		vm.WriteFile(domain.CacheDir+"/old", []byte("x"))
		vm.WriteFile(domain.CacheDir+"/1pass", []byte("left"))
	}
	fault := sym.Choose("fault", 5)
	n := 0
	replaced := false
	vm.OnOp(func(op, path string) error {
		if strings.HasPrefix(path, domain.CacheDir) {
			n++
			if n == fault {
				return vm.ErrFault
			}
		}
		return nil
	})
	s := stub.New()
	var err error
	stages := 0
	o := sym.Catch(func() {
		err = facade.NewDfltUpdateFacade("/cfg", cfg{s}, service.NewDfltUpdateService(u)).Update(func(k int) { stages++ })
	})
	vm.OnOp(nil)
	sym.Assert(o.Kind == sym.Returned, "an update neither crashes nor ends the program"+o.Msg)
	for i, c := range u.calls {
		sym.Assert(i == len(u.calls)-1 || !u.fail[c.op], "no step runs after a failed one")
		if u.fail[c.op] {
			sym.Assert(err != nil, "a failed step is reported")
		}
		if c.op == "replace" && !u.fail["replace"] {
			replaced = true
		}
	}
	if kind != 3 {
		sym.Assert(err != nil, "no newer release is reported")
		sym.Assert(len(u.calls) == 1, "nothing is done without a newer release")
		sym.Cover("nothing newer")
		return
	}
	sym.Assert(!u.dirty, "the temporary directory is empty when downloading begins")
	if a, i := u.find("replace"); i >= 0 {
		arc, ia := u.find("archive")
		sum, is := u.find("checksum")
		ex, ie := u.find("extract")
		va, iv := u.find("validate")
		sym.Assert(ia >= 0 && is >= 0 && ie >= 0 && iv >= 0, "nothing is replaced without download, extraction and validation")
		sym.Assert(ia < ie && is < iv && ie < iv && iv < i, "the steps come in order")
		sym.Assert(sym.And(arc.b == au, sum.b == cu), "archive and checksum are downloaded from that release")
		sym.Assert(ex.a == arc.a, "the archive that was downloaded is extracted")
		sym.Assert(va.b == sum.a, "the checksum that was downloaded is used")
		sym.Assert(va.a != arc.a && va.a != sum.a, "neither archive nor checksum is taken for the program")
		sym.Assert(va.a == a.a && strings.HasPrefix(va.a, ex.b+"/"), "the program that was extracted and validated is installed")
		sym.Cover("replacing")
	}
	if err == nil {
		sym.Assert(replaced, "success means that the program was replaced")
		sym.Assert(vm.Kind(domain.CacheDir) == vm.KindNone, "the temporary directory is removed after success")
		sym.Cover("success")
	} else {
		sym.Cover("failure")
	}
}

type cfg struct{ s *stub.All }

func (c cfg) GetConfig() *domain.Config   { return c.s.Config.GetConfig() }
func (c cfg) IsConfigAvailable() bool     { return true }
func (c cfg) SaveConfig(k *domain.Config) {}

// VerifReal: the real updater, one thing goes wrong at most.
func VerifReal() {
	bin := sym.Bytes("program", sym.Choose("size", 4)+1)
	old := []byte("old program")
	vm.SetExecutable("/bin/1pass")
	vm.WriteFileMode("/bin/1pass", old, 0755)
	vm.Mkdir("/tmp")
	sum := md5.Sum(bin)
	given := sum[:]
	rep := vm.Reply{Status: 200}
	arc, chk := rep, rep
	ver := "1.4.0"
	entry := "1pass"
	cut := 0
	wrong := sym.Choose("wrong", 17)
	if wrong == 1 {
		mask := sym.Bytes("mask", 16)
		nz := false
		g := make([]byte, 16)
		for i := range mask {
			nz = sym.Or(nz, mask[i] != 0)
			g[i] = given[i] ^ mask[i]
		}
		sym.Assume(nz)
		given = g
	}
	chk.Body = []byte(hex.EncodeToString(given) + "  1pass\n")
	switch wrong {
	case 2:
		ver = "1.3.1"
	case 3:
		arc.Err = vm.ErrFault
	case 4:
		chk.Err = vm.ErrFault
	case 5:
		cut = 2
	case 6:
		entry = "other"
	case 7:
		chk.Body = nil
	case 8:
		chk.Status, chk.Body = 404, []byte("Not Found")
	case 9:
		chk.ReadErr = vm.ErrFault
	case 11:
		chk.ReadErr = io.ErrUnexpectedEOF
	case 12:
		arc.ReadErr = io.ErrUnexpectedEOF
	case 13:
		arc.ReadErr = vm.ErrFault
	case 14:
		entry = "other" // and the checksum of the archive itself
	case 15:
		cut = vm.NoTrailer
	case 16:
		cut = vm.CutIn(1, 3)
	}
	arc.Body = vm.Archive([]vm.Entry{{Name: "README.md", Type: '0', Data: []byte("read me"), Mode: 0644}, {Name: entry, Type: '0', Data: bin, Mode: 0755}}, cut)
	if wrong == 14 {
		x := md5.Sum(arc.Body)
		chk.Body = []byte(hex.EncodeToString(x[:]) + "  1pass\n")
	}
	if wrong == 10 {
		arc.Status, arc.Body = 404, []byte("Not Found")
	}
	vm.SetHTTP(func(url string) vm.Reply {
		switch {
		case url == domain.GithubReleases:
			return vm.Reply{Status: 200, Body: []byte("[{\"tag_name\":\"" + ver + "\",\"body\":\"log\",\"assets\":[{\"name\":\"1pass.tar.gz\",\"browser_download_url\":\"http://h/a\"},{\"name\":\"checksum.md5\",\"browser_download_url\":\"http://h/c\"}]}]")}
		case url == "http://h/a":
			return arc
		case url == "http://h/c":
			return chk
		}
		return vm.Reply{Err: vm.ErrFault}
	})
	fault := 0
	if wrong == 0 {
		fault = sym.Choose("fault", 24)
	}
	n := 0
	replacing := false
	bad := ""
	vm.OnOp(func(op, path string) error {
		b, ok := vm.ReadFile("/bin/1pass")
		if !ok || !sym.Fork(string(b) == string(old)) && !replacing {
			bad = op
		}
		if op == "rename" {
			replacing = true
		}
		n++
		if n == fault {
			return vm.ErrFault
		}
		return nil
	})
	s := stub.New()
	var err error
	o := sym.Catch(func() {
		err = facade.NewDfltUpdateFacade("/cfg", cfg{s}, service.NewDfltUpdateService(github.NewGithubUpdater())).Update(func(int) {})
	})
	vm.OnOp(nil)
	sym.Assert(o.Kind == sym.Returned, "an update neither crashes nor ends the program"+o.Msg)
	sym.Assert(bad == "", "the installed program is not touched before it is replaced")
	b, ok := vm.ReadFile("/bin/1pass")
	sym.Assert(ok, "a program is installed")
	if wrong != 0 {
		sym.Assert(err != nil, "what goes wrong is reported")
		sym.Assert(sym.EqBytes(b, old), "the installed program stays when something goes wrong")
		sym.Cover("refused")
		return
	}
	if err == nil {
		sym.Assert(sym.EqBytes(b, bin), "the new program is installed")
		sym.Assert(vm.Kind(domain.CacheDir) == vm.KindNone, "the temporary directory is removed after success")
		sym.Cover("installed")
		return
	}
	sym.Assert(fault > 0, "an update without faults succeeds")
	sym.Assert(sym.Or(sym.EqBytes(b, old), sym.EqBytes(b, bin)), "the installed program is the old or the new one")
	sym.Cover("fault")
}
