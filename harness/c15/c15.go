// Package c15: vault validation accepts exactly directories holding a profile.
package c15

import (
	"github.com/mashmb/1pass/1pass-core/core/domain"
	"github.com/mashmb/1pass/1pass-core/core/service"
	"github.com/mashmb/1pass/1pass-core/port/out"
	frepo "github.com/mashmb/1pass/1pass-parse/repo/file"

	"verif/harness/opv"
	"verif/harness/sym"
	"verif/harness/vm"
)

// bound: the vault path is missing, a file, a directory, or a symbolic link to nothing, a file or a directory; likewise default/ and default/profile.js inside it; 8 spellings of the path (spaces, trailing slash, pattern characters, non-ASCII letters, nested); other files beside them; missing paths of 0..4 symbolic characters
// bound: profile files of 0..16 symbolic bytes and of 100 and 5000 bytes, with 8 permissions
// bound: beyond: directory permissions, unreadable disks, other file kinds

var paths = []string{"/v", "/v/", "/my vault.opvault", "/a/b/c.opvault", "/v[1]*?", "/Zażółć", "//v", "/a/../v"}

const (
	none = iota
	file
	dir
	linkNone
	linkFile
	linkDir
	kinds
)

type profiles struct {
	out.ProfileRepo
	loads int
}

func (p *profiles) LoadProfile(v *domain.Vault) { p.loads++ }

// put creates path as one of the kinds and returns where the directory really is ("" if there is none).
func put(path string, kind int, content []byte, n string) string {
	switch kind {
	case file:
		vm.WriteFile(path, content)
	case dir:
		vm.Mkdir(path)
		return path
	case linkNone:
		vm.Symlink("/nowhere"+n, path)
	case linkFile:
		vm.WriteFile("/real"+n, content)
		vm.Symlink("/real"+n, path)
	case linkDir:
		vm.Mkdir("/realdir" + n)
		vm.Symlink("/realdir"+n, path)
		return "/realdir" + n
	}
	return ""
}

// VerifStructure: every combination of kinds.
func VerifStructure() {
	p := paths[sym.Choose("path", len(paths))]
	clean := map[string]string{"/v/": "/v", "//v": "/v", "/a/../v": "/v"}[p]
	if clean == "" {
		clean = p
	}
	vm.Mkdir("/a/b")
	top := sym.Choose("top", kinds)
	d := put(clean, top, []byte("var profile={};"), "1")
	mid, prof := none, none
	if d != "" {
		vm.WriteFile(d+"/other.js", []byte("x"))
		mid = sym.Choose("default", kinds)
		d2 := put(d+"/default", mid, []byte("var profile={};"), "2")
		if d2 != "" {
			vm.WriteFile(d2+"/band_0.js", []byte("ld({});"))
			vm.WriteFile(d2+"/folders.js", []byte("loadFolders({});"))
			prof = sym.Choose("profile", kinds)
			put(d2+"/profile.js", prof, []byte("var profile={\"salt\":\"U0FMVA==\",\"iterations\":7,\"masterKey\":\"TUFTVEVS\",\"overviewKey\":\"T1ZFUg==\"};"), "3")
		}
	}
	good := (top == dir || top == linkDir) && (mid == dir || mid == linkDir) && (prof == file || prof == linkFile)
	a := opv.NewApp("/cfg")
	changes := 0
	vm.OnOp(func(op, path string) error {
		changes++
		return nil
	})
	var err error
	o := sym.Catch(func() { err = a.Vaults.Validate(domain.NewVault(p)) })
	vm.OnOp(nil)
	sym.Assert(o.Kind == sym.Returned, "validation neither crashes nor ends the program")
	sym.Assert(changes == 0, "validation changes nothing")
	sym.Assert((err == nil) == good, "exactly directories with a profile are accepted")
	if good {
		k, m, err := a.Keys.DerivedKeys("pw")
		wk, wm := opv.Derive("pw", []byte("SALT"), 7)
		sym.Assert(err == nil && sym.EqBytes(k, wk) && sym.EqBytes(m, wm), "the profile of this vault is loaded")
		sym.Cover("accepted")
		return
	}
	pr := &profiles{}
	svc := service.NewDfltVaultService(frepo.NewFileItemRepo(), pr)
	sym.Assert(svc.ValidateVault(domain.NewVault(p)) != nil && pr.loads == 0, "no profile is read from an invalid vault")
	sym.Assert(vm.Has(err.Error(), clean) || vm.Has(err.Error(), p), "the error names the place")
	sym.Cover("refused")
}

// VerifAnyProfile: what stands in the profile file, and whose permissions it has, is no matter of validation.
func VerifAnyProfile() {
	n := []int{0, 1, 2, 11, 12, 13, 14, 16, 100, 5000}[sym.Choose("size", 10)]
	mode := []int{0644, 0600, 0400, 0444, 0200, 0000, 0755, 0777}[sym.Choose("mode", 8)]
	data := make([]byte, n)
	if n <= 16 {
		data = sym.Bytes("content", n)
	}
	vm.Mkdir("/v/default")
	vm.WriteFileMode("/v/default/profile.js", data, mode)
	pr := &profiles{}
	svc := service.NewDfltVaultService(frepo.NewFileItemRepo(), pr)
	err := svc.ValidateVault(domain.NewVault("/v"))
	sym.Assert(err == nil, "a directory with a profile file is accepted")
	sym.Assert(pr.loads == 1, "its profile is loaded")
	sym.Cover("any profile")
}

// VerifMissing: paths that do not exist.
func VerifMissing() {
	n := sym.Choose("len", 5)
	p := sym.Text("path", n)
	for i := range p {
		sym.Assume(p[i] != '/' && p[i] != '.')
	}
	if n > 0 && sym.Bool("absolute") {
		p = "/" + p
	}
	a := opv.NewApp("/cfg")
	var err error
	o := sym.Catch(func() { err = a.Vaults.Validate(domain.NewVault(p)) })
	sym.Assert(o.Kind == sym.Returned, "validation neither crashes nor ends the program")
	sym.Assert(err != nil, "a missing path is refused")
	sym.Assert(vm.Has(err.Error(), p), "the error names the path")
	sym.Assert(!a.Vaults.IsUnlocked(), "nothing is unlocked")
	sym.Cover("missing")
}
