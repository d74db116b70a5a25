// Package c22: extracting an archive writes only inside the destination, faithfully.
package c22

import (
	"archive/tar"
	"path/filepath"
	"strings"

	"github.com/mashmb/1pass/1pass-up/component/github"

	"verif/harness/sym"
	"verif/harness/vm"
)

// bound: archives of 0..3 entries; entry names: every sequence of up to 4 (thorough: 5) of the parts "..", ".", "", "a", "1pass", "sub", relative or absolute, with or without a trailing slash, further odd names, and every name of 1..2 (thorough: 3) symbolic characters of the set "./a-~"; entries of 7 types; contents of 0..4 symbolic bytes and of 40000 bytes, one of 70000 and 300000 bytes with symbolic ends; archives broken off at 5 places inside any entry, before any header or before the archive's checksum, a changed content byte under the old archive checksum, empty, cut or foreign archive files; one failing file system operation at any point
// bound: beyond: symbolic links already in the destination (the cache directory is made anew), sparse files, several gzip members
// assume: gzip and tar decoding are those of the standard library (modelled as delivering the entries in symbolic runs)

const dst, arc = "/tmp/1pass", "/tmp/1pass/1pass.tar.gz"

var watched = map[string]string{
	"/etc/passwd":  "root",
	"/tmp/a":       "outside",
	"/tmp/1passx":  "outside",
	"/a":           "outside",
	"/1pass":       "outside",
	"/home/u/x":    "outside",
	"/tmp/sub/a":   "outside",
	"/sub/1pass":   "outside",
	"/tmp/1pass-a": "outside",
}

func setup() {
	for p, c := range watched {
		vm.WriteFile(p, []byte(c))
	}
	vm.Mkdir(dst)
}

func extract() (ok bool) {
	var err error
	before := vm.Paths()
	o := sym.Catch(func() { err = github.NewGithubUpdater().ExtractArchive(arc, dst) })
	sym.Assert(o.Kind == sym.Returned, "extraction neither crashes nor ends the program")
	known := map[string]bool{}
	for _, p := range before {
		known[p] = true
	}
	for _, p := range vm.Paths() {
		sym.Assert(known[p] || strings.HasPrefix(p, dst+"/"), "nothing is created outside of the destination: "+p)
	}
	for p, c := range watched {
		b, there := vm.ReadFile(p)
		sym.Assert(there && string(b) == c, "nothing outside of the destination is changed: "+p)
	}
	return err == nil
}

func inside(name string) (string, bool) {
	t := filepath.Join(dst, name)
	return t, strings.HasPrefix(t, dst+"/")
}

// VerifNames: every entry name.
func VerifNames() {
	setup()
	parts := []string{"..", "a", "1pass", ".", "", "sub"}
	max := 4
	if sym.Thorough() {
		max = 5
	}
	n := 1 + sym.Choose("parts", max)
	var name []string
	for i := 0; i < n; i++ {
		k := 6
		if n >= 4 {
			k = 3
		}
		name = append(name, parts[sym.Choose("part", k)])
	}
	s := strings.Join(name, "/")
	if sym.Bool("absolute") {
		s = "/" + s
	}
	one(s)
	sym.Cover("names")
}

func one(name string) {
	data := sym.Bytes("data", 2)
	typ := byte(tar.TypeReg)
	if strings.HasSuffix(name, "/") || name == "" {
		typ = tar.TypeDir
	}
	vm.WriteFile(arc, vm.Archive([]vm.Entry{{Name: name, Type: typ, Data: data, Mode: 0644}, {Name: "1pass", Type: tar.TypeReg, Data: []byte("program"), Mode: 0755}}, 0))
	t, in := inside(name)
	if extract() {
		p, there := vm.ReadFile(dst + "/1pass")
		sym.Assert(there && string(p) == "program", "the program is extracted")
		if in && typ == tar.TypeReg && t != dst+"/1pass" {
			b, there := vm.ReadFile(t)
			sym.Assert(there && sym.EqBytes(b, data), "an accepted file has the archived bytes")
		}
	} else {
		sym.Assert(!(in && typ == tar.TypeReg && filepath.Dir(t) == dst), "a plain file name is accepted")
	}
}

// VerifOdd: odd names.
func VerifOdd() {
	setup()
	odd := []string{"...", "..a", "a..", "../1passx", "../1pass", "../1pass/../a", "../1pass-a", "a/../../a", "./../a", "//a", "//../a", "/../../a", "....//a", "..\\a", "..//a", "sub/../1pass/../../a", "../1pass/b", "~/a", "C:\\a", "..;/a", "%2e%2e/a", "../../../../../../../../etc/passwd", "../../home/u/x", "./b", "b/.", "-", "a b", "ä"}
	one(odd[sym.Choose("name", len(odd))])
	sym.Cover("odd")
}

// VerifShort: every short name.
func VerifShort() {
	setup()
	max := 2
	if sym.Thorough() {
		max = 3
	}
	b := sym.Bytes("name", 1+sym.Choose("length", max))
	set := "./a-~"
	var name []byte
	for i := range b {
		// one of the set, decided here
		k := -1
		for j := range set {
			if sym.Fork(b[i] == set[j]) {
				k = j
				break
			}
		}
		sym.Assume(k >= 0)
		name = append(name, set[k])
	}
	one(string(name))
	sym.Cover("short")
}

// VerifTypes: entries that are not regular files never change anything outside.
func VerifTypes() {
	setup()
	types := []byte{tar.TypeDir, tar.TypeSymlink, tar.TypeLink, tar.TypeChar, tar.TypeBlock, tar.TypeFifo}
	names := []string{"x", "../x", "/etc/x", "sub"}
	links := []string{"/etc/passwd", "../a", "..", "/home/u"}
	e := vm.Entry{Name: names[sym.Choose("name", len(names))], Type: types[sym.Choose("type", len(types))], Link: links[sym.Choose("link", len(links))], Mode: 0777}
	via := e.Name + []string{"", "/x", "/a"}[sym.Choose("via", 3)]
	vm.WriteFile(arc, vm.Archive([]vm.Entry{e, {Name: via, Type: tar.TypeReg, Data: []byte("changed"), Mode: 0644}}, 0))
	if extract() {
		t, in := inside(via)
		if in {
			b, there := vm.ReadFile(t)
			sym.Assert(there && string(b) == "changed", "an accepted file has the archived bytes")
		}
		sym.Cover("accepted")
	} else {
		sym.Cover("refused")
	}
}

// VerifContent: contents of several files.
func VerifContent() {
	setup()
	if sym.Bool("old") {
		vm.WriteFile(dst+"/1pass", []byte("an older and longer program"))
	}
	n := sym.Choose("entries", 4)
	names := []string{"1pass", "README", "a.b", "1pass"}
	var es []vm.Entry
	want := map[string][]byte{}
	for i := 0; i < n; i++ {
		k := sym.Choose("size", 4)
		var d []byte
		if k == 3 {
			d = make([]byte, 40000)
			copy(d, sym.Bytes("head", 1))
			copy(d[len(d)-1:], sym.Bytes("tail", 1))
		} else {
			d = sym.Bytes("data", []int{0, 1, 4}[k])
		}
		name := names[i]
		if i == 2 && sym.Bool("same") {
			name = names[3]
		}
		es = append(es, vm.Entry{Name: name, Type: tar.TypeReg, Data: d, Mode: 0644})
		want[name] = d
	}
	vm.WriteFile(arc, vm.Archive(es, 0))
	sym.Assert(extract(), "a good archive is extracted")
	for name, d := range want {
		b, there := vm.ReadFile(dst + "/" + name)
		sym.Assert(there && sym.EqBytes(b, d), "every file has exactly the archived bytes")
	}
	sym.Cover("content")
}

// VerifDamaged: broken archives.
func VerifDamaged() {
	setup()
	d := sym.Bytes("data", 4)
	good := []vm.Entry{{Name: "README", Type: tar.TypeReg, Data: d, Mode: 0644}, {Name: "1pass", Type: tar.TypeReg, Data: d, Mode: 0755}, {Name: "last", Type: tar.TypeReg, Data: d, Mode: 0755}}
	switch k := sym.Choose("kind", 30); {
	case k >= 15:
		vm.WriteFile(arc, vm.Archive(good, vm.CutIn((k-15)%3, (k-15)/3)))
	case k >= 7 && k < 11:
		vm.WriteFile(arc, vm.Archive(good, vm.CutBefore(k-7)))
	case k >= 11 && k < 14:
		vm.WriteFile(arc, vm.Archive(good, vm.Flip(k-11)))
	case k == 14:
		vm.WriteFile(arc, vm.Archive(good, vm.NoTrailer))
	case k < 3:
		vm.WriteFile(arc, vm.Archive(good, k+1))
	case k == 3:
		vm.WriteFile(arc, nil)
	case k == 4:
		vm.WriteFile(arc, []byte("<html>not found</html>"))
	case k == 5:
		vm.Mkdir(arc)
	}
	sym.Assert(!extract(), "a damaged archive is an error")
	sym.Cover("damaged")
}

// VerifFault: a failing write is an error.
func VerifFault() {
	setup()
	d := sym.Bytes("data", 4)
	vm.WriteFile(arc, vm.Archive([]vm.Entry{{Name: "README", Type: tar.TypeReg, Data: d, Mode: 0644}, {Name: "1pass", Type: tar.TypeReg, Data: d, Mode: 0755}}, 0))
	fault := 1 + sym.Choose("fault", 6)
	n := 0
	vm.OnOp(func(op, path string) error {
		n++
		if n == fault {
			return vm.ErrFault
		}
		return nil
	})
	ok := extract()
	vm.OnOp(nil)
	if ok {
		b, there := vm.ReadFile(dst + "/1pass")
		sym.Assert(there && sym.EqBytes(b, d), "success means complete files")
		c, there := vm.ReadFile(dst + "/README")
		sym.Assert(there && sym.EqBytes(c, d), "success means complete files")
		sym.Cover("good")
	} else {
		sym.Cover("failed")
	}
}

// VerifBig: a program of a usual size.
func VerifBig() {
	setup()
	d := make([]byte, []int{70000, 300000}[sym.Choose("size", 2)])
	copy(d, sym.Bytes("head", 1))
	copy(d[len(d)/2:], sym.Bytes("middle", 1))
	copy(d[len(d)-1:], sym.Bytes("tail", 1))
	vm.WriteFile(arc, vm.Archive([]vm.Entry{{Name: "README", Type: tar.TypeReg, Data: d[:100], Mode: 0644}, {Name: "1pass", Type: tar.TypeReg, Data: d, Mode: 0755}}, 0))
	sym.Assert(extract(), "a good archive is extracted")
	b, there := vm.ReadFile(dst + "/1pass")
	sym.Assert(there && sym.EqBytes(b, d), "every file has exactly the archived bytes")
	sym.Cover("big")
}
