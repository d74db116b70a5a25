// Package c23: checksum validation accepts exactly the matching binary.
package c23

import (
	"crypto/md5"
	"encoding/hex"
	"strings"

	"github.com/mashmb/1pass/1pass-up/component/github"

	"verif/harness/opv"
	"verif/harness/sym"
	"verif/harness/vm"
)

// bound: binaries of 0..6 symbolic bytes, of 512..513 and 32768 bytes with symbolic first and last bytes; one of 3 MiB with one byte changed at 5 places; sums with leading or trailing zeros; checksum files whose first word is the sum, any other 16 byte sum, any cut of the sum, the sum with up to 3 symbolic characters more, or any 1..32 symbolic characters, in 9 surroundings (names, lines, blanks before and after); missing, empty and blank files, directories
// assume: MD5 is an uninterpreted function in symbolic runs (different binaries may or may not have equal sums)
// bound: beyond: sums in capital letters

const bin, sum = "/tmp/1pass/1pass", "/tmp/1pass/checksum.md5"

func validate() bool {
	var err error
	o := sym.Catch(func() { err = github.NewGithubUpdater().ValidateChecksum(bin, sum) })
	sym.Assert(o.Kind == sym.Returned, "validation neither crashes nor ends the program")
	return err == nil
}

func digest(b []byte) []byte {
	m := md5.Sum(b)
	return m[:]
}

var around = []string{"@", "@\n", "@  1pass\n", "@ *1pass\n", " @ 1pass", "\n\t@\t1pass\r\n", "@\r\n", "@  1pass\n00000000000000000000000000000000  other\n", "@ d41d8cd98f00b204e9800998ecf8427e\n"}

func write(word string) {
	vm.WriteFile(sum, []byte(strings.Replace(around[sym.Choose("format", len(around))], "@", word, 1)))
}

func binary() []byte {
	k := sym.Choose("size", 10)
	var b []byte
	if k < 7 {
		b = sym.Bytes("binary", k)
	} else {
		b = make([]byte, []int{512, 513, 32768}[k-7])
		copy(b, sym.Bytes("binary", 2))
		copy(b[len(b)-1:], sym.Bytes("last", 1))
	}
	vm.WriteFile(bin, b)
	return b
}

// VerifSum: the sum or another one.
func VerifSum() {
	b := binary()
	mask := sym.Bytes("mask", 16)
	write(hex.EncodeToString(opv.Xor(digest(b), mask)))
	sym.Assert(validate() == sym.Not(opv.NonZero(mask)), "exactly the right sum is accepted")
	sym.Cover("sum")
}

// VerifOther: the sum of another binary of the same or another size.
func VerifOther() {
	b := binary()
	other := sym.Bytes("other", sym.Choose("other size", 7))
	want := sym.EqBytes(digest(b), digest(other))
	vm.WriteFile(sum, []byte(hex.EncodeToString(digest(other))+"  1pass\n"))
	sym.Assert(validate() == want, "the sum of another binary is refused")
	sym.Cover("other")
}

// zeros end binaries whose sums begin or end with zeros (found by search).
var zeros = []string{"19", "31", "119", "2683"}

// VerifZeros: sums that begin or end with zeros are no exception.
func VerifZeros() {
	b := []byte("1pass " + zeros[sym.Choose("binary", len(zeros))])
	vm.WriteFile(bin, b)
	h := hex.EncodeToString(digest(b))
	k := sym.Choose("kind", 6)
	switch k {
	case 0:
		write(h)
	case 1:
		write(strings.TrimLeft(h, "0"))
	case 2:
		write(strings.TrimRight(h, "0"))
	case 3:
		write("0" + h)
	case 4:
		write(h + "0")
	case 5:
		write(h[:31])
	}
	trimmed := k == 1 && h[0] != '0' || k == 2 && h[31] != '0'
	sym.Assert(validate() == (k == 0 || trimmed), "exactly the whole sum is accepted")
	sym.Cover("zeros")
}

// VerifLong: every part of a large binary counts.
func VerifLong() {
	n := 3<<20 + 17
	b := make([]byte, n)
	h := hex.EncodeToString(digest(b))
	at := []int{-1, 0, 1<<20 - 1, 1 << 20, 2<<20 + 5, n - 1}[sym.Choose("at", 6)]
	if at >= 0 {
		b[at] = 1
	}
	vm.WriteFile(bin, b)
	write(h)
	sym.Assert(validate() == (at < 0), "exactly the right sum is accepted")
	sym.Cover("long")
}

// VerifCut: parts of the sum, and the sum with something added.
func VerifCut() {
	b := sym.Bytes("binary", 3)
	vm.WriteFile(bin, b)
	h := hex.EncodeToString(digest(b))
	k := sym.Choose("cut", 3)
	switch k {
	case 0:
		n := sym.Choose("length", 32)
		if n > 0 {
			write(h[:n])
		} else {
			vm.WriteFile(sum, nil)
		}
	case 1:
		write(h[1+sym.Choose("from", 31):])
	case 2:
		x := sym.Text("more", 1+sym.Choose("length", 3))
		sym.Assume(x[0] != ' ')
		write(h + x)
	}
	sym.Assert(!validate(), "anything but the whole sum is refused")
	sym.Cover("cut")
}

// VerifSecond: the sum stands in the file, but not first.
func VerifSecond() {
	b := sym.Bytes("binary", 3)
	vm.WriteFile(bin, b)
	h := hex.EncodeToString(digest(b))
	x := sym.Text("first", 1+sym.Choose("length", 3))
	sym.Assume(x[0] != ' ')
	vm.WriteFile(sum, []byte(x+[]string{" ", "\n", "  1pass\n"}[sym.Choose("between", 3)]+h+"\n"))
	sym.Assert(!validate(), "only the first word counts")
	sym.Cover("second")
}

// VerifMissing: unreadable and blank files.
func VerifMissing() {
	k := sym.Choose("kind", 8)
	b := sym.Bytes("binary", 3)
	h := hex.EncodeToString(digest(b))
	switch k {
	case 0:
		vm.WriteFile(bin, b)
	case 1:
		vm.WriteFile(sum, []byte(h))
	case 2:
		vm.Mkdir(bin)
		vm.WriteFile(sum, []byte(h))
	case 3:
		vm.Mkdir(sum)
		vm.WriteFile(bin, b)
	default:
		vm.WriteFile(bin, b)
		vm.WriteFile(sum, []byte([]string{"", " ", "\n\n", "\t \r\n"}[k-4]))
	}
	sym.Assert(!validate(), "a missing or empty file is an error")
	sym.Cover("missing")
}
