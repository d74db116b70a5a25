// Package c21: exactly the releases with a greater version are offered.
package c21

import (
	"strconv"
	"strings"

	"github.com/mashmb/1pass/1pass-core/core/domain"
	"github.com/mashmb/1pass/1pass-up/component/github"

	"verif/harness/opv"
	"verif/harness/sym"
	"verif/harness/vm"
)

// bound: versions of 1..4 (thorough: 5) numeric components, each any number of 1 or 2 digits (one of them up to 9 digits), leading zeros or not, compared with the running version; up to 20 more components than the running version, one component of up to 11 digits or 6 fixed larger values up to 2^63; 26 fixed odd version texts; change logs, addresses and names with 3 symbolic printable characters, escaped characters in the change log; 0..5 assets in 17 orders of kinds, up to 3 listed releases; 33 fixed malformed or incomplete answers, a good answer cut anywhere
// bound: change logs of 5001 and 70001 characters, blanks around change logs; up to 152 assets, addresses of 709 characters
// bound: beyond: components over 2^64, asset names with both endings

type release struct {
	tag, body string
	assets    []string
	more      string
}

func (r release) json() string {
	return `{"id":1,"tag_name":"` + r.tag + `","name":"99.1.0","draft":false,` + r.more + `"assets":[` + strings.Join(r.assets, ",") + `],"body":"` + r.body + `"}`
}

func asset(name, url string) string {
	more := []string{`"size":12,"state":"uploaded","download_count":3`, `"size":0,"state":"starter","label":"","download_count":0`}[len(url)%2]
	return `{"url":"http://wrong/","id":7,"name":"` + name + `",` + more + `,"browser_download_url":"` + url + `"}`
}

func ask(body string) (info *domain.UpdateInfo, err error) {
	vm.SetHTTP(func(url string) vm.Reply {
		sym.Assert(url == domain.GithubReleases, "the release list is asked")
		return vm.Reply{Status: 200, Body: []byte(body)}
	})
	o := sym.Catch(func() { info, err = github.NewGithubUpdater().CheckForUpdate(1) })
	sym.Assert(o.Kind == sym.Returned, "no answer crashes the program")
	sym.Assert(len(vm.Requests()) == 1, "the server is asked once")
	return
}

func number(name string, digits int) int {
	lo, hi := 1, 10
	for i := 1; i < digits; i++ {
		lo, hi = lo*10, hi*10
	}
	if digits == 1 {
		lo = 0
	}
	return sym.Int(name, lo, hi-1)
}

func current() []int {
	var c []int
	for _, p := range strings.Split(domain.Version, ".") {
		n, _ := strconv.Atoi(p)
		c = append(c, n)
	}
	return c
}

// greater compares component-wise, without forking.
func greater(a, b []int) bool {
	gt, eq := false, true
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := 0, 0
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		gt = sym.Or(gt, sym.And(eq, x > y))
		eq = sym.And(eq, x == y)
	}
	return gt
}

// VerifVersions: every numeric version.
func VerifVersions() {
	max := 4
	if sym.Thorough() {
		max = 5
	}
	k := 1 + sym.Choose("components", max)
	var nums []int
	var parts []string
	for i := 0; i < k; i++ {
		n := number("part", 1+sym.Choose("digits", 2))
		nums = append(nums, n)
		parts = append(parts, strconv.Itoa(n))
	}
	text := strings.Join(parts, ".")
	info, err := ask("[" + release{tag: text, body: "log", assets: []string{asset("1pass.tar.gz", "http://a"), asset("1pass.md5", "http://c")}}.json() + "]")
	sym.Assert(err == nil && info != nil, "a proper answer is understood")
	sym.Assert(info.Newer == greater(nums, current()), "newer means a greater version")
	sym.Assert(info.Version == text, "the version text is the release's")
	sym.Cover("compared")
}

// VerifLarge: one large component, leading zeros.
func VerifLarge() {
	cur := current()
	nums := append([]int{}, cur...)
	at := sym.Choose("at", len(cur)+1)
	if at == len(cur) {
		nums = append(nums, 0)
	}
	d := 3 + sym.Choose("digits", 7)
	n := number("part", d)
	nums[at] = n
	zeros := sym.Choose("zeros", 3)
	zat := sym.Choose("zeros at", len(nums))
	var parts []string
	for i, x := range nums {
		s := strconv.Itoa(x)
		if i == zat {
			s = strings.Repeat("0", zeros) + s
		}
		parts = append(parts, s)
	}
	text := strings.Join(parts, ".")
	info, err := ask("[" + release{tag: text, body: "log", assets: nil}.json() + "]")
	sym.Assert(err == nil && info != nil, "a proper answer is understood")
	sym.Assert(info.Newer == greater(nums, cur), "newer means a greater version")
	sym.Assert(info.Version == text, "the version text is the release's")
	sym.Cover("compared")
}

// VerifComponents: many components, components of up to 19 digits; one place differs from the
// running version.
func VerifComponents() {
	cur := current()
	more := []int{0, 1, 2, 3, 5, 9, 20}[sym.Choose("more", 7)]
	nums := append(append([]int{}, cur...), make([]int, more)...)
	at := sym.Choose("at", len(nums))
	if d := []int{1, 2, 9, 10, 11, 18}[sym.Choose("digits", 6)]; d < 18 {
		nums[at] = number("part", d)
	} else {
		nums[at] = []int{4294967295, 4294967296, 4294967297, 18446744073709551, 1000000000000000000, 9223372036854775807}[sym.Choose("large", 6)]
	}
	var parts []string
	for _, x := range nums {
		parts = append(parts, strconv.Itoa(x))
	}
	text := strings.Join(parts, ".")
	info, err := ask("[" + release{tag: text, body: "log", assets: nil}.json() + "]")
	sym.Assert(err == nil && info != nil, "a proper answer is understood")
	sym.Assert(info.Newer == greater(nums, cur), "newer means a greater version")
	sym.Assert(info.Version == text, "the version text is the release's")
	sym.Cover("compared")
}

// VerifOdd: version texts that are not dotted numbers.
func VerifOdd() {
	odd := []string{"", ".", "..", "v9.9.9", "9.9.9-beta", "9.9.x", "x", "9,9,9", "9..9", "9.9.", ".9.9", " 9.9.9", "9.9.9 ", "9.9.9\\n", "+9.9.9", "-9.9.9", "9.-9.9", "0x9.9.9", "9e9", "latest", "9.9.9.b", "1_0.0.0", "\\u0039a.9.9", "９.9.9", "9.9.9+1", "9.9/9"}
	k := sym.Choose("text", len(odd))
	info, err := ask("[" + release{tag: odd[k], body: "log"}.json() + "]")
	sym.Assert(err != nil || info == nil || sym.Not(info.Newer), "only a numeric version is newer")
	sym.Cover("odd")
}

// VerifFields: the first release's own texts and addresses.
func VerifFields() {
	log, au, cu := sym.Text("log", 3), "http://x/"+sym.Text("archive url", 3), "http://x/"+sym.Text("checksum url", 3)
	r := release{tag: "9.0." + strconv.Itoa(number("part", 1+sym.Choose("digits", 2))), body: "a" + log + "\\n\\\"b\\u00e9"}
	logText := "a" + log + "\n\"bé"
	switch sym.Choose("log", 4) {
	case 1:
		r.body, logText = "\\n  "+r.body+" \\t\\r\\n", "\n  "+logText+" \t\r\n"
	case 2:
		r.body, logText = "", ""
	case 3:
		r.body, logText = " "+log, " "+log
	}
	others := []string{"1pass.deb", "1pass.tar", "md5.txt", "1pass.zip"}
	r.more = []string{"", `"prerelease":true,`, `"prerelease":false,"draft":true,`}[sym.Choose("flags", 3)]
	orders := []string{"", "a", "c", "ac", "ca", "o", "ao", "oa", "co", "oc", "aco", "aoc", "cao", "coa", "oac", "oca", "oaoco"}
	order := orders[sym.Choose("assets", len(orders))]
	hasA, hasC := false, false
	for _, k := range order {
		switch k {
		case 'a':
			hasA = true
			r.assets = append(r.assets, asset("1pass-9.0.tar.gz", au))
		case 'c':
			hasC = true
			r.assets = append(r.assets, asset("checksum.md5", cu))
		default:
			r.assets = append(r.assets, asset(others[sym.Choose("other", len(others))], "http://other/"))
		}
	}
	body := r.json()
	for _, tag := range []string{"0.1", "99.9.9"}[:sym.Choose("more", 3)] {
		body += "," + release{tag: tag, body: "other", assets: []string{asset("x.tar.gz", "http://second/a"), asset("x.md5", "http://second/c")}}.json()
	}
	info, err := ask("[" + body + "]")
	sym.Assert(err == nil && info != nil, "a proper answer is understood")
	sym.Assert(info.Newer && info.Version == r.tag, "the first release is the one offered")
	sym.Assert(info.Changelog == logText, "the change log is the release's")
	wantA, wantC := "", ""
	if hasA {
		wantA = au
	}
	if hasC {
		wantC = cu
	}
	sym.Assert(info.ArchiveUrl == wantA, "the archive address is the release's")
	sym.Assert(info.ChecksumUrl == wantC, "the checksum address is the release's")
	sym.Cover("fields")
}

// VerifOlder: an older first release is not newer whatever follows.
func VerifOlder() {
	n := sym.Int("part", 0, 9)
	first := release{tag: "0." + strconv.Itoa(n) + ".9", body: "first"}
	second := release{tag: "9.9.9", body: "second"}
	info, err := ask("[" + first.json() + "," + second.json() + "]")
	sym.Assert(err == nil && info != nil && !info.Newer && info.Changelog == "first", "only the first listed release counts")
	sym.Cover("older")
}

// VerifMalformed: malformed or incomplete answers.
func VerifMalformed() {
	bodies := []string{"", " ", "[]", "[ ]", "[null]", "null", "{}", "[{}]", "[[]]", "[1]", "[\"9.9.9\"]", "[true]", "true", "1", "\"x\"", "[", "[{", "[{\"tag_name\":", "[{\"tag_name\":\"9.9.9\"", "[{\"tag_name\":\"9.9.9\"}", "[{\"tag_name\":9}]", "[{\"tag_name\":null,\"body\":null,\"assets\":null}]", "[{\"tag_name\":[],\"body\":{},\"assets\":[]}]", "[{\"assets\":[null,1,\"x\",[],{},{\"name\":1},{\"name\":\"a.tar.gz\"},{\"name\":\"a.md5\",\"browser_download_url\":7}]}]", "[{\"assets\":{}}]", "{\"message\":\"API rate limit exceeded\"}", "<html></html>", "[{\"tag_name\":\"9.9.9\",\"assets\":[]}],", "[null,{\"tag_name\":\"9.9.9\",\"body\":\"x\",\"assets\":[]}]", "[{},{\"tag_name\":\"9.9.9\",\"body\":\"x\",\"assets\":[]}]", "[{\"tag_name\":\"x\"},{\"tag_name\":\"9.9.9\",\"body\":\"x\",\"assets\":[]}]", "\x00\xff", "[\"\x80\"]"}
	k := sym.Choose("body", len(bodies))
	info, err := ask(bodies[k])
	sym.Assert(err != nil || info == nil || sym.Not(info.Newer), "a malformed answer offers nothing")
	sym.Cover("malformed")
}

// VerifFailure: failing requests and interrupted answers.
func VerifFailure() {
	good := "[" + release{tag: "9.9.9", body: "log"}.json() + "]"
	k := sym.Choose("kind", 3)
	vm.SetHTTP(func(url string) vm.Reply {
		switch k {
		case 0:
			return vm.Reply{Err: vm.ErrFault}
		case 1:
			return vm.Reply{Status: 200, Body: []byte(good), ReadErr: vm.ErrFault}
		}
		return vm.Reply{Status: 200, Body: []byte(good[:sym.Choose("cut", len(good))])}
	})
	var info *domain.UpdateInfo
	var err error
	o := sym.Catch(func() { info, err = github.NewGithubUpdater().CheckForUpdate(1) })
	sym.Assert(o.Kind == sym.Returned, "no failure crashes the program")
	sym.Assert(err != nil && info == nil, "a failed or interrupted request is an error")
	sym.Cover("failure")
}

// VerifBig: long answers.
func VerifBig() {
	log := opv.Long([]int{5000, 70000}[sym.Choose("log", 2)]) + sym.In("end", 1, 'A', 'Z')
	r := release{tag: "9.9.9", body: log}
	n := []int{3, 40, 150}[sym.Choose("assets", 3)]
	for i := 0; i < n; i++ {
		r.assets = append(r.assets, asset("1pass_"+strconv.Itoa(i)+".deb", "http://other/"+strconv.Itoa(i)))
	}
	at := []int{0, n / 2, n}[sym.Choose("at", 3)]
	r.assets = append(append(append([]string{}, r.assets[:at]...), asset("1pass.tar.gz", "http://h/"+opv.Long(600)), asset("checksum.md5", "http://h/"+opv.Long(700))), r.assets[at:]...)
	info, err := ask("[" + r.json() + "," + release{tag: "1.0.0", body: "x"}.json() + "]")
	sym.Assert(err == nil && info != nil && info.Newer && info.Version == "9.9.9", "a long answer is understood")
	sym.Assert(info.Changelog == log, "the change log is the release's")
	sym.Assert(info.ArchiveUrl == "http://h/"+opv.Long(600) && info.ChecksumUrl == "http://h/"+opv.Long(700), "the addresses are the release's")
	sym.Cover("big")
}
