// Package c28: typed field values are rendered faithfully.
package c28

import (
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/mashmb/1pass/1pass-core/core/domain"

	"verif/harness/opv"
	"verif/harness/sym"
	"verif/harness/vm"
)

// bound: dates: every Unix time of 1..10 digits, positive or negative, and 12 fixed ones; month/years: every two digits as the month of the years 1000..9999; addresses: 0..6 of the usual parts, texts of 0..2 symbolic printable characters, with line breaks, blanks around, empty, 12 further names of parts, 15 texts with inner blanks and other special characters in 8 parts; other types: 20 names of types, texts of up to 3 symbolic characters and 9 fixed texts that look like dates, numbers or addresses; type names in other letter case; two fields of different types in one section
// bound: texts of 50, 300, 1100 and 5000 fixed characters with 2 symbolic ones, plain and in addresses, addresses of 40 parts, an address between long values
// bound: beyond: values whose JSON type does not fit the field's type, parts of addresses that are not texts
// assume: time.Format of symbolic times is an uninterpreted function of time, layout and zone; the local zone is 2:30 hours ahead of UTC

func q(s string) string { return "\"" + s + "\"" }

func load(fields string) *domain.Item {
	v := opv.NewVault("/v", "pw")
	v.WriteProfile()
	v.WriteBand("band_3.js", &opv.Item{Uid: "AA", Category: "004", Overview: "{\"title\":\"t\"}", Details: "{\"sections\":[{\"name\":\"n\",\"title\":\"s\",\"fields\":[" + fields + "]}]}"})
	a := opv.NewApp("/cfg")
	vlt := domain.NewVault("/v")
	sym.Assert(a.Vaults.Validate(vlt) == nil, "the vault is valid")
	o := sym.Catch(func() {
		sym.Assert(a.Vaults.Unlock(vlt, "pw") == nil, "the vault unlocks")
	})
	sym.Assert(o.Kind == sym.Returned, "decoding does not crash")
	i := a.Vaults.GetItem("AA", false)
	sym.Assert(i != nil && len(i.Sections) == 1, "the item is there")
	return i
}

// shown decodes one field between two others and gives its text.
func shown(kind, value string) string {
	i := load("{\"k\":\"string\",\"n\":\"x\",\"t\":\"before\",\"v\":\"b\"},{\"k\":" + q(kind) + ",\"n\":\"x\",\"t\":\"it\",\"v\":" + value + "},{\"k\":\"string\",\"n\":\"x\",\"t\":\"after\",\"v\":\"a\"}")
	f := i.Sections[0].Fields
	sym.Assert(len(f) == 3 && f[0].Value == "b" && f[2].Value == "a", "the neighbours are as stored")
	sym.Assert(f[1].Name == "It", "the label is the field's own")
	return f[1].Value
}

func day(t int64) string { return time.Unix(t, 0).Format("2006-01-02") }

// VerifDate: any time.
func VerifDate() {
	var t int
	k := sym.Choose("digits", 10)
	lo, hi := 1, 10
	for i := 0; i < k; i++ {
		lo, hi = lo*10, hi*10
	}
	if k == 0 {
		lo = 0
	}
	t = sym.Int("time", lo, hi-1)
	if sym.Bool("negative") {
		t = -t
	}
	sym.Assert(shown([]string{"date", "Date", "DATE"}[k%3], strconv.Itoa(t)) == day(int64(t)), "a date is shown as its calendar day in local time")
	sym.Cover("date")
}

// VerifDays: fixed times around the ends of days, months and years.
func VerifDays() {
	days := []struct {
		t int
		s string
	}{{0, "1970-01-01"}, {-9001, "1969-12-31"}, {-9000, "1970-01-01"}, {1325483949, "2012-01-02"}, {1356989399, "2012-12-31"}, {1356989400, "2013-01-01"}, {1582925399, "2020-02-28"}, {1582925400, "2020-02-29"}, {1582929000, "2020-02-29"}, {1582928999, "2020-02-29"}, {1583000000, "2020-02-29"}, {4102444799, "2100-01-01"}, {2147483648, "2038-01-19"}}
	d := days[sym.Choose("day", len(days))]
	sym.Assert(shown("date", strconv.Itoa(d.t)) == d.s, "a date is shown as its calendar day in local time")
	sym.Cover("day")
}

// VerifMonth: month and year.
func VerifMonth() {
	y := sym.Int("year", 1000, 9999)
	var m int
	ms := "0"
	if sym.Bool("late") {
		m = sym.Int("month", 10, 99)
		ms = ""
	} else {
		m = sym.Int("month", 0, 9)
	}
	ms += strconv.Itoa(m)
	sym.Assert(shown([]string{"monthYear", "monthyear"}[sym.Choose("case", 2)], strconv.Itoa(y*100+m)) == strconv.Itoa(y)+"-"+ms, "a month is shown as year and month")
	sym.Cover("month")
}

var parts = []string{"street", "city", "zip", "state", "country", "region"}

// VerifAddress: every mix of parts.
func VerifAddress() {
	sym.MapOrders(3)
	var names []string
	text := map[string]string{}
	js := ""
	set := sym.Choose("parts", 16)
	for i, p := range parts {
		if i < 4 && set>>uint(i)&1 == 0 || i >= 4 && set%3 == 0 {
			continue
		}
		raw, want := "", ""
		switch k := sym.Choose("text", 2); {
		case i%3 == 0 && k == 1:
			a, b := sym.Text("a", 1), sym.Text("b", 1)
			sym.Assume(sym.And(a[0] != ' ', b[0] != ' '))
			raw, want = "  "+a+"\\n"+b+"\\n"+a+"\\n ", a+" "+b+" "+a
		case k == 0:
			a := sym.Text("text", 2)
			sym.Assume(sym.And(a[0] != ' ', a[1] != ' '))
			raw, want = a, a
		}
		if js != "" {
			js += ","
		}
		js += q(p) + ":" + q(raw)
		names = append(names, p)
		text[p] = want
	}
	got := shown("address", "{"+js+"}")
	sort.Strings(names)
	var lines []string
	for _, n := range names {
		lines = append(lines, n+": "+text[n])
	}
	sym.Assert(strings.Count(got, "\n") <= len(names), "an address has one line per part")
	sym.Assert(opv.InOrder(got+"\n", lines...), "the parts are shown in key order with their own texts")
	sym.Cover("address")
}

// VerifInner: blanks, quotes and other characters within parts of addresses.
func VerifInner() {
	texts := [][2]string{{"Flat 4  (rear)", ""}, {"a   b    c", ""}, {"1-2, Main St.", ""}, {"x: y", ""}, {"Ul. \u017b\u00f3\u0142wia 3", "Ul. Żółwia 3"}, {"say \\\"hi\\\"", "say \"hi\""}, {"50% off %s", ""}, {"<b>", ""}, {"a\\nb", "a b"}, {"0", ""}, {"null", ""}, {"00501", ""}, {"UPPER lower", ""}, {"-", ""}, {"us", ""}}
	k := sym.Choose("text", len(texts))
	raw, want := texts[k][0], texts[k][1]
	if want == "" {
		want = raw
	}
	part := append([]string{"address", "name"}, parts...)[sym.Choose("part", 2+len(parts))]
	got := shown("address", "{"+q(part)+":"+q(raw)+","+q("zzz")+":\"last\"}")
	sym.Assert(opv.InOrder("\n"+got+"\n", part+": "+want+"\n", "zzz: last"), "the parts are shown with their own texts")
	sym.Cover("inner")
}

// VerifOther: any other type.
func VerifOther() {
	kinds := []string{"string", "concealed", "URL", "menu", "gender", "cctype", "phone", "email", "dates", "dat", "addr", "addresses", "month", "monthYears", "year", "", " date", "reference", "creditCardNumber", "time"}
	kind := kinds[sym.Choose("type", len(kinds))]
	fixed := [][2]string{{"", ""}, {"1619621164", "1619621164"}, {"202011", "202011"}, {"2020-11", "2020-11"}, {"{\\\"city\\\":\\\"x\\\"}", "{\"city\":\"x\"}"}, {" lead and trail ", " lead and trail "}, {"a\\nb\\tc", "a\nb\tc"}, {"100%d %s", "100%d %s"}, {"p\\u00e4ss\\u2028\\\\", "päss\u2028\\"}}
	k := sym.Choose("value", len(fixed)+3)
	if k < len(fixed) {
		sym.Assert(shown(kind, q(fixed[k][0])) == fixed[k][1], "another value is shown exactly as stored")
	} else {
		v := sym.Text("value", k-len(fixed)+1)
		sym.Assert(shown(kind, q(v)) == v, "another value is shown exactly as stored")
	}
	sym.Cover("other")
}

// VerifMixed: values of all types in one section.
func VerifMixed() {
	t := sym.Int("time", 1325483949, 1999999999)
	y, m := sym.Int("year", 1000, 9999), sym.Int("month", 1, 9)
	city := sym.Text("city", 2)
	sym.Assume(sym.And(city[0] != ' ', city[1] != ' '))
	i := load("{\"k\":\"date\",\"n\":\"x\",\"t\":\"birth\",\"v\":" + strconv.Itoa(t) + "},{\"k\":\"monthYear\",\"n\":\"x\",\"t\":\"expiry\",\"v\":" + strconv.Itoa(y*100+m) + "},{\"k\":\"address\",\"n\":\"x\",\"t\":\"home\",\"v\":{\"city\":" + q(city) + "}}")
	f := i.Sections[0].Fields
	sym.Assert(len(f) == 3, "every field is there")
	sym.Assert(f[0].Name == "Birth" && f[0].Value == day(int64(t)), "a date is shown as its calendar day in local time")
	sym.Assert(f[1].Name == "Expiry" && f[1].Value == strconv.Itoa(y)+"-0"+strconv.Itoa(m), "a month is shown as year and month")
	sym.Assert(f[2].Name == "Home" && vm.Has(f[2].Value, "city: "+city), "an address is shown with its parts")
	sym.Cover("mixed")
}

// VerifKeyOrder: parts with any names.
func VerifKeyOrder() {
	sym.MapOrders(3)
	got := shown("address", []string{
		"{\"b\":\"1\",\"C\":\"2\",\"a\":\"3\",\"A\":\"4\",\"\":\"5\",\"ab\":\"6\"}",
		"{\"zip 2\":\"1\",\"zip\":\"2\",\"Zip\":\"3\",\"\\u00fc\":\"4\",\"zip10\":\"5\",\"address\":\"6\"}",
	}[sym.Choose("names", 2)])
	switch got[3] {
	case ':':
		sym.Assert(opv.InOrder(got+"\n", "\n  : 5\n", "  A: 4\n", "  C: 2\n", "  a: 3\n", "  ab: 6\n", "  b: 1\n"), "the parts are shown in key order")
	default:
		sym.Assert(opv.InOrder(got+"\n", "\n  Zip: 3\n", "  address: 6\n", "  zip: 2\n", "  zip 2: 1\n", "  zip10: 5\n", "  ü: 4\n"), "the parts are shown in key order")
	}
	sym.Cover("key order")
}

// VerifLong: texts longer than usual, and addresses with many parts.
func VerifLong() {
	n := []int{50, 300, 1100, 5000}[sym.Choose("length", 4)]
	end := sym.In("end", 2, 'A', 'Z')
	t := opv.Long(n) + end
	kind := []string{"string", "concealed", "URL", "address", "menu"}[sym.Choose("type", 5)]
	if kind == "address" {
		got := shown(kind, "{\"city\":"+q(t)+",\"zip\":\"Z9\"}")
		sym.Assert(len(got) > len(t) && vm.Has(got[len(got)-len("zip: Z9"):], "zip: Z9") && opv.InSeq(got, "city: "+opv.Long(n)) && vm.Has(got[len(got)-24:], end), "an address is shown with its parts")
	} else {
		sym.Assert(shown(kind, q(t)) == t, "another value is shown exactly as stored")
	}
	sym.Cover("long")
}

// VerifParts: addresses with many parts.
func VerifParts() {
	js := ""
	var want []string
	for i := 0; i < 40; i++ {
		n := "p" + strconv.Itoa(100+i*7%40)
		if i > 0 {
			js += ","
		}
		js += q(n) + ":" + q("text of "+n)
		want = append(want, n+": text of "+n+"\n")
	}
	sort.Strings(want)
	got := shown("address", "{"+js+"}")
	sym.Assert(opv.InSeq(got+"\n", want...) && strings.Count(got, "\n") <= 40, "the parts are shown in key order with their own texts")
	sym.Cover("parts")
}
