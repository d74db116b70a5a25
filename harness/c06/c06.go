// Package c06: decoded items carry exactly the vault's content.
package c06

import (
	"strconv"
	"strings"

	"github.com/mashmb/1pass/1pass-core/core/domain"

	"verif/harness/opv"
	"verif/harness/sym"
)

// bound: titles, URLs, notes, section titles, labels and values: absent, null, empty, 2 or 3 symbolic printable characters, and fixed texts with escapes, quotes, line breaks, non-ASCII letters and leading or trailing blanks
// bound: top-level fields: up to 3, each with every combination of absent, null, empty and present name and value; sections: null, empty list, or up to 2, with or without title, with no, an empty list of, or up to 2 fields; two items with both at once
// bound: items of every category, top-level fields of every type and section fields of every text kind, with the further members of real vaults; 40 fields in a section, 40 top-level fields, 12 sections; items lacking what their neighbours have, in either order
// bound: titles, URLs, notes, labels and values of 65 to 20001 characters, up to 300 fields and 302 sections (fixed but for one symbolic character)
// bound: beyond: longer texts and lists; field types other than text (C28); JSON that is not of the OPVault shape
// assume: hashes, PBKDF2 and AES are uninterpreted; encoding/json parses symbolic printable characters to themselves

func q(s string) string { return "\"" + s + "\"" }

// text gives a JSON fragment for a text-valued member (with leading key) and its meaning.
func text(name, key string) (frag, val string) {
	switch sym.Choose(name, 6) {
	case 0:
		v := sym.Text(name, 2)
		return "," + q(key) + ":" + q(v), v
	case 1:
		return "", ""
	case 2:
		return "," + q(key) + ":null", ""
	case 3:
		return "," + q(key) + ":\"\"", ""
	case 4:
		return "," + q(key) + ":" + q(" a\\\"b\\\\ \\r\\n\\tC  d\\n\\n\\u00e9 & <x> %s\\n "), " a\"b\\ \r\n\tC  d\n\n\u00e9 & <x> %s\n "
	}
	v := sym.Text(name, 3)
	return "," + q(key) + ":" + q("Zażółć "+v+" 漢字"), "Zażółć " + v + " 漢字"
}

func load(items ...*opv.Item) *opv.App {
	v := opv.NewVault("/v", "pw")
	v.WriteProfile()
	v.WriteBand("band_3.js", items...)
	a := opv.NewApp("/cfg")
	vlt := domain.NewVault("/v")
	sym.Assert(a.Vaults.Validate(vlt) == nil, "the vault is valid")
	o := sym.Catch(func() {
		sym.Assert(a.Vaults.Unlock(vlt, "pw") == nil, "the vault unlocks")
	})
	sym.Assert(o.Kind == sym.Returned, "decoding does not crash")
	return a
}

func get(a *opv.App, uid string) *domain.Item {
	i := a.Vaults.GetItem(uid, false)
	sym.Assert(i != nil, "the item is there")
	return i
}

func obj(s string) string {
	if len(s) > 0 && s[0] == ',' {
		s = s[1:]
	}
	return "{" + s + "}"
}

// VerifTexts: title, URL and notes are taken over exactly.
func VerifTexts() {
	tf, title := text("title", "title")
	uf, url := text("url", "url")
	nf, notes := text("notes", "notesPlain")
	a := load(&opv.Item{Uid: "AA", Category: "001",
		Overview: obj(tf + ",\"ainfo\":\"x\",\"ps\":95,\"pbe\":86.13621,\"pgrng\":true,\"tags\":[\"Sample\"],\"URLs\":[{\"l\":\"website\",\"u\":\"http://other\"}]" + uf),
		Details:  obj("\"htmlForm\":{\"htmlAction\":\"/login\",\"notesPlain\":\"wrong\"}" + nf + ",\"passwordHistory\":[{\"value\":\"old\",\"time\":1325484162}]")})
	i := get(a, "AA")
	sym.Assert(i.Title == title, "the title is the one of the overview")
	sym.Assert(i.Url == url, "the URL is the one of the overview")
	sym.Assert(i.Notes == notes, "the notes are the ones of the details")
	sym.Assert(len(i.Sections) == 0, "no section is invented")
	sym.Cover("texts")
}

type field struct {
	name, val string
}

type section struct {
	title  string
	fields []field
}

func same(i *domain.Item, want []section) {
	sym.Assert(len(i.Sections) == len(want), "exactly the sections with content are there")
	for j, w := range want {
		s := i.Sections[j]
		sym.Assert(s.Title == strings.Title(w.title), "a section has its own title")
		sym.Assert(len(s.Fields) == len(w.fields), "a section has exactly its fields")
		for k, f := range w.fields {
			sym.Assert(s.Fields[k].Name == strings.Title(f.name), "a field has its own label")
			sym.Assert(s.Fields[k].Value == f.val, "a field has its own value")
		}
	}
}

// top gives a top-level field; ok when it is to be shown.
func top(n string) (frag string, f field, ok bool) {
	var nf, vf string
	switch sym.Choose(n+"name", 5) {
	case 0:
		f.name = sym.Text(n+"name", 2)
		nf = "," + q("name") + ":" + q(f.name)
	case 1:
	case 2:
		nf = ",\"name\":null"
	case 3:
		nf = ",\"name\":\"\""
	case 4:
		f.name = "user[name] of-it"
		nf = ",\"name\":" + q(f.name)
	}
	switch sym.Choose(n+"value", 5) {
	case 0:
		f.val = sym.Text(n+"value", 2)
		vf = "," + q("value") + ":" + q(f.val)
	case 1:
	case 2:
		vf = ",\"value\":null"
	case 3:
		vf = ",\"value\":\"\""
	case 4:
		f.val = "\n\t päss\"w0rd \r\n\n"
		vf = ",\"value\":" + q("\\n\\t p\\u00e4ss\\\"w0rd \\r\\n\\n")
	}
	return obj("\"designation\":\"username\"" + vf + ",\"type\":\"T\"" + nf), f, f.name != "" && f.val != ""
}

// VerifFields: top-level fields.
func VerifFields() {
	n := 1 + sym.Choose("more", 2)
	js := "{\"designation\":\"\",\"name\":\"first one\",\"value\":\"" + "secret 1" + "\",\"type\":\"P\"}"
	want := []field{{"first one", "secret 1"}}
	for i := 0; i < n; i++ {
		fr, f, ok := top("f")
		js += "," + fr
		if ok {
			want = append(want, f)
		}
	}
	sec := []string{"", ",\"sections\":null", ",\"sections\":[]"}[sym.Choose("sections", 3)]
	x := sym.Text("notes", 2)
	a := load(&opv.Item{Uid: "AA", Category: "001", Overview: "{\"title\":\"t\"}", Details: "{\"notesPlain\":" + q(x) + ",\"fields\":[" + js + "]" + sec + "}"})
	i := get(a, "AA")
	same(i, []section{{"", want}})
	sym.Assert(i.Notes == x, "the notes are the ones of the details")
	sym.Cover("fields")
}

// VerifNoFields: nothing to show at all.
func VerifNoFields() {
	js := ""
	for i := 0; i < sym.Choose("count", 3); i++ {
		fr, _, ok := top("f")
		sym.Assume(!ok)
		if js != "" {
			js += ","
		}
		js += fr
	}
	d := []string{"{\"fields\":[" + js + "]}", "{\"fields\":null}", "{}"}[sym.Choose("fields", 3)]
	x := sym.Text("notes", 2)
	if d == "{}" {
		d = "{\"notesPlain\":" + q(x) + "}"
	} else {
		d = "{\"notesPlain\":" + q(x) + "," + d[1:]
	}
	a := load(&opv.Item{Uid: "AA", Category: "001", Overview: "{\"title\":\"t\"}", Details: d})
	i := get(a, "AA")
	same(i, nil)
	sym.Assert(i.Notes == x && i.Title == "t", "title and notes are there without any field")
	sym.Cover("no fields")
}

// secField gives a field of a section.
func secField(n string) (frag string, f field, ok bool) {
	f.name = sym.Text(n+"label", 2)
	kinds := []string{"concealed", "string", "URL", "menu", "gender", "cctype", "phone", "email"}
	kind := sym.Choose(n+"kind", 3)
	head := "\"k\":" + q(kinds[kind]) + ",\"n\":\"A1B2\",\"t\":" + q(f.name)
	switch sym.Choose(n+"v", 3) {
	case 0:
		f.val = sym.Text(n+"v", 2)
		if kind == 0 {
			v := f.val
			f.val = "\n\t " + v + " \r\n\n"
			return "{" + head + ",\"v\":" + q("\\n\\t "+v+" \\r\\n\\n") + "}", f, true
		}
		return "{" + head + ",\"v\":" + q(f.val) + "}", f, true
	case 1:
		return "{" + head + "}", f, false
	}
	return "{\"v\":null," + head + "}", f, false
}

func sec(n string, kinds int) (frag string, s section, ok bool) {
	tf := ""
	switch sym.Choose(n+"title", 4) {
	case 0:
		s.title = sym.Text(n+"title", 2)
		tf = ",\"title\":" + q(s.title)
	case 1:
	case 2:
		tf = ",\"title\":\"\""
	case 3:
		s.title = "linked items"
		tf = ",\"title\":" + q(s.title)
	}
	ff := ""
	switch k := sym.Choose(n+"fields", kinds); k {
	case 0:
	case 1:
		ff = ",\"fields\":[]"
	default:
		js := ""
		for i := 1; i < k; i++ {
			fr, f, ok := secField(n)
			if i > 1 {
				js += ","
			}
			js += fr
			if ok {
				s.fields = append(s.fields, f)
			}
		}
		ff = ",\"fields\":[" + js + "]"
	}
	return "{\"name\":\"Section_1\"" + tf + ff + "}", s, s.title != "" || len(s.fields) > 0
}

// VerifSection: one section in every shape.
func VerifSection() {
	fr, s, ok := sec("s", 4)
	var want []section
	if ok {
		want = append(want, s)
	}
	x := sym.Text("notes", 2)
	a := load(&opv.Item{Uid: "AA", Category: "004", Overview: "{\"title\":\"t\"}", Details: "{\"notesPlain\":" + q(x) + ",\"sections\":[" + fr + "]}"})
	i := get(a, "AA")
	same(i, want)
	sym.Assert(i.Notes == x, "the notes are the ones of the details")
	sym.Cover("section")
}

// VerifSections: several sections, with and without content, stay in order and apart.
func VerifSections() {
	js := ""
	var want []section
	for i := 0; i < 2; i++ {
		fr, s, ok := sec("s", 3)
		if ok {
			want = append(want, s)
		}
		js += fr + ","
	}
	js += "{\"name\":\"\",\"title\":\"last\",\"fields\":[{\"k\":\"string\",\"n\":\"x\",\"t\":\"lbl\",\"v\":\"end\"}]}"
	want = append(want, section{"last", []field{{"lbl", "end"}}})
	a := load(&opv.Item{Uid: "AA", Category: "004", Overview: "{\"title\":\"t\"}", Details: "{\"sections\":[" + js + "]}"})
	same(get(a, "AA"), want)
	sym.Cover("sections")
}

// VerifBoth: items with fields and sections and notes keep everything, each its own.
func VerifBoth() {
	sym.MapOrders(2)
	var items []*opv.Item
	var want [][]section
	var title, url, notes []string
	uids := []string{"AA", "BB"}
	for _, u := range uids {
		t, w, n := sym.Text("title", 2), sym.Text("url", 2), sym.Text("notes", 2)
		f1, f2, s1, s2, st := sym.Text("f1", 2), sym.Text("f2", 2), sym.Text("s1", 2), sym.Text("s2", 2), "own"+u
		title, url, notes = append(title, t), append(url, w), append(notes, n)
		items = append(items, &opv.Item{Uid: u, Category: "001", Overview: "{\"title\":" + q(t) + ",\"url\":" + q(w) + "}",
			Details: "{\"notesPlain\":" + q(n) + ",\"fields\":[{\"name\":\"username\",\"value\":" + q(f1) + "},{\"name\":\"password\",\"value\":" + q(f2) +
				"}],\"sections\":[{\"title\":" + q(st) + ",\"fields\":[{\"k\":\"string\",\"n\":\"x\",\"t\":\"path\",\"v\":" + q(s1) + "},{\"k\":\"concealed\",\"n\":\"y\",\"t\":\"pin\",\"v\":" + q(s2) + "}]},{\"title\":\"Provider\",\"name\":\"provider\"}]}"})
		want = append(want, []section{{"", []field{{"username", f1}, {"password", f2}}}, {st, []field{{"path", s1}, {"pin", s2}}}, {"Provider", nil}})
	}
	a := load(items...)
	for i, u := range uids {
		it := get(a, u)
		sym.Assert(it.Title == title[i], "the title is the one of the overview")
		sym.Assert(it.Url == url[i], "the URL is the one of the overview")
		sym.Assert(it.Notes == notes[i], "the notes are the ones of the details")
		same(it, want[i])
	}
	sym.Cover("fields and sections")
}

var types = []string{"T", "P", "E", "N", "R", "TEL", "B", "C", "I", "U", "S", ""}

// textKinds are the kinds of section fields whose value is a text.
var textKinds = []string{"string", "concealed", "URL", "email", "phone", "menu", "gender", "cctype", "reference", "numeric", "creditCardNumber", "file", "TOTP", "Date of birth", ""}

var designations = []string{"", "username", "password", "none"}

// VerifKinds: no category, type, kind or further member changes what is shown.
func VerifKinds() {
	cats := domain.ItemCategoryEnum.GetValues()
	cat := cats[sym.Choose("category", len(cats))]
	v := sym.Text("value", 3)
	js := ""
	var top, sec []field
	for i, t := range types {
		for j, d := range designations {
			n := "the" + d + string(rune('a'+i))
			if i > 0 {
				n = strings.ToLower(t) + d
			}
			if j == 0 && i == 0 {
				n = v
			}
			if n == "" {
				n = "x"
			}
			if js != "" {
				js += ","
			}
			js += "{\"type\":" + q(t) + ",\"id\":\"elem" + n + "\",\"name\":" + q(n) + ",\"value\":" + q(v) + ",\"designation\":" + q(d) + "}"
			top = append(top, field{n, v})
		}
	}
	ss := ""
	for i, k := range textKinds {
		for _, l := range []string{"label " + k, "", v} {
			if ss != "" {
				ss += ","
			}
			ss += "{\"k\":" + q(k) + ",\"n\":\"N" + string(rune('a'+i)) + "\",\"t\":" + q(l) + ",\"v\":" + q(v) +
				",\"a\":{\"guarded\":\"yes\",\"multiline\":\"yes\",\"generate\":\"off\",\"v\":\"wrong\"},\"inputTraits\":{\"keyboard\":\"NumberPad\",\"t\":\"wrong\"},\"clipboardFilter\":\"0123456789\"}"
			sec = append(sec, field{l, v})
		}
	}
	n := sym.Text("notes", 2)
	a := load(&opv.Item{Uid: "AA", Category: cat.GetCode(), Overview: "{\"title\":" + q(v) + ",\"url\":" + q(v) + ",\"ainfo\":\"info\",\"appIds\":[]}",
		Details: "{\"fields\":[" + js + "],\"notesPlain\":" + q(n) + ",\"password\":\"wrong\",\"backupKeys\":[],\"sections\":[{\"name\":\"name\",\"title\":" + q(v) + ",\"fields\":[" + ss + "]}]}"})
	i := get(a, "AA")
	sym.Assert(i.Category == cat, "the category is its own")
	sym.Assert(i.Title == v && i.Url == v, "title and URL are the ones of the overview")
	sym.Assert(i.Notes == n, "the notes are the ones of the details")
	same(i, []section{{"", top}, {v, sec}})
	sym.Cover("kinds")
}

// VerifMany: long lists are complete and in order.
func VerifMany() {
	x := sym.Text("x", 2)
	at := sym.Choose("at", 3) * 19
	var top []field
	js := ""
	for i := 0; i < 40; i++ {
		f := field{"n" + string(rune('0'+i/10)) + string(rune('0'+i%10)), "v" + string(rune('A'+i%26))}
		if i == at || i == 39 {
			f.val = x
		}
		top = append(top, f)
		if i > 0 {
			js += ","
		}
		js += "{\"name\":" + q(f.name) + ",\"value\":" + q(f.val) + "}"
	}
	want := []section{{"", top}}
	ss := ""
	for j := 0; j < 12; j++ {
		n, fs := 1+j%3, ""
		if j == 7 {
			n = 40
		}
		w := section{title: "Sec" + string(rune('a'+j))}
		for i := 0; i < n; i++ {
			f := field{"l" + string(rune('0'+i/10)) + string(rune('0'+i%10)), "w" + string(rune('A'+i%26)) + w.title}
			if i == at || i == 39 {
				f.val = x
			}
			w.fields = append(w.fields, f)
			if i > 0 {
				fs += ","
			}
			fs += "{\"k\":\"string\",\"n\":\"x\",\"t\":" + q(f.name) + ",\"v\":" + q(f.val) + "}"
		}
		want = append(want, w)
		if j > 0 {
			ss += ","
		}
		ss += "{\"name\":\"s\",\"title\":" + q(w.title) + ",\"fields\":[" + fs + "]}"
	}
	a := load(&opv.Item{Uid: "AA", Category: "004", Overview: "{\"title\":\"t\"}", Details: "{\"sections\":[" + ss + "],\"fields\":[" + js + "]}"})
	same(get(a, "AA"), want)
	sym.Cover("many")
}

// VerifGaps: an item that lacks something does not get it from another item.
func VerifGaps() {
	sym.MapOrders(3)
	x := sym.Text("x", 2)
	over := []string{"{}", "{\"title\":" + q(x) + "}", "{\"url\":" + q(x) + "}"}
	det := []string{"{}", "{\"notesPlain\":" + q(x) + "}", "{\"fields\":[{\"name\":\"a\",\"value\":" + q(x) + "}]}",
		"{\"sections\":[{\"title\":\"b\",\"fields\":[{\"k\":\"string\",\"n\":\"n\",\"t\":\"c\",\"v\":" + q(x) + "}]}]}"}
	full := &opv.Item{Uid: "FULL", Category: "001", Overview: "{\"title\":\"T\",\"url\":\"U\"}",
		Details: "{\"notesPlain\":\"N\",\"fields\":[{\"name\":\"F\",\"value\":\"V\"}],\"sections\":[{\"title\":\"S\",\"fields\":[{\"k\":\"string\",\"n\":\"n\",\"t\":\"L\",\"v\":\"W\"}]}]}"}
	o, d := sym.Choose("overview", len(over)), sym.Choose("details", len(det))
	a := load(&opv.Item{Uid: "AA", Category: "001", Overview: over[o], Details: det[d]}, full, &opv.Item{Uid: "ZZ", Category: "001", Overview: "{}", Details: "{}"})
	pick := func(want bool) string {
		if want {
			return x
		}
		return ""
	}
	i := get(a, "AA")
	sym.Assert(i.Title == pick(o == 1), "the title is the one of the overview")
	sym.Assert(i.Url == pick(o == 2), "the URL is the one of the overview")
	sym.Assert(i.Notes == pick(d == 1), "the notes are the ones of the details")
	switch d {
	case 2:
		same(i, []section{{"", []field{{"a", x}}}})
	case 3:
		same(i, []section{{"b", []field{{"c", x}}}})
	default:
		same(i, nil)
	}
	f, z := get(a, "FULL"), get(a, "ZZ")
	sym.Assert(f.Title == "T" && f.Url == "U" && f.Notes == "N", "the full item is complete")
	same(f, []section{{"", []field{{"F", "V"}}}, {"S", []field{{"L", "W"}}}})
	sym.Assert(z.Title == "" && z.Url == "" && z.Notes == "", "the empty item is empty")
	same(z, nil)
	sym.Cover("gaps")
}

// VerifLong: nothing is cut off, however long the texts and lists are.
func VerifLong() {
	n := []int{65, 256, 1025, 4097, 20000}[sym.Choose("len", 5)]
	x := sym.Text("tail", 1)
	l := opv.Long(n) + x
	many := []int{1, 70, 300}[sym.Choose("many", 3)]
	if n > 300 {
		many = 1
	}
	var top []field
	js := "{\"name\":" + q(l) + ",\"value\":" + q(l) + "}"
	top = append(top, field{l, l})
	for i := 1; i < many; i++ {
		k := strconv.Itoa(i)
		top = append(top, field{"n" + k, "v" + k})
		js += ",{\"name\":\"n" + k + "\",\"value\":\"v" + k + "\"}"
	}
	want := []section{{"", top}}
	ss := "{\"name\":\"s\",\"title\":" + q(l) + ",\"fields\":[{\"k\":\"string\",\"n\":\"x\",\"t\":" + q(l) + ",\"v\":" + q(l) + "}]}"
	want = append(want, section{title: l, fields: []field{{l, l}}})
	fs := ""
	w := section{title: "wide"}
	for i := 0; i < many; i++ {
		k := strconv.Itoa(i)
		if i > 0 {
			fs += ","
		}
		fs += "{\"k\":\"string\",\"n\":\"x\",\"t\":\"f" + k + "\",\"v\":\"w" + k + "\"}"
		w.fields = append(w.fields, field{"f" + k, "w" + k})
	}
	ss += ",{\"name\":\"s\",\"title\":\"wide\",\"fields\":[" + fs + "]}"
	want = append(want, w)
	for i := 1; i < many; i++ {
		k := strconv.Itoa(i)
		ss += ",{\"name\":\"s\",\"title\":\"t" + k + "\",\"fields\":[{\"k\":\"string\",\"n\":\"x\",\"t\":\"f" + k + "\",\"v\":\"w" + k + "\"}]}"
		want = append(want, section{title: "t" + k, fields: []field{{"f" + k, "w" + k}}})
	}
	a := load(&opv.Item{Uid: "AA", Category: "001", Overview: "{\"title\":" + q(l) + ",\"url\":" + q(l) + "}", Details: "{\"notesPlain\":" + q(l) + ",\"sections\":[" + ss + "],\"fields\":[" + js + "]}"})
	i := get(a, "AA")
	sym.Assert(i.Title == l && i.Url == l && i.Notes == l, "title, URL and notes are taken over in full")
	same(i, want)
	sym.Cover("long")
}
