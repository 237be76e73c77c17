package c27

import (
	sadl "github.com/boynton/sadl"
	rt "github.com/boynton/sadl/zzrt"
)

//verif:bound names of 0..6 arbitrary bytes

const lower = "abcdefghijklmnopqrstuvwxyz"
const upper = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
const digits = "0123456789"

func V_Symbol() {
	s := rt.StrN("s", 0, 6, "")
	ok := len(s) > 0
	for i := 0; i < len(s); i++ {
		c := rt.In(s[i], lower+upper)
		if i > 0 {
			c = rt.Or(c, rt.In(s[i], digits+"_"))
		}
		ok = rt.And(ok, c)
	}
	rt.Assert(rt.Iff(sadl.IsSymbol(s), ok), "a name is a letter followed by letters, digits and underscores")
}

func V_Char() {
	r := rune(rt.Int32("r", 0, 0x10ffff))
	l := rt.Or(rt.And(r >= 'a', r <= 'z'), rt.And(r >= 'A', r <= 'Z'))
	d := rt.And(r >= '0', r <= '9')
	rt.Assert(rt.Iff(sadl.IsLetter(r), l), "letters are the ASCII letters")
	rt.Assert(rt.Iff(sadl.IsDigit(r), d), "digits are the ASCII digits")
	rt.Assert(rt.Iff(sadl.IsSymbolChar(r, true), l), "a name starts with a letter")
	rt.Assert(rt.Iff(sadl.IsSymbolChar(r, false), rt.Or(l, d, r == '_')), "a name continues with letters, digits and underscores")
	rt.Assert(rt.Iff(sadl.IsWhitespace(r), rt.Or(r == ' ', r == '\t', r == '\n')), "white space")
}

func V_Capitalize() {
	s := rt.StrN("s", 0, 5, lower+upper+digits+"_ -.$\xc3\xa9\xff")
	u := sadl.Capitalize(s)
	l := sadl.Uncapitalize(s)
	rt.Assert(len(u) == len(s) && len(l) == len(s), "changing the case of a name keeps its length")
	g := &sadl.Generator{}
	rt.Assert(g.Capitalize(s) == u && g.Uncapitalize(s) == l, "generators change case the same way")
	if len(s) == 0 || len(u) != len(s) || len(l) != len(s) {
		return
	}
	rt.Assert(u[1:] == s[1:] && l[1:] == s[1:], "only the first letter changes")
	c := s[0]
	isl, isu := rt.In(c, lower), rt.In(c, upper)
	rt.Assert(rt.Or(rt.Not(isl), u[0] == c-32), "a lower case first letter is capitalized")
	rt.Assert(rt.Or(isl, u[0] == c), "anything else is left alone by capitalizing")
	rt.Assert(rt.Or(rt.Not(isu), l[0] == c+32), "an upper case first letter is uncapitalized")
	rt.Assert(rt.Or(isu, l[0] == c), "anything else is left alone by uncapitalizing")
	rt.Assert(sadl.Capitalize(u) == u && sadl.Uncapitalize(l) == l, "changing the case twice changes nothing more")
}

func V_BaseName() {
	s := rt.StrN("name", 1, 4, "ab. ")
	dir := []string{"", "/", "x/", "/x/y.z/", "../", "./"}[rt.Choice("dir", 6)]
	if rt.Choice("no extension", 2) == 1 {
		// no dot but, perhaps, the one a hidden file begins with
		f := rt.StrN("plain", 1, 3, "ab ")
		if rt.Choice("hidden", 2) == 1 {
			f = "." + f
		}
		rt.Assert(sadl.BaseFileName(dir+f) == f, "the base name of a file without an extension is its name")
		return
	}
	ext := rt.StrN("ext", 1, 2, "cd")
	rt.Assert(sadl.BaseFileName(dir+s+"."+ext) == s, "the base name of a file drops its directory and its last extension")
}

func V_Annotation() {
	k := rt.StrN("k", 1, 2, "xy")
	q := rt.StrN("q", 1, 2, "xy")
	v := rt.StrN("v", 0, 2, "pq")
	got := sadl.GetAnnotation(map[string]string{k: v}, q)
	want := ""
	if k == q {
		want = v
		if v == "" {
			want = "true"
		}
	}
	rt.Assert(got == want, "an annotation has its value, true when it has none, and nothing when it is absent")
	rt.Assert(sadl.GetAnnotation(nil, q) == "", "no annotations, no value")
}
