package c26

import (
	"strings"

	sadl "github.com/boynton/sadl"
	rt "github.com/boynton/sadl/zzrt"
)

//verif:bound comments of 0..6 symbolic bytes (letters, spaces, newlines, slashes, stars) with line widths of 0..12 columns (a symbolic width), indents of 0, 2 or 4 spaces, with and without padding

func check(indent, comment string, max int, pad bool) {
	out := sadl.FormatComment(indent, "// ", comment, max, pad)
	g := &sadl.Generator{}
	rt.Assert(g.FormatComment(indent, comment, max, pad) == out, "generators format comments the same way")
	rt.Assert(strings.HasSuffix(out, "\n"), "a comment ends its line")
	rt.Observe("out", out)
	lines := strings.Split(out, "\n")
	lines = lines[:len(lines)-1]
	body := ""
	for _, l := range lines {
		if l == "" {
			continue
		}
		rt.Assert(strings.HasPrefix(l, indent+"//"), "no comment text is outside the comment")
		if !strings.HasPrefix(l, indent+"//") {
			return
		}
		rest := l[len(indent)+2:]
		for i := 0; i < len(rest); i++ {
			if rest[i] != ' ' {
				body += rest[i : i+1]
			}
		}
	}
	want := ""
	for i := 0; i < len(comment); i++ {
		if comment[i] != ' ' && comment[i] != '\n' {
			want += comment[i : i+1]
		}
	}
	rt.Assert(body == want, "every word of the comment is kept, in order")
}

func V_Comment() {
	n := 4
	if rt.Thorough() {
		n = 6
	}
	indent := []string{"", "  ", "    "}[rt.Choice("indent", 3)]
	comment := rt.StrN("comment", 0, n, "ab \n/*")
	max := rt.Choice("max", 13)
	check(indent, comment, max, rt.Choice("pad", 2) == 1)
}

// words of symbolic letters: no line is wider than asked unless a single word is
func V_Width() {
	comment := ""
	words := 1 + rt.Choice("words", 4)
	longest := 0
	for i := 0; i < words; i++ {
		w := rt.StrN("w", 1, 4, "ab")
		if len(w) > longest {
			longest = len(w)
		}
		if i > 0 {
			comment += " "
		}
		comment += w
	}
	max := 8 + rt.Choice("max", 10)
	out := sadl.FormatComment("", "// ", comment, max, false)
	for _, l := range strings.Split(out, "\n") {
		rt.Assert(len(l) <= max || len(l) <= 3+longest, "a comment is wrapped to the width asked for")
	}
	check("", comment, max, false)
}
