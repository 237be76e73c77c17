package main

import (
	"regexp"
	"regexp/syntax"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// The finding functions of regexp over symbolic text: a backtracking run of the compiled program, which decides
// the bytes it looks at (forking where the path leaves them open). The matcher prefers what regexp prefers:
// leftmost, and within that the first alternative.

var reProgs sync.Map

func (w *W) reProg(re *regexp.Regexp) *syntax.Prog {
	if p, ok := reProgs.Load(re.String()); ok {
		return p.(*syntax.Prog)
	}
	parsed, err := syntax.Parse(re.String(), syntax.Perl)
	if err != nil {
		w.unsupported("regexp syntax")
	}
	prog, err := syntax.Compile(parsed.Simplify())
	if err != nil {
		w.unsupported("regexp compile")
	}
	reProgs.Store(re.String(), prog)
	return prog
}

// reFind gives the first match at or after from: the bounds of the match and its groups, or nil
func (w *W) reFind(re *regexp.Regexp, b []Value, from int) []int {
	prog := w.reProg(re)
	ts := w.ts
	n := len(b)
	word := func(i int) bool {
		if i < 0 || i >= n {
			return false
		}
		return w.truth(termVal(w.rangeTerm(w.byteTerm(b[i]), func(i int) bool { return i < 0x80 && syntax.IsWordChar(rune(i)) }), false))
	}
	is := func(i int, c byte) bool {
		return w.truth(termVal(ts.Eq(w.byteTerm(b[i]), ts.Const(8, uint64(c))), false))
	}
	nc := 2 * (re.NumSubexp() + 1)
	type key struct {
		pc  uint32
		pos int
	}
	for start := from; start <= n; start++ {
		caps := make([]int, nc)
		for i := range caps {
			caps[i] = -1
		}
		seen := map[key]bool{}
		var run func(pc uint32, pos int) bool
		run = func(pc uint32, pos int) bool {
			for {
				k := key{pc, pos}
				if seen[k] {
					return false
				}
				seen[k] = true
				in := &prog.Inst[pc]
				switch in.Op {
				case syntax.InstFail:
					return false
				case syntax.InstMatch:
					caps[1] = pos
					return true
				case syntax.InstAlt, syntax.InstAltMatch:
					if run(in.Out, pos) {
						return true
					}
					pc = in.Arg
				case syntax.InstNop:
					pc = in.Out
				case syntax.InstCapture:
					if int(in.Arg) < nc {
						old := caps[in.Arg]
						caps[in.Arg] = pos
						if run(in.Out, pos) {
							return true
						}
						caps[in.Arg] = old
						return false
					}
					pc = in.Out
				case syntax.InstEmptyWidth:
					e := syntax.EmptyOp(in.Arg)
					if e&syntax.EmptyBeginText != 0 && pos != 0 || e&syntax.EmptyEndText != 0 && pos != n {
						return false
					}
					if e&syntax.EmptyBeginLine != 0 && pos > 0 && !is(pos-1, '\n') {
						return false
					}
					if e&syntax.EmptyEndLine != 0 && pos < n && !is(pos, '\n') {
						return false
					}
					if e&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
						wb := word(pos-1) != word(pos)
						if wb != (e&syntax.EmptyWordBoundary != 0) {
							return false
						}
					}
					pc = in.Out
				default:
					if pos >= n {
						return false
					}
					var c *Term
					x := w.byteTerm(b[pos])
					switch in.Op {
					case syntax.InstRune, syntax.InstRune1:
						c = w.rangeTerm(x, func(i int) bool { return i < 0x80 && in.MatchRune(rune(i)) })
					case syntax.InstRuneAny:
						c = ts.True
					case syntax.InstRuneAnyNotNL:
						c = ts.Not(ts.Eq(x, ts.Const(8, '\n')))
					}
					if !w.truth(termVal(c, false)) {
						return false
					}
					pc = in.Out
					pos++
				}
			}
		}
		if run(uint32(prog.Start), start) {
			caps[0] = start
			return caps
		}
	}
	return nil
}

// reAll gives the matches as FindAll does
func (w *W) reAll(re *regexp.Regexp, sv Value, n int) [][]int {
	if s, ok := sv.(string); ok {
		return re.FindAllStringSubmatchIndex(s, n)
	}
	b := w.strBytes(sv)
	for _, x := range b { // byte = rune
		if !w.truth(termVal(w.ts.Ult(w.byteTerm(x), w.ts.Const(8, 0x80)), false)) {
			return re.FindAllStringSubmatchIndex(w.concStr(sv), n)
		}
	}
	if n < 0 {
		n = len(b) + 1
	}
	var r [][]int
	prevEnd := -1
	for pos := 0; len(r) < n && pos <= len(b); {
		m := w.reFind(re, b, pos)
		if m == nil {
			break
		}
		accept := true
		if m[1] == pos {
			if m[0] == prevEnd {
				accept = false
			}
			pos++
		} else {
			pos = m[1]
		}
		prevEnd = m[1]
		if accept {
			r = append(r, m)
		}
	}
	return r
}

func initRegexp() {
	ints := func(l []int) Value {
		if l == nil {
			return []Value(nil)
		}
		r := make([]Value, len(l))
		for i, x := range l {
			r[i] = int64(x)
		}
		return r
	}
	one := func(w *W, a []Value) (Value, []int) {
		sv := w.str(a[1])
		m := w.reAll(w.getRegexp(a[0]), sv, 1)
		if len(m) == 0 {
			return sv, nil
		}
		return sv, m[0]
	}
	sub := func(w *W, sv Value, i, j int) Value {
		if i < 0 {
			return ""
		}
		if s, ok := sv.(string); ok {
			return s[i:j]
		}
		return mkStr(append([]Value(nil), w.strBytes(sv)[i:j]...))
	}
	text := func(v Value) Value { return mkStr(append([]Value(nil), v.([]Value)...)) }
	reg("(*regexp.Regexp).FindString", func(w *W, fn *ssa.Function, a []Value) Value {
		sv, m := one(w, a)
		if m == nil {
			return ""
		}
		return sub(w, sv, m[0], m[1])
	})
	reg("(*regexp.Regexp).FindStringIndex", func(w *W, fn *ssa.Function, a []Value) Value {
		_, m := one(w, a)
		if m == nil {
			return []Value(nil)
		}
		return ints(m[:2])
	})
	reg("(*regexp.Regexp).FindIndex", func(w *W, fn *ssa.Function, a []Value) Value {
		_, m := one(w, []Value{a[0], text(a[1])})
		if m == nil {
			return []Value(nil)
		}
		return ints(m[:2])
	})
	reg("(*regexp.Regexp).FindStringSubmatch", func(w *W, fn *ssa.Function, a []Value) Value {
		sv, m := one(w, a)
		if m == nil {
			return []Value(nil)
		}
		var r []Value
		for i := 0; i < len(m); i += 2 {
			r = append(r, sub(w, sv, m[i], m[i+1]))
		}
		return r
	})
	reg("(*regexp.Regexp).FindStringSubmatchIndex", func(w *W, fn *ssa.Function, a []Value) Value {
		_, m := one(w, a)
		return ints(m)
	})
	all := func(w *W, re, sv, n Value) (Value, [][]int) {
		sv = w.str(sv)
		return sv, w.reAll(w.getRegexp(re), sv, int(w.concInt(n, true)))
	}
	reg("(*regexp.Regexp).FindAllString", func(w *W, fn *ssa.Function, a []Value) Value {
		sv, ms := all(w, a[0], a[1], a[2])
		var r []Value
		for _, m := range ms {
			r = append(r, sub(w, sv, m[0], m[1]))
		}
		return r
	})
	index := func(w *W, ms [][]int, groups bool) Value {
		var r []Value
		for _, m := range ms {
			if !groups {
				m = m[:2]
			}
			r = append(r, ints(m))
		}
		return r
	}
	reg("(*regexp.Regexp).FindAllStringIndex", func(w *W, fn *ssa.Function, a []Value) Value {
		_, ms := all(w, a[0], a[1], a[2])
		return index(w, ms, false)
	})
	reg("(*regexp.Regexp).FindAllIndex", func(w *W, fn *ssa.Function, a []Value) Value {
		_, ms := all(w, a[0], text(a[1]), a[2])
		return index(w, ms, false)
	})
	reg("(*regexp.Regexp).FindAllStringSubmatchIndex", func(w *W, fn *ssa.Function, a []Value) Value {
		_, ms := all(w, a[0], a[1], a[2])
		return index(w, ms, true)
	})
	reg("(*regexp.Regexp).FindAllStringSubmatch", func(w *W, fn *ssa.Function, a []Value) Value {
		sv, ms := all(w, a[0], a[1], a[2])
		var r []Value
		for _, m := range ms {
			var g []Value
			for i := 0; i < len(m); i += 2 {
				g = append(g, sub(w, sv, m[i], m[i+1]))
			}
			r = append(r, g)
		}
		return r
	})
	reg("(*regexp.Regexp).Split", func(w *W, fn *ssa.Function, a []Value) Value {
		n := int(w.concInt(a[2], true))
		if n == 0 {
			return []Value(nil)
		}
		re := w.getRegexp(a[0])
		sv := w.str(a[1])
		end := w.strLen(sv)
		if len(re.String()) > 0 && end == 0 {
			return []Value{""}
		}
		ms := w.reAll(re, sv, n)
		var r []Value
		beg, last := 0, 0
		for _, m := range ms {
			if n > 0 && len(r) == n-1 {
				break
			}
			last = m[0]
			if m[1] != 0 {
				r = append(r, sub(w, sv, beg, last))
			}
			beg = m[1]
		}
		if last != end {
			r = append(r, sub(w, sv, beg, end))
		}
		return r
	})
	replace := func(w *W, re *regexp.Regexp, sv Value, f func(m []int) Value) Value {
		ms := w.reAll(re, sv, -1)
		var out Value = ""
		pos := 0
		for _, m := range ms {
			out = w.concat(out, sub(w, sv, pos, m[0]))
			out = w.concat(out, f(m))
			pos = m[1]
		}
		return w.concat(out, sub(w, sv, pos, w.strLen(sv)))
	}
	reg("(*regexp.Regexp).ReplaceAllString", func(w *W, fn *ssa.Function, a []Value) Value {
		re := w.getRegexp(a[0])
		sv := w.str(a[1])
		repl := w.str(a[2])
		rs, conc := repl.(string)
		if s, ok := sv.(string); ok && conc {
			return re.ReplaceAllString(s, rs)
		}
		if !conc {
			for _, x := range w.strBytes(repl) {
				if w.truth(termVal(w.ts.Eq(w.byteTerm(x), w.ts.Const(8, '$')), false)) {
					w.unsupported("regexp template")
				}
			}
			return replace(w, re, sv, func([]int) Value { return repl })
		}
		return replace(w, re, sv, func(m []int) Value {
			// expand the template over the places of the groups
			var out Value = ""
			lit := ""
			for i := 0; i < len(rs); i++ {
				if rs[i] != '$' {
					lit += rs[i : i+1]
					continue
				}
				if i+1 < len(rs) && rs[i+1] == '$' {
					lit += "$"
					i++
					continue
				}
				j := i + 1
				brace := j < len(rs) && rs[j] == '{'
				if brace {
					j++
				}
				k := j
				num := 0
				for k < len(rs) && rs[k] >= '0' && rs[k] <= '9' {
					num = num*10 + int(rs[k]-'0')
					k++
				}
				if k == j || brace && (k >= len(rs) || rs[k] != '}') || !brace && k < len(rs) && syntax.IsWordChar(rune(rs[k])) {
					w.unsupported("regexp template")
				}
				out = w.concat(w.concat(out, lit), "")
				lit = ""
				if 2*num+1 < len(m) {
					out = w.concat(out, sub(w, sv, m[2*num], m[2*num+1]))
				}
				if brace {
					k++
				}
				i = k - 1
			}
			return w.concat(out, lit)
		})
	})
	reg("(*regexp.Regexp).ReplaceAllLiteralString", func(w *W, fn *ssa.Function, a []Value) Value {
		return replace(w, w.getRegexp(a[0]), w.str(a[1]), func([]int) Value { return w.str(a[2]) })
	})
	reg("(*regexp.Regexp).ReplaceAllStringFunc", func(w *W, fn *ssa.Function, a []Value) Value {
		sv := w.str(a[1])
		return replace(w, w.getRegexp(a[0]), sv, func(m []int) Value { return w.call(a[2], []Value{sub(w, sv, m[0], m[1])}) })
	})
}
