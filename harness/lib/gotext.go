package lib

import (
	rt "github.com/boynton/sadl/zzrt"
)

// GoDecl is one top level declaration of a Go text, as tokens; a declaration ends without its semicolon
type GoDecl struct {
	Kind, Name string
	Toks       []string
}

func ident(c byte) bool {
	return rt.Fork(rt.Or(c == '_', rt.And(c >= 'a', c <= 'z'), rt.And(c >= 'A', c <= 'Z'), rt.And(c >= '0', c <= '9'), c >= 0x80))
}

// GoTokens are the tokens of a Go text, with the semicolons that line ends stand for; false if the text is not made of tokens
func GoTokens(s string) ([]string, bool) {
	var r []string
	ends := false // a line end here is a semicolon
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == '\n':
			if ends {
				r = append(r, ";")
				ends = false
			}
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case c == '/' && i+1 < len(s) && s[i+1] == '/':
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case c == '"':
			j := i + 1
			for j < len(s) && s[j] != '"' && s[j] != '\n' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(s) || s[j] != '"' {
				return r, false
			}
			r = append(r, s[i:j+1])
			i = j + 1
			ends = true
		case c == '\'':
			j := i + 1
			for j < len(s) && s[j] != '\'' && s[j] != '\n' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(s) || s[j] != '\'' {
				return r, false
			}
			r = append(r, s[i:j+1])
			i = j + 1
			ends = true
		case c == '`':
			j := i + 1
			for j < len(s) && s[j] != '`' {
				j++
			}
			if j >= len(s) {
				return r, false
			}
			r = append(r, s[i:j+1])
			i = j + 1
			ends = true
		case ident(c):
			j := i + 1
			for j < len(s) && ident(s[j]) {
				j++
			}
			r = append(r, s[i:j])
			i = j
			ends = true
		default:
			r = append(r, s[i:i+1])
			ends = c == ')' || c == ']' || c == '}'
			i++
		}
	}
	if ends {
		r = append(r, ";")
	}
	return r, true
}

// GoDecls splits a Go text into its top level declarations; false if it is not made of declarations with balanced brackets
func GoDecls(s string) ([]*GoDecl, bool) {
	toks, ok := GoTokens(s)
	if !ok {
		return nil, false
	}
	var r []*GoDecl
	depth := 0
	start := 0
	for i, t := range toks {
		switch t {
		case "(", "{", "[":
			depth++
		case ")", "}", "]":
			depth--
			if depth < 0 {
				return r, false
			}
		case ";":
			if depth != 0 {
				continue
			}
			if i > start {
				d := &GoDecl{Kind: toks[start], Toks: toks[start:i]}
				if len(d.Toks) > 1 {
					d.Name = d.Toks[1]
				}
				switch d.Kind {
				case "package", "import", "type", "const", "var":
				case "func":
					if d.Name == "(" { // a method: its name is Type.name
						j := 2
						for j < len(d.Toks) && d.Toks[j] != ")" {
							j++
						}
						if j+1 >= len(d.Toks) {
							return r, false
						}
						d.Name = d.Toks[j-1] + "." + d.Toks[j+1]
					}
				default:
					return r, false
				}
				r = append(r, d)
			}
			start = i + 1
		}
	}
	return r, depth == 0 && start == len(toks)
}

// GoFind is the declaration of a name, if it is declared exactly once (methods are named Type.Method)
func GoFind(ds []*GoDecl, kind, name string) *GoDecl {
	var r *GoDecl
	for _, d := range ds {
		if d.Kind == kind && d.Name == name {
			if r != nil {
				return nil
			}
			r = d
		}
	}
	return r
}

// GoUnique says that no name is declared twice
func GoUnique(ds []*GoDecl) bool {
	for i, d := range ds {
		if d.Kind == "import" || d.Kind == "package" || d.Name == "(" {
			continue
		}
		for _, e := range ds[:i] {
			if e.Kind != "import" && e.Kind != "package" && d.Name == e.Name {
				return false
			}
		}
	}
	return true
}

// GoImports says that the imports of a file are the packages it uses, each once
func GoImports(ds []*GoDecl) bool {
	var imps []string
	for _, d := range ds {
		if d.Kind != "import" {
			continue
		}
		for _, t := range d.Toks {
			if t[0] == '"' {
				j := len(t) - 1
				for t[j-1] != '/' && t[j-1] != '"' {
					j--
				}
				n := t[j : len(t)-1]
				for _, x := range imps {
					if x == n {
						return false
					}
				}
				imps = append(imps, n)
			}
		}
	}
	used := map[string]bool{}
	for _, d := range ds {
		for i, t := range d.Toks {
			if i > 0 && i+1 < len(d.Toks) && d.Toks[i+1] == "." && d.Toks[i-1] != "." {
				for _, p := range []string{"bytes", "json", "fmt", "big", "strconv", "strings", "time", "http", "url", "io", "os", "log", "mux", "handlers", "sadl"} {
					if t == p {
						used[p] = true
					}
				}
			}
		}
	}
	if len(used) != len(imps) {
		return false
	}
	for _, n := range imps {
		if !used[n] {
			return false
		}
	}
	return true
}

// Same says that two token lists are the same
func Same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = rt.And(r, a[i] == b[i])
	}
	return r
}

// GoIs says that a declaration is what a Go text says
func GoIs(d *GoDecl, text string) bool {
	if d == nil {
		return false
	}
	toks, ok := GoTokens(text + "\n")
	if !ok || len(toks) == 0 {
		return false
	}
	if toks[len(toks)-1] == ";" {
		toks = toks[:len(toks)-1]
	}
	return Same(d.Toks, toks)
}
