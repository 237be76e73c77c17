package lib

import (
	rt "github.com/boynton/sadl/zzrt"
)

// JavaTokens are the tokens of a Java text without its comments; false if the text is not made of tokens
func JavaTokens(s string) ([]string, bool) {
	var r []string
	if !unicodeEscapes(s) {
		return r, false
	}
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\r' || c == '\n':
			i++
		case c == '/' && i+1 < len(s) && s[i+1] == '/':
			for i < len(s) && s[i] != '\n' && s[i] != '\r' {
				i++
			}
		case c == '/' && i+1 < len(s) && s[i+1] == '*':
			i += 2
			for i+1 < len(s) && !(s[i] == '*' && s[i+1] == '/') {
				i++
			}
			if i+1 >= len(s) {
				return r, false
			}
			i += 2
		case c == '"' || c == '\'':
			// the token has the characters that the literal stands for
			j := i + 1
			lit := []byte{c}
			for j < len(s) && s[j] != c && s[j] != '\n' && s[j] != '\r' {
				if s[j] != '\\' {
					lit = append(lit, s[j])
					j++
					continue
				}
				if j+1 >= len(s) {
					return r, false
				}
				switch e := s[j+1]; e {
				case 'n':
					lit = append(lit, '\n')
				case 't':
					lit = append(lit, '\t')
				case 'r':
					lit = append(lit, '\r')
				case 'b':
					lit = append(lit, '\b')
				case 'f':
					lit = append(lit, '\f')
				case '"', '\'', '\\':
					lit = append(lit, e)
				case 'u':
					if j+5 >= len(s) || s[j+2] != '0' || s[j+3] != '0' {
						return r, false
					}
					lit = append(lit, hex(s[j+4])*16+hex(s[j+5]))
					j += 4
				default:
					return r, false
				}
				j += 2
			}
			if j >= len(s) || s[j] != c {
				return r, false
			}
			r = append(r, string(append(lit, c)))
			i = j + 1
		case ident(c):
			j := i + 1
			for j < len(s) && ident(s[j]) {
				j++
			}
			r = append(r, s[i:j])
			i = j
		default:
			r = append(r, s[i:i+1])
			i++
		}
	}
	return r, true
}

func hex(c byte) byte {
	switch {
	case c >= '0' && c <= '9':
		return c - '0'
	case c >= 'a' && c <= 'f':
		return c - 'a' + 10
	case c >= 'A' && c <= 'F':
		return c - 'A' + 10
	}
	return 255
}

// unicodeEscapes tells whether every \u of a Java text, which is read before anything else is, is one of a control character
func unicodeEscapes(s string) bool {
	slashes := 0
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' {
			slashes++
			continue
		}
		if slashes%2 == 1 && s[i] == 'u' {
			if i+4 >= len(s) || s[i+1] != '0' || s[i+2] != '0' || hex(s[i+3]) == 255 || hex(s[i+4]) == 255 {
				return false
			}
			// what it stands for must not be a line end, a quote or a backslash
			switch hex(s[i+3])*16 + hex(s[i+4]) {
			case '\n', '\r', '"', '\'', '\\':
				return false
			}
		}
		slashes = 0
	}
	return true
}

// JavaFile is a Java text: its package, its imports and the one type it declares, which is a header and its members
type JavaFile struct {
	Package string
	Imports []string
	Type    *JavaType
	Toks    []string
}

type JavaType struct {
	Head    []string // annotations, modifiers, kind, name, extends and implements
	Members [][]string
}

func join(l []string) string {
	r := ""
	for _, s := range l {
		r += s
	}
	return r
}

// JavaParse takes a Java text apart; nil if it is not one
func JavaParse(s string) *JavaFile {
	toks, ok := JavaTokens(s)
	if !ok {
		return nil
	}
	f := &JavaFile{}
	for len(toks) > 0 && (toks[0] == "package" || toks[0] == "import") {
		j := 0
		for j < len(toks) && toks[j] != ";" {
			j++
		}
		if j == len(toks) {
			return nil
		}
		if toks[0] == "package" {
			if f.Package != "" || len(f.Imports) > 0 {
				return nil
			}
			f.Package = join(toks[1:j])
		} else {
			f.Imports = append(f.Imports, join(toks[1:j]))
		}
		toks = toks[j+1:]
	}
	f.Toks = toks
	f.Type = JavaBody(toks)
	if f.Type == nil {
		return nil
	}
	return f
}

// JavaBody takes a class, interface or enum apart; nil if it is not exactly one. The constants of an enum are its first member.
func JavaBody(toks []string) *JavaType {
	t := &JavaType{}
	depth := 0
	i := 0
	for ; i < len(toks); i++ {
		if toks[i] == "(" {
			depth++
		} else if toks[i] == ")" {
			depth--
		} else if toks[i] == "{" && depth == 0 {
			break
		}
	}
	if i == len(toks) || toks[len(toks)-1] != "}" {
		return nil
	}
	t.Head = toks[:i]
	body := toks[i+1 : len(toks)-1]
	start := 0
	for j, k := range body {
		switch k {
		case "(", "{":
			depth++
		case ")":
			depth--
		case "}":
			depth--
			if depth == 0 {
				t.Members = append(t.Members, body[start:j+1])
				start = j + 1
			}
		case ";":
			if depth == 0 {
				t.Members = append(t.Members, body[start:j+1])
				start = j + 1
			}
		}
		if depth < 0 {
			return nil
		}
	}
	if depth != 0 {
		return nil
	}
	if start < len(body) {
		t.Members = append(t.Members, body[start:])
	}
	return t
}

// JavaIs says that a list of tokens is what a Java text says
func JavaIs(toks []string, text string) bool {
	want, ok := JavaTokens(text)
	return ok && Same(toks, want)
}

// JavaMembers says that the members of a type are those given, each once, in any order
func JavaMembers(t *JavaType, want ...string) bool {
	if len(t.Members) != len(want) {
		return false
	}
	left := make([][]string, len(t.Members))
	copy(left, t.Members)
	for _, w := range want {
		toks, ok := JavaTokens(w)
		if !ok {
			return false
		}
		found := false
		for i, m := range left {
			if len(m) == len(toks) && rt.Fork(Same(m, toks)) {
				left = append(left[:i], left[i+1:]...)
				found = true
				break
			}
		}
		if !found {
			return false
		}
	}
	return true
}

var javaHome = map[string]string{
	"JsonInclude": "com.fasterxml.jackson.annotation", "JsonIgnoreProperties": "com.fasterxml.jackson.annotation", "JsonProperty": "com.fasterxml.jackson.annotation",
	"JsonValue": "com.fasterxml.jackson.annotation", "JsonCreator": "com.fasterxml.jackson.annotation", "JsonIgnore": "com.fasterxml.jackson.annotation",
	"JsonDeserialize": "com.fasterxml.jackson.databind.annotation", "JsonSerialize": "com.fasterxml.jackson.databind.annotation", "JsonPOJOBuilder": "com.fasterxml.jackson.databind.annotation",
	"NotNull": "javax.validation.constraints", "Pattern": "javax.validation.constraints", "Size": "javax.validation.constraints", "Min": "javax.validation.constraints", "Max": "javax.validation.constraints",
	"DecimalMin": "javax.validation.constraints", "DecimalMax": "javax.validation.constraints",
	"BigDecimal": "java.math", "Instant": "java.time", "List": "java.util", "Map": "java.util", "UUID": "java.util",
	"Data": "lombok", "AllArgsConstructor": "lombok", "NoArgsConstructor": "lombok", "Builder": "lombok",
	"Path": "javax.ws.rs", "QueryParam": "javax.ws.rs", "HeaderParam": "javax.ws.rs", "PathParam": "javax.ws.rs", "DefaultValue": "javax.ws.rs", "Produces": "javax.ws.rs", "WebApplicationException": "javax.ws.rs",
	"GET": "javax.ws.rs", "PUT": "javax.ws.rs", "POST": "javax.ws.rs", "DELETE": "javax.ws.rs", "PATCH": "javax.ws.rs", "HEAD": "javax.ws.rs", "OPTIONS": "javax.ws.rs",
	"Response": "javax.ws.rs.core", "MediaType": "javax.ws.rs.core", "GenericType": "javax.ws.rs.core", "Inject": "javax.inject",
	"Client": "javax.ws.rs.client", "ClientBuilder": "javax.ws.rs.client", "Entity": "javax.ws.rs.client", "WebTarget": "javax.ws.rs.client", "Invocation": "javax.ws.rs.client",
}

// JavaImported says that what the text uses of the libraries is imported, and nothing is imported twice. The identifiers of the text must be concrete.
func JavaImported(f *JavaFile) bool {
	imp := map[string]bool{}
	for _, i := range f.Imports {
		if imp[i] {
			return false
		}
		imp[i] = true
	}
	for i, t := range f.Toks {
		if i > 0 && f.Toks[i-1] == "." {
			continue
		}
		if p, ok := javaHome[t]; ok && !imp[p+"."+t] && !imp[p+".*"] {
			return false
		}
	}
	return true
}

// JavaUses says that a text names a class
func JavaUses(f *JavaFile, class string) bool {
	for i, t := range f.Toks {
		if t == class && (i == 0 || f.Toks[i-1] != ".") {
			return true
		}
	}
	return false
}

// JavaHas says that tokens have those of a text in them, in a row
func JavaHas(toks []string, text string) bool {
	want, ok := JavaTokens(text)
	if !ok {
		return false
	}
	for i := 0; i+len(want) <= len(toks); i++ {
		if rt.Fork(Same(toks[i:i+len(want)], want)) {
			return true
		}
	}
	return false
}

// JavaHelped says that a class has, as public members, all that other texts take from it
func JavaHelped(util *JavaFile, fs ...*JavaFile) bool {
	class := util.Type.Head[len(util.Type.Head)-1]
	for _, f := range fs {
		for i := 0; i+2 < len(f.Toks); i++ {
			if f.Toks[i] != class || f.Toks[i+1] != "." {
				continue
			}
			found := false
			for _, m := range util.Type.Members {
				public := false
				for _, t := range m {
					if t == "{" {
						break
					}
					if t == "public" {
						public = true
					}
					if t == f.Toks[i+2] {
						found = found || public
					}
				}
			}
			if !found {
				return false
			}
		}
	}
	return true
}
