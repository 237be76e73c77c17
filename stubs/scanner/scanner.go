// Package scanner stands in for github.com/boynton/scanner, which is not available offline: the tokens the
// SADL parser relies on, as its use of them says. A scanner gives the
// tokens of its source and then those of More.
package scanner

import (
	"fmt"
	"io"
	"strings"
)

type TokenType int

const (
	UNDEFINED TokenType = iota
	EOF
	SYMBOL
	NUMBER
	STRING
	LINE_COMMENT
	BLOCK_COMMENT
	NEWLINE
	SEMICOLON
	COMMA
	COLON
	DOT
	EQUALS
	OPEN_BRACE
	CLOSE_BRACE
	OPEN_PAREN
	CLOSE_PAREN
	OPEN_ANGLE
	CLOSE_ANGLE
	OPEN_BRACKET
	CLOSE_BRACKET
	OTHER
)

func (t TokenType) String() string { return fmt.Sprintf("token kind %d", int(t)) }

const RED = "\x1b[0;31m"

type Token struct {
	Type  TokenType
	Text  string
	Line  int
	Start int
}

func (t Token) IsText() bool    { return t.Type == SYMBOL || t.Type == STRING }
func (t Token) IsNumeric() bool { return t.Type == NUMBER }
func (t Token) String() string  { return fmt.Sprintf("<%v %s>", t.Type, t.Text) }

// More, when set, gives further tokens once the text of a scanner is used up.
var More func() Token

type Scanner struct {
	text string
	pos  int
	line int
}

func NewScanner(r io.Reader) *Scanner {
	s := &Scanner{line: 1}
	b, err := io.ReadAll(r)
	if err != nil {
		panic(err)
	}
	s.text = string(b)
	return s
}

func FormattedAnnotation(filename string, source string, prefix string, msg string, tok *Token, color string, contextSize int) string {
	if tok == nil {
		return msg
	}
	return fmt.Sprintf("%s:%d: %s", filename, tok.Line, msg)
}

func letter(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_'
}

func digit(c byte) bool { return c >= '0' && c <= '9' }

func (s *Scanner) tok(t TokenType, start int) Token {
	return Token{Type: t, Text: s.text[start:s.pos], Line: s.line, Start: start}
}

func (s *Scanner) Scan() Token {
	for s.pos < len(s.text) && (s.text[s.pos] == ' ' || s.text[s.pos] == '\t' || s.text[s.pos] == '\r') {
		s.pos++
	}
	start := s.pos
	if s.pos >= len(s.text) {
		if More != nil {
			return More()
		}
		return Token{Type: EOF, Line: s.line, Start: start}
	}
	c := s.text[s.pos]
	s.pos++
	switch {
	case letter(c):
		for s.pos < len(s.text) && (letter(s.text[s.pos]) || digit(s.text[s.pos])) {
			s.pos++
		}
		return s.tok(SYMBOL, start)
	case digit(c), c == '-':
		for s.pos < len(s.text) && (digit(s.text[s.pos]) || strings.IndexByte("eE.+-", s.text[s.pos]) >= 0) {
			s.pos++
		}
		return s.tok(NUMBER, start)
	case c == '"':
		start = s.pos
		for s.pos < len(s.text) && s.text[s.pos] != '"' {
			if s.text[s.pos] == '\\' {
				s.pos++
			}
			s.pos++
		}
		if s.pos >= len(s.text) {
			s.pos = len(s.text)
			return s.tok(UNDEFINED, start)
		}
		t := s.tok(STRING, start)
		s.pos++
		return t
	case c == '/' && s.pos < len(s.text) && s.text[s.pos] == '/':
		s.pos++
		start = s.pos
		for s.pos < len(s.text) && s.text[s.pos] != '\n' {
			s.pos++
		}
		return s.tok(LINE_COMMENT, start)
	case c == '/' && s.pos < len(s.text) && s.text[s.pos] == '*':
		s.pos++
		for s.pos+1 < len(s.text) && !(s.text[s.pos] == '*' && s.text[s.pos+1] == '/') {
			s.pos++
		}
		s.pos += 2
		if s.pos > len(s.text) {
			s.pos = len(s.text)
		}
		return s.tok(BLOCK_COMMENT, start)
	case c == '\n':
		t := s.tok(NEWLINE, start)
		s.line++
		return t
	}
	kind := OTHER
	switch c {
	case ';':
		kind = SEMICOLON
	case ',':
		kind = COMMA
	case ':':
		kind = COLON
	case '.':
		kind = DOT
	case '=':
		kind = EQUALS
	case '{':
		kind = OPEN_BRACE
	case '}':
		kind = CLOSE_BRACE
	case '(':
		kind = OPEN_PAREN
	case ')':
		kind = CLOSE_PAREN
	case '<':
		kind = OPEN_ANGLE
	case '>':
		kind = CLOSE_ANGLE
	case '[':
		kind = OPEN_BRACKET
	case ']':
		kind = CLOSE_BRACKET
	}
	return s.tok(kind, start)
}
