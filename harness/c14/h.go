package c14

import (
	"strings"

	"github.com/boynton/scanner"

	sadl "github.com/boynton/sadl"
	rt "github.com/boynton/sadl/zzrt"
)

//verif:parser
//verif:assume boynton/scanner is not available offline: its tokens (kinds, text, EOF for ever once the source is used up) are modelled by /verif/stubs/scanner
//verif:bound every token sequence made of one of 50 openings (every directive, and every construct inside it, entered) followed by up to 3 (thorough: 5) tokens of symbolic kind, and then the end of the source
//verif:bound symbols are drawn from the vocabulary that matters at that place and names that do not; strings and numbers from a few shapes each

type opening struct{ text, words string }

var openings = []opening{
	{"", "name namespace version base type example operation http x_a zz"},
	{"name", "a"}, {"namespace n", "a"}, {"version", "a"}, {"base", "a"}, {"x_a", "a"}, {"x_a \"v\"", "a"},
	{"operation", "a"},
	{"operation o (", "http x_a a"}, {"operation o (x_a =", "a"},
	{"operation o {", "inputs outputs exceptions a"},
	{"operation o { inputs", "a"}, {"operation o { inputs {", "a"}, {"operation o { inputs { a T", "a"}, {"operation o { inputs { a T (", "required a"},
	{"operation o { outputs", "a"}, {"operation o { outputs {", "a"}, {"operation o { exceptions", "a"}, {"operation o { exceptions {", "a"},
	{"http", "GET post a"}, {"http GET \"/{a}\"", "a"}, {"http GET \"/{\"", "a"}, {"http GET \"/\" (", "operation resource x_a a"},
	{"http POST \"/{a}\" {", "expect except a"}, {"http PUT \"/{a}?q={b}\" { a", "Struct Array Enum T Nope"}, {"http GET \"/\" { a Map", "T"}, {"http GET \"/{a}\" { a Int32 (", "header default required x_a"},
	{"http GET \"/\" { expect", "a"}, {"http GET \"/\" { expect 200", "T"}, {"http GET \"/\" { expect 204 {", "expect except a T"}, {"http GET \"/\" { except", "T"}, {"http GET \"/\" { except 404", "T"}, {"http GET \"/\" { except 404 T", "T"},
	{"type T String \n http GET \"/{a}\" (operation=a) { a T \n} \n example", "T ARequest AResponse a"},
	{"type T Struct { a Int32 \n} \n example T", "a true"}, {"type T Struct { a Int32 \n} \n example T {", "a"}, {"type T Struct { a Int32 \n} \n example T {\"a\":", "true null"}, {"type T Array \n example T [", "true a"}, {"type T Array \n example T (", "name a"},
	{"http GET \"/{a}\" (operation=a) { a Int32 \n} \n example ARequest", "T"}, {"http GET \"/{a}\" (operation=a) { a Int32 \n} \n example AResponse {", "T"},
	{"type", "T"}, {"type T", "Any Bool Int8 String Array List Map UnitValue Union Struct Enum UUID Timestamp T"},
	{"type T String (", "minsize maxsize pattern values reference x_a min"}, {"type T String (minsize=", "a"}, {"type T Decimal (min", "a"}, {"type T String (values=", "a"}, {"type T String (values=[\"a\"", "a"},
	{"type T Array <", "T Nope"}, {"type T Map <String", "T Nope"}, {"type T UnitValue <", "Decimal String Nope"}, {"type T Union <", "T Nope"},
	{"type T Struct", "x_a a"}, {"type T Struct {", "a"}, {"type T Struct { a", "Struct Enum Union Array T Nope"}, {"type T Struct { a String (", "required default values min"}, {"type T Struct { a Int8 (default", "true"}, {"type T Struct { a Struct { b Int32 \n}", "a"},
	{"type T Enum", "a"}, {"type T Enum {", "a"}, {"type T Enum { A", "a"}, {"type T Enum { A (", "x_a a"}, {"type T Union {", "a"}, {"type T Union { a T", "a"},
}

// tail gives n tokens of symbolic kind, and then the end of the source
func tail(words []string, n int) func() scanner.Token {
	i := 0
	return func() scanner.Token {
		i++
		if i > n {
			return scanner.Token{Type: scanner.EOF}
		}
		k := scanner.TokenType(rt.Int("kind", int(scanner.SYMBOL), int(scanner.OTHER)))
		t := scanner.Token{Type: k, Line: 1}
		switch k {
		case scanner.SYMBOL:
			t.Text = words[rt.Choice("word", len(words))]
		case scanner.STRING:
			t.Text = []string{"", "/a"}[rt.Choice("text", 2)]
		case scanner.NUMBER:
			t.Text = []string{"7", "-1.5", "12345678901234567890"}[rt.Choice("number", 3)]
		case scanner.LINE_COMMENT:
			t.Text = " c "
		}
		return t
	}
}

func check(lo, hi int) {
	o := openings[lo+rt.Choice("opening", hi-lo)]
	n := 4
	if rt.Thorough() {
		n = 5
	}
	scanner.More = tail(strings.Split(o.words, " "), n)
	m, err := sadl.ParseSadlString(o.text, sadl.NewData())
	rt.Assert((m == nil) == (err != nil), "parsing gives a model or an error")
	if err != nil {
		rt.Assert(err.Error() != "", "error has a message")
		rt.Reach("error")
	} else {
		rt.Reach("model")
	}
}

func V_directives() { check(0, 8) }

func V_operations() { check(8, 19) }

func V_http() { check(19, 33) }

func V_examples() { check(33, 41) }

func V_types() { check(41, len(openings)) }
