package c36

import (
	"errors"
	"os"

	"github.com/boynton/scanner"

	sadl "github.com/boynton/sadl"
	rt "github.com/boynton/sadl/zzrt"
)

//verif:parser
//verif:assume boynton/scanner is not available offline: it is modelled by /verif/stubs/scanner, which scans the text
//verif:assume an extension takes what belongs to its directive and no more; what it takes is an identifier, a compound identifier, a string, options, a type, or tokens it reads one by one
//verif:bound sources of up to 3 statements (thorough: 4) (types, directives of one or two extensions with a comment before or behind, a version) in every order, in a string, a file, or a file that is included; extension names and words of 1..2 symbolic letters
//verif:bound an error from the first or second directive, from the validation of either extension, or none; every order of the extensions and of the map they are kept in

// ext is an extension whose directive is its name and one thing
type ext struct {
	name     string
	form     int
	heard    []string
	comments []string
	badParse int // the directive that fails, counted from 1
	badModel bool
	checked  int
	types    int
	err      error
}

func (e *ext) Name() string { return e.name }

func (e *ext) Result() interface{} { return e.heard }

func (e *ext) Parse(p *sadl.Parser) error {
	e.comments = append(e.comments, p.CurrentComment())
	var s string
	var err error
	switch e.form {
	case 0:
		s, err = p.ExpectIdentifier()
	case 1:
		s, err = p.ExpectCompoundIdentifier()
	case 2:
		s, err = p.ExpectString()
	case 3:
		var o *sadl.Options
		o, err = p.ParseOptions(e.name, []string{"name"})
		if err == nil {
			s = o.Name + o.Annotations["x_a"]
		}
	case 4:
		var ts *sadl.TypeSpec
		ts, _, _, err = p.ParseTypeSpec("")
		if err == nil {
			s = ts.Type + ts.Items
		}
	case 5: // tokens up to the end of the line, which is not taken
		for {
			tok := p.GetToken()
			if tok == nil {
				break
			}
			if tok.Type == scanner.NEWLINE {
				p.UngetToken()
				break
			}
			if tok.Type == scanner.SYMBOL {
				s += tok.Text
			}
		}
	}
	if err != nil {
		return err
	}
	e.heard = append(e.heard, s)
	if len(e.heard) == e.badParse {
		return e.err
	}
	return nil
}

func (e *ext) Validate(p *sadl.Parser) error {
	e.checked++
	if p.Model() != nil {
		e.types = len(p.Model().Types)
	}
	if e.badModel {
		return e.err
	}
	return nil
}

func letters(n string) string { return rt.StrN(n, 1, 2, "abC") }

// text of the thing an extension of a form takes, and what it hears
func (e *ext) thing(w string) (string, string) {
	switch e.form {
	case 1:
		return w + ".b", w + ".b"
	case 2:
		return "\"" + w + " c\"", w + " c"
	case 3:
		return "(name=" + w + ", x_a=\"y\")", w + "y"
	case 4:
		return "Array<" + w + ">", "Array" + w
	case 5:
		return w + " = [ " + w, w + w
	}
	return w, w
}

func parse(text string, l ...sadl.Extension) (*sadl.Model, error) {
	rt.Observe("text", text)
	m, err := sadl.ParseSadlString(text, sadl.NewData(), l...)
	rt.Assert((m == nil) == (err != nil), "a model or an error")
	return m, err
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = rt.And(ok, a[i] == b[i])
	}
	return ok
}

// V_directives: each extension is given its own directives, in order, and nothing else is disturbed
func V_directives() {
	a := &ext{name: "aa" + rt.StrN("name", 1, 1, "abc"), form: rt.Choice("form", 6)}
	b := &ext{name: "bb", form: 0}
	var types, heardA, heardB, comA, comB []string
	text := ""
	most := 3
	if rt.Thorough() {
		most = 4
	}
	n := 1 + rt.Choice("statements", most)
	for i := 0; i < n; i++ {
		d := string([]byte{byte('0' + i)})
		com := ""
		switch rt.Choice("statement"+d, 5) {
		case 0:
			types = append(types, "T"+d)
			text += "type T" + d + " String\n"
		case 1:
			com = "c" + d
			text += "//" + com + "\n"
			fallthrough
		case 2:
			t, h := a.thing(letters("word" + d))
			text += a.name + " " + t + "\n"
			heardA = append(heardA, h)
			comA = append(comA, com)
		case 3:
			w := letters("word" + d)
			text += "bb " + w + "\n\n"
			heardB = append(heardB, w)
			comB = append(comB, "")
		case 4:
			text += "version \"1\"; \n"
		}
	}
	l := []sadl.Extension{a, b}
	if rt.Choice("order", 2) == 1 {
		l = []sadl.Extension{b, a}
	}
	if rt.Choice("file", 2) == 1 {
		f := rt.TempDir() + "/m.sadl"
		rt.Assert(os.WriteFile(f, []byte(text), 0644) == nil, "write")
		m, err := sadl.ParseSadlFile(f, sadl.NewData(), l...)
		rt.Assert(err == nil, "the source is accepted")
		result(m, a, b)
	} else {
		m, err := parse(text, l...)
		rt.Assert(err == nil, "the source is accepted")
		result(m, a, b)
		rt.Assert(len(m.Types) == len(types), "the types are in the model")
		for i := range types {
			rt.Assert(m.Types[i].Name == types[i], "in order")
		}
	}
	rt.Assert(rt.And(same(a.heard, heardA), same(b.heard, heardB)), "each extension is given its directives, in order")
	rt.Assert(same(a.comments, comA) && same(b.comments, comB), "with the comment before each")
	rt.Assert(a.checked == 1 && b.checked == 1, "each validates once")
	rt.Assert(a.types == len(types) && b.types == len(types), "when the model is complete")
	rt.Reach("parsed")
}

func result(m *sadl.Model, l ...*ext) {
	rt.Assert(len(m.Extensions) == len(l), "there is a result for each extension")
	for _, e := range l {
		r, ok := m.Extensions[e.name].([]string)
		rt.Assert(ok && same(r, e.heard), "each under its name, of the whole source")
	}
}

// V_errors: an error of an extension is an error of the parser
func V_errors() {
	rt.MapOrder(true)
	a := &ext{name: "aa", err: errors.New("A")}
	b := &ext{name: "bb", err: errors.New("B")}
	a.badParse = rt.Choice("a fails", 3)
	b.badParse = rt.Choice("b fails", 2)
	a.badModel = rt.Choice("a finds", 2) == 1
	b.badModel = rt.Choice("b finds", 2) == 1
	_, err := parse("aa x\ntype T String\nbb y\naa z\n", a, b)
	switch {
	case a.badParse == 1:
		rt.Assert(err == a.err && len(b.heard) == 0, "the first directive that fails ends the parsing")
	case b.badParse == 1:
		rt.Assert(err == b.err && len(a.heard) == 1, "the first directive that fails ends the parsing")
	case a.badParse == 2:
		rt.Assert(err == a.err, "the first directive that fails ends the parsing")
	case a.badModel && b.badModel:
		rt.Assert(err == a.err || err == b.err, "what an extension finds wrong with the model is an error")
	case a.badModel:
		rt.Assert(err == a.err, "what an extension finds wrong with the model is an error")
	case b.badModel:
		rt.Assert(err == b.err, "what an extension finds wrong with the model is an error")
	default:
		rt.Assert(err == nil, "nothing else is")
		rt.Reach("no error")
		return
	}
	rt.Reach("error")
}

// V_names: directives of no extension, and extensions of one name, are errors
func V_names() {
	a, b := letters("a"), letters("b")
	w := letters("directive")
	_, err := parse("type T String\n"+w+" x\n", &ext{name: a}, &ext{name: b})
	rt.Assert((err != nil) == rt.Or(a == b, rt.And(w != a, w != b)), "a directive that is neither one of the parser nor of one extension is an error")
	rt.Reach("names")
}

// V_none: without extensions there is nothing about them in the model
func V_none() {
	m, err := parse("type T String\n")
	rt.Assert(err == nil && len(m.Extensions) == 0, "no extensions, no results")
	_, err = parse(letters("w") + " x\n")
	rt.Assert(err != nil, "and no directives of theirs")
}

// V_include: extensions work in files that are included, too
func V_include() {
	rt.MapOrder(true)
	dir := rt.TempDir()
	inc, inner := dir+"/a.sadl", dir+"/b.sadl"
	a := &ext{name: "aa", err: errors.New("A")}
	b := &ext{name: "bb", form: 2, err: errors.New("B")}
	a.badParse = rt.Choice("a fails", 5)
	b.badModel = rt.Choice("b finds", 2) == 1
	w := letters("w")
	text := "aa inc" + w + "\ntype U Int32\nbb \"inc\"\n"
	deep := rt.Choice("deep", 2) == 1
	want := []string{"first", "inc" + w, "last"}
	if deep {
		text = "include \"" + inner + "\"\n" + text
		rt.Assert(os.WriteFile(inner, []byte("type V Bool\naa inner\n"), 0644) == nil, "write")
		want = []string{"first", "inner", "inc" + w, "last"}
	}
	rt.Assert(os.WriteFile(inc, []byte(text), 0644) == nil, "write")
	m, err := parse("aa first\ninclude \""+inc+"\"\naa last\ntype T String\n", a, b)
	if a.badParse >= 1 && a.badParse <= len(want) {
		rt.Assert(err == a.err, "the first directive that fails ends the parsing")
		rt.Reach("included error")
		return
	}
	if b.badModel {
		rt.Assert(err == b.err, "what an extension finds wrong with the model is an error")
		return
	}
	rt.Assert(err == nil, "the source is accepted")
	result(m, a, b)
	rt.Assert(rt.And(same(a.heard, want), same(b.heard, []string{"inc"})), "each extension is given its directives, in order")
	rt.Assert(a.checked == 1 && b.checked == 1 && a.types == len(m.Types), "each validates once, when the model is complete")
	rt.Reach("included")
}
