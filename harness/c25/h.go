package c25

import (
	"fmt"
	"os"
	"path/filepath"
	"text/template"

	sadl "github.com/boynton/sadl"
	"github.com/boynton/sadl/golang"
	"github.com/boynton/sadl/java"
	rt "github.com/boynton/sadl/zzrt"
)

//verif:bound files with contents of 0..3 symbolic bytes before and 0..3 symbolic bytes after (and one of 5000 bytes, larger than any buffer); overwriting asked for, refused, or not mentioned
//verif:bound faults: the target's directory is missing, the target is a directory, the device is full; a failed earlier step
//verif:bound whole exports (Go and Java: model, server, client and project files) over a directory in which any one of the generated files is there already

func conf(force int) (*sadl.Data, bool) {
	d := sadl.NewData()
	switch force {
	case 1:
		d.Put("force-overwrite", true)
		return d, true
	case 2:
		d.Put("force-overwrite", false)
	case 3:
		d.Put("force-overwrite", "false")
	}
	return d, false
}

func read(p string) (string, bool) {
	b, err := os.ReadFile(p)
	return string(b), err == nil
}

func content(n string) string {
	if rt.Choice(n+" long", 4) == 0 {
		b := make([]byte, 5000)
		for i := range b {
			b[i] = 'x'
		}
		return string(b) + rt.StrN(n, 1, 1, "ab")
	}
	return rt.StrN(n, 0, 3, "ab\n")
}

func V_WriteFile() {
	dir := rt.TempDir()
	c, force := conf(rt.Choice("force", 4))
	g := &sadl.Generator{Config: c}
	p := filepath.Join(dir, "out.txt")
	exists := rt.Choice("exists", 2) == 1
	old := ""
	if exists {
		old = rt.StrN("old", 0, 3, "ab\n")
		rt.Assume(os.WriteFile(p, []byte(old), 0644) == nil)
	}
	text := content("new")
	rt.Assert(g.FileExists(p) == exists, "a file exists when it is there")
	g.WriteFile(p, text)
	rt.Assert(g.Err == nil, "writing a file in a directory succeeds")
	got, ok := read(p)
	rt.Assert(ok, "the file is there afterwards")
	if exists && !force {
		rt.Assert(got == old, "an existing file is never overwritten unless that is asked for")
		rt.Reach("kept")
	} else {
		rt.Assert(got == text, "a written file has exactly the content given")
		rt.Reach("written")
	}
}

func V_Faults() {
	dir := rt.TempDir()
	c, _ := conf(1)
	g := &sadl.Generator{Config: c}
	text := rt.StrN("new", 1, 3, "ab\n")
	if rt.Choice("long", 2) == 1 {
		text = content("big")
		rt.Assume(text != "")
	}
	switch rt.Choice("fault", 3) {
	case 0:
		g.WriteFile(filepath.Join(dir, "missing", "out.txt"), text)
		rt.Assert(g.Err != nil, "writing in a missing directory is reported")
	case 1:
		p := filepath.Join(dir, "sub")
		rt.Assume(os.Mkdir(p, 0755) == nil)
		g.WriteFile(p, text)
		rt.Assert(g.Err != nil, "writing over a directory is reported")
	case 2:
		p := filepath.Join(dir, "full")
		if _, err := os.Stat("/dev/full"); err != nil {
			return
		}
		rt.Assume(os.Symlink("/dev/full", p) == nil)
		g.WriteFile(p, text)
		if g.Err == nil {
			_, err := os.Readlink(p)
			rt.Assert(err != nil, "a full device is reported")
		}
	}
}

// what is emitted between Begin and End is what End gives back, and an error makes the generator stop
func V_Emit() {
	g := &sadl.Generator{Config: sadl.NewData()}
	want := ""
	for i := 0; i < 1+rt.Choice("sections", 2); i++ {
		g.Begin()
		want = ""
		for k := 0; k < rt.Choice("parts", 3); k++ {
			s := rt.StrN("s", 0, 1, "ab\n")
			g.Emit(s)
			want += s
		}
		rt.Assert(g.End() == want, "the emitted text is kept, in order, nothing of an earlier section")
	}
	rt.Assert(g.Err == nil, "no error")
}

// V_Template: a template that cannot be parsed, or that fails when it is executed, before or after it has given some text
func V_Template() {
	g := &sadl.Generator{Config: sadl.NewData()}
	g.Begin()
	bad := []string{"{{.nope", "{{nope}}", "{{end}}", "{{.a}}", "{{index . 7}}", "{{fail}}", "{{template \"t2\"}}"}[rt.Choice("bad", 7)]
	if rt.Choice("late", 2) == 1 {
		bad = "text\n{{len .}}" + bad + "{{/* end */}}"
	}
	g.EmitTemplate("t", bad, []string{"x"}, template.FuncMap{"fail": func() (string, error) { return "", fmt.Errorf("no") }})
	rt.Assert(g.Err != nil, "a broken template is an error")
	rt.Assert(g.End() == "", "nothing is generated after an error")
}

func model() *sadl.Model {
	m, err := sadl.NewModel(&sadl.Schema{Name: "test", Namespace: "com.acme", Types: []*sadl.TypeDef{
		{Name: "Foo", TypeSpec: sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{{Name: "a", TypeSpec: sadl.TypeSpec{Type: "String"}}}}},
		{Name: "Bar", TypeSpec: sadl.TypeSpec{Type: "Enum", Elements: []*sadl.EnumElementDef{{Symbol: "X"}, {Symbol: "Y"}}}},
	}, Http: []*sadl.HttpDef{{Name: "getFoo", Method: "GET", Path: "/foo/{id}", Inputs: []*sadl.HttpParamSpec{
		{Path: true, StructFieldDef: sadl.StructFieldDef{Name: "id", Required: true, TypeSpec: sadl.TypeSpec{Type: "String"}}}},
		Expected: &sadl.HttpExpectedSpec{Status: 200, Outputs: []*sadl.HttpParamSpec{{StructFieldDef: sadl.StructFieldDef{Name: "body", TypeSpec: sadl.TypeSpec{Type: "Foo"}}}}}}}})
	rt.Assert(err == nil, "model")
	return m
}

func export(which int, dir string, c *sadl.Data) error {
	if which == 0 {
		return golang.Export(model(), dir, c)
	}
	return java.Export(model(), dir, c)
}

func V_Export() {
	which := rt.Choice("language", 2)
	var files []string
	if which == 0 {
		files = []string{"x/test_model.go", "x/test_server.go", "x/test_client.go"}
	} else {
		files = []string{"pom.xml"}
		for _, n := range []string{"model/Foo", "model/Bar", "model/GetFooRequest", "model/GetFooResponse", "model/Test", "server/TestResources", "client/ClientConfig", "client/TestClient"} {
			files = append(files, "src/main/java/x/"+n+".java")
		}
	}
	k := rt.Choice("existing", len(files)+1)
	base := rt.TempDir()
	mk := func(force int) *sadl.Data {
		c, _ := conf(force)
		c.Put("package", "x")
		c.Put("server", true)
		c.Put("client", true)
		c.Put("maven", true)
		return c
	}
	// a fresh directory first, for what the complete files look like
	fresh := filepath.Join(base, "fresh")
	rt.Assert(export(which, fresh, mk(0)) == nil, "an export in a fresh directory succeeds")
	dir := filepath.Join(base, "dir")
	old := rt.StrN("old", 1, 1, "ab")
	if k < len(files) {
		p := filepath.Join(dir, files[k])
		rt.Assume(os.MkdirAll(filepath.Dir(p), 0755) == nil)
		rt.Assume(os.WriteFile(p, []byte(old), 0644) == nil)
	}
	force := rt.Choice("force", 2)
	err := export(which, filepath.Join(base, "dir"), mk(force))
	rt.Assert(err == nil, "an export over existing files succeeds")
	for i, f := range files {
		got, ok := read(filepath.Join(dir, f))
		want, ok2 := read(filepath.Join(fresh, f))
		rt.Assert(ok && ok2, "every file is generated")
		if i == k && force == 0 {
			rt.Assert(got == old, "an export never overwrites a file unless that is asked for")
		} else {
			rt.Assert(got == want, "an export writes every other file completely")
		}
	}
}

func V_ExportBlocked() {
	which := rt.Choice("language", 2)
	base := rt.TempDir()
	f := filepath.Join(base, "file")
	rt.Assume(os.WriteFile(f, []byte("x"), 0644) == nil)
	c, _ := conf(1)
	c.Put("package", "x")
	err := export(which, filepath.Join(f, "out"), c)
	rt.Assert(err != nil, "an export that cannot make its directories is an error")
	got, _ := read(f)
	rt.Assert(got == "x", "the file in the way is left alone")
}
