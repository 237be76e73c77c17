package c35

import (
	"os"
	"path/filepath"
	"strings"

	sadl "github.com/boynton/sadl"
	"github.com/boynton/sadl/golang"
	"github.com/boynton/sadl/graphql"
	"github.com/boynton/sadl/httptrace"
	"github.com/boynton/sadl/java"
	"github.com/boynton/sadl/openapi"
	"github.com/boynton/sadl/smithy"
	"github.com/boynton/sadl/zzh/sadlcmd"
	rt "github.com/boynton/sadl/zzrt"
)

//verif:parser
//verif:cmd
//verif:assume boynton/scanner and boynton/smithy are not available offline: /verif/stubs stands in for them; the text of the Smithy language is left out
//verif:assume the command is run as a function: a copy of cmd/sadl made at every run, in which os.Exit ends the command instead of the process; swagger-ui is in C37
//verif:bound a JSON file with any one of the four version keys, of 0..2 symbolic characters, with and without the parts that its format needs, and with every value of -t
//verif:bound every list of up to 2 (thorough: 3) of 21 files and directories: two of each format, missing, not JSON, of no known format, of an unknown extension; each with no -t and three values of it
//verif:bound -n, -ns, -b and -s given or not with symbolic values of 1..2 characters, for input of each format that has or lacks them
//verif:bound every generator with and without -f, config file (JSON, YAML, default, missing, not readable), up to 2 -x options; headers of 1..2 symbolic characters

func write(f, text string) {
	rt.Assert(os.MkdirAll(filepath.Dir(f), 0755) == nil, "a directory")
	rt.Assert(os.WriteFile(f, []byte(text), 0644) == nil, "a file")
}

// the formats, with a text that has a type of the given name
var formats = []string{"sadl", "sadl-json", "smithy", "openapi", "openapi-yaml", "swagger", "graphql"}

func text(format, name string) (string, string) {
	switch format {
	case "sadl":
		return ".sadl", "type " + name + " Struct {\n  x String\n}\n"
	case "sadl-json":
		return ".json", `{"sadl": "1", "types": [{"name": "` + name + `", "type": "Struct", "fields": [{"name": "x", "type": "String"}]}]}`
	case "smithy":
		return ".json", `{"smithy": "2", "shapes": {"s#` + name + `": {"type": "structure", "members": {"x": {"target": "smithy.api#String"}}}}}`
	case "openapi":
		return ".json", `{"openapi": "3.0.0", "info": {"title": "t", "version": "1"}, "paths": {}, "components": {"schemas": {"` + name + `": {"type": "object", "properties": {"x": {"type": "string"}}}}}}`
	case "openapi-yaml":
		return ".yaml", "openapi: 3.0.0\ninfo:\n  title: t\n  version: \"1\"\npaths: {}\ncomponents:\n  schemas:\n    " + name + ":\n      type: object\n      properties:\n        x:\n          type: string\n"
	case "swagger":
		return ".json", `{"swagger": "2.0", "info": {"title": "t", "version": "1"}, "paths": {}, "definitions": {"` + name + `": {"type": "object", "properties": {"x": {"type": "string"}}}}}`
	case "graphql":
		return ".graphql", "type " + name + " { x: String }\n"
	}
	panic(format)
}

// kind is what the command calls the format
func kind(format string) string {
	return strings.Split(format, "-")[0]
}

// names gives the structures of a model
func names(m *sadl.Model) string {
	var l []string
	for _, td := range m.Types {
		if td.Type == "Struct" && len(td.Fields) == 1 && td.Fields[0].Name == "x" && td.Fields[0].Type == "String" {
			l = append(l, td.Name)
		} else {
			rt.Assert(td.Name == "ID", "no other type")
		}
	}
	return strings.Join(l, ",")
}

var only = []string{"", "sadl", "smithy", "openapi", "swagger", "graphql", "raml"}

// V_detect: the format of a JSON file is a matter of its content
func V_detect() {
	f := rt.TempDir() + "/m.json"
	key := []string{"sadl", "smithy", "openapi", "swagger", "raml"}[rt.Choice("key", 5)]
	v := rt.StrN("version", 0, 3, "2.0")
	s := `{"` + key + `": "` + v + `"`
	info := rt.Bool("info")
	if info {
		s += `, "info": {"title": "t", "version": "1"}`
	}
	paths := rt.Bool("paths")
	if paths {
		s += `, "paths": {}`
	}
	// members that belong to another format say nothing
	extra := rt.Choice("extra", 6)
	s += []string{"", `, "types": [{"name": "A", "type": "Struct", "fields": [{"name": "x", "type": "String"}]}]`, `, "shapes": {"s#A": {"type": "structure", "members": {"x": {"target": "smithy.api#String"}}}}`,
		`, "definitions": {"A": {"type": "object", "properties": {"x": {"type": "string"}}}}`, `, "components": {"schemas": {"A": {"type": "object", "properties": {"x": {"type": "string"}}}}}`, `, "name": "n", "version": "1"`}[extra]
	write(f, s+"}")
	conf := sadl.NewData()
	t := only[rt.Choice("type", len(only))]
	if t != "" {
		conf.Put("type", t)
	}
	ok := false
	switch key {
	case "sadl", "smithy":
		ok = v != ""
	case "openapi":
		ok = v != "" && info && paths
	case "swagger":
		ok = v == "2.0" && info
		rt.Assume(info)
	}
	if t != "" && t != key {
		ok = false
	}
	m, err := sadlcmd.ImportFiles([]string{f}, conf)
	rt.Assert((err == nil) == ok, "a file is read exactly when it is of a format that is wanted")
	rt.Assert((m == nil) == (err != nil), "a model or an error")
	if err == nil {
		want := ""
		if key == []string{"", "sadl", "smithy", "swagger", "openapi", ""}[extra] {
			want = "A"
		}
		rt.Assert(names(m) == want, "the types of that format are in the model, and nothing else")
		rt.Reach("recognized")
	} else {
		rt.Reach("not recognized")
	}
}

type input struct {
	path   string
	format string // "" if it is not one, or a directory
	bad    bool   // it cannot be read, whatever is wanted
	below  []int  // the inputs in a directory that are files of a known extension
}

// V_files: any files and directories
func V_files() {
	d := rt.TempDir()
	var ins []input
	for _, f := range formats {
		for _, n := range []string{"A", "B"} {
			ext, s := text(f, n)
			p := d + "/" + f + "/" + strings.ToLower(n) + ext
			write(p, s)
			ins = append(ins, input{path: p, format: f})
		}
	}
	file := func(p, s string) {
		write(d+"/"+p, s)
		ins = append(ins, input{path: d + "/" + p})
	}
	file("bad/a.json", "{\"sadl\": ")
	file("other/a.json", "{\"raml\": 1}")
	file("txt/a.txt", "type A String\n")
	ins[len(ins)-1].bad = true
	ins = append(ins, input{path: d + "/none.sadl", bad: true}, input{path: d + "/none", bad: true})
	// directories: two files of which one is below, one file with others that are of no known format, and none
	_, s := text("smithy", "A")
	write(d+"/dir/a.json", s)
	_, s = text("smithy", "B")
	write(d+"/dir/sub.json/b.json", s)
	write(d+"/dir/read.me", "type A String\n")
	ins = append(ins, input{path: d + "/dir", below: []int{4, 5}})
	_, s = text("sadl", "A")
	write(d+"/mixed/a.sadl", s)
	write(d+"/mixed/b.json", "[1")
	write(d+"/mixed/c.json", "{\"raml\": 1}")
	ins = append(ins, input{path: d + "/mixed", below: []int{0}})

	n := 1 + rt.Choice("inputs", 2)
	if rt.Thorough() {
		n = 1 + rt.Choice("more", 3)
	}
	conf := sadl.NewData()
	t := []string{"", "sadl", "smithy", "raml"}[rt.Choice("type", 4)]
	if t != "" {
		conf.Put("type", t)
	}
	var args []string
	bad := false
	var read []int
	for i := 0; i < n; i++ {
		in := ins[rt.Choice([]string{"first", "second", "third"}[i], len(ins))]
		args = append(args, in.path)
		if in.bad || (t == "" && in.format == "" && in.below == nil) {
			bad = true
		}
		if in.format != "" {
			for k := range ins {
				if ins[k].path == in.path {
					read = append(read, k)
				}
			}
		}
	}
	// files in directories come after those that are named
	for _, a := range args {
		for _, in := range ins {
			if in.path == a {
				read = append(read, in.below...)
			}
		}
	}
	var files []string
	want := ""
	format := ""
	for _, k := range read {
		f := kind(ins[k].format)
		if t != "" && t != f {
			continue
		}
		if format != "" && format != f {
			bad = true
		}
		format = f
		name := strings.ToUpper(filepath.Base(ins[k].path)[:1])
		for _, g := range files {
			if g == ins[k].path {
				bad = true
			}
		}
		files = append(files, ins[k].path)
		if want != "" {
			want += ","
		}
		want += name
	}
	if len(files) == 0 || (len(files) > 1 && format != "smithy") {
		bad = true
	}
	// the same shape twice is the business of the Smithy library
	if format == "smithy" && strings.Count(want, "A") < 2 && strings.Count(want, "B") < 2 || !bad {
		rt.Reach("several")
	} else if format == "smithy" {
		rt.Assume(false)
	}
	m, err := sadlcmd.ImportFiles(args, conf)
	rt.Assert((err != nil) == bad, "an error exactly when the input cannot be read, or is of no format or of several ones")
	rt.Assert((m == nil) == (err != nil), "a model or an error")
	if err == nil {
		got := names(m)
		rt.Assert(got == want || (want == "B,A" && got == "A,B"), "every file is in the model")
		rt.Reach("read")
	}
	rt.Reach("done")
}

func direct(format, f string) *sadl.Model {
	conf := sadl.NewData()
	var m *sadl.Model
	var err error
	switch format {
	case "sadl":
		m, err = sadl.ParseSadlFile(f, conf)
	case "sadl-json":
		m, err = sadl.LoadModel(f)
	case "smithy":
		m, err = smithy.Import([]string{f}, conf)
	case "openapi", "openapi-yaml":
		m, err = openapi.Import([]string{f}, conf)
	case "swagger":
		m, err = openapi.ImportSwagger([]string{f}, conf)
	case "graphql":
		m, err = graphql.Import([]string{f}, conf)
	}
	rt.Assert(err == nil && m != nil, "the importer reads it")
	return m
}

// full is a text that has a name, namespace and base where its format has them
func full(format string) string {
	_, s := text(format, "A")
	switch format {
	case "sadl":
		return "name nm\nnamespace n.s\nbase \"/base\"\n" + s
	case "sadl-json":
		return `{"name": "nm", "namespace": "n.s", "base": "/base", ` + s[1:]
	case "smithy":
		return strings.Replace(s, `"shapes": {`, `"shapes": {"s#Svc": {"type": "service", "version": "1"}, "s#Svc2": {"type": "service", "version": "2"}, `, 1)
	}
	return s
}

// V_options: name, namespace and base are those of the options, and else what the importer says
func V_options() {
	d := rt.TempDir()
	format := formats[rt.Choice("format", len(formats))]
	ext, s := text(format, "A")
	var args []string
	version := ""
	if rt.Bool("full") {
		s = full(format)
		if format == "smithy" {
			version = []string{"1", "2"}[rt.Choice("service", 2)]
			args = append(args, "-s", []string{"s#Svc", "s#Svc2"}[rt.Choice("service", 2)])
			rt.Assume((version == "1") == (args[1] == "s#Svc"))
		}
	}
	f := d + "/the-model" + ext
	write(f, s)
	var want *sadl.Model
	if version == "" {
		want = direct(format, f)
	} else {
		conf := sadl.NewData()
		conf.Put("service", args[1])
		m, err := smithy.Import([]string{f}, conf)
		rt.Assert(err == nil && m.Version == version, "the service asked for")
		want = m
	}
	add := func(o string, p *string, chars string) {
		if rt.Bool("has" + o) {
			v := rt.StrN("value"+o, 1, 2, chars)
			args = append(args, o, v)
			*p = v
		}
	}
	add("-n", &want.Name, "aA")
	add("-ns", &want.Namespace, "aA.")
	add("-b", &want.Base, "/a")
	cf := d + "/conf.json"
	write(cf, "{}")
	args = append(args, "-c", cf, "-g", "json", f)
	code := 0
	out := rt.Output(func() { code = sadlcmd.Run(args...) })
	rt.Assert(code == 0, "the command succeeds")
	rt.Assert(out == sadl.Pretty(want)+"\n", "the model is what the importer reads, with the name, namespace and base asked for")
	rt.Reach("done")
}

// V_again: the JSON of a model is input
func V_again() {
	d := rt.TempDir()
	format := formats[rt.Choice("format", len(formats))]
	ext, s := text(format, rt.StrN("name", 1, 2, "XY"))
	f := d + "/the-model" + ext
	write(f, s)
	cf := d + "/conf.json"
	write(cf, "{}")
	code := 0
	out := rt.Output(func() { code = sadlcmd.Run("-c", cf, "-g", "json", f) })
	rt.Assert(code == 0, "the command succeeds")
	f = d + "/again.json"
	write(f, out)
	again := rt.Output(func() { code = sadlcmd.Run("-c", cf, "-g", "json", f) })
	rt.Assert(code == 0, "the command reads what it wrote")
	rt.Assert(out == again, "the model is the same")
	f = d + "/again.sadl"
	src := rt.Output(func() { code = sadlcmd.Run("-c", cf, "-n", "nm", f[:len(f)-5]+".json") })
	rt.Assert(code == 0, "the command succeeds")
	write(f, src)
	src2 := rt.Output(func() { code = sadlcmd.Run("-c", cf, f) })
	rt.Assert(code == 0, "the command reads the source it wrote")
	rt.Assert(src == src2, "the source is the same")
	rt.Reach("done")
}

const service = `name svc
namespace n.s
version "1"
type T Struct {
  x String (required)
  t Timestamp
}
http GET "/t/{id}" (action=getT) {
  id String
  expect 200 {
    body T
  }
}
example GetTRequest (name=e) {
  "id": "i"
}
example GetTResponse (name=e) {
  "body": {"x": "y"}
}
`

// generate is what the generator does with the model
func generate(gen string, m *sadl.Model, dir string, conf *sadl.Data) (string, error) {
	var err error
	out := rt.Output(func() {
		switch gen {
		case "json", "sadl-ast":
			os.Stdout.WriteString(sadl.Pretty(m) + "\n")
		case "sadl":
			os.Stdout.WriteString(sadl.DecompileSadl(m) + "\n")
		case "smithy-ast":
			err = smithy.Export(m, dir, conf, true)
		case "openapi":
			err = openapi.Export(m, conf)
		case "graphql":
			err = graphql.Export(m, conf)
		case "java", "java-model", "java-server", "java-client":
			if gen == "java-server" {
				conf.Put("server", true)
			}
			if gen == "java-client" {
				conf.Put("client", true)
			}
			err = java.Export(m, dir, conf)
		case "go", "go-model", "go-server", "go-client":
			if gen == "go-server" {
				conf.Put("server", true)
			}
			if gen == "go-client" {
				conf.Put("client", true)
			}
			err = golang.Export(m, dir, conf)
		case "http-trace":
			err = httptrace.Export(m, conf)
		}
	})
	return out, err
}

var generators = []string{"json", "sadl-ast", "sadl", "smithy-ast", "openapi", "graphql", "http-trace",
	"java", "java-model", "java-server", "java-client", "go", "go-model", "go-server", "go-client"}

// tree gives the files below a directory, and their content
func tree(d string) ([]string, []string) {
	var fs, cs []string
	filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			b, err := os.ReadFile(p)
			rt.Assert(err == nil, "the file is there")
			fs = append(fs, p[len(d):])
			cs = append(cs, string(b))
		}
		return nil
	})
	return fs, cs
}

func same(a, b string) {
	fa, ca := tree(a)
	fb, cb := tree(b)
	rt.Assert(len(fa) == len(fb), "the same files")
	for i := range fa {
		if i < len(fb) {
			rt.Assert(fa[i] == fb[i], "the same files")
			rt.Assert(ca[i] == cb[i], "the same content")
		}
	}
}

// V_generators: every generator does what it does, with the options of the config file and of the command
func V_generators() {
	rt.Steps(60000000)
	d := rt.TempDir()
	gen := generators[rt.Choice("generator", len(generators))]
	f := d + "/the-model.sadl"
	write(f, service)
	m, err := sadl.ParseSadlFile(f, sadl.NewData())
	rt.Assert(err == nil, "the source is read")
	entry := gen
	for _, k := range []string{"java", "go", "smithy"} {
		if strings.HasPrefix(gen, k) {
			entry = k
		}
	}
	conf := sadl.NewData()
	args := []string{"-g", gen, "-o", d + "/one"}
	h := rt.StrN("header", 1, 2, "/=")
	cf := d + "/conf.json"
	switch rt.Choice("config", 6) {
	case 0:
		write(cf, "{}")
		args = append(args, "-c", cf)
	case 1:
		write(cf, `{"`+entry+`": {"header": "`+h+`", "namespace": "o.p", "custom-scalars": {"Timestamp": "Instant"}}, "other": {"header": "no"}}`)
		args = append(args, "-c", cf)
		conf.Put("header", h)
		conf.Put("namespace", "o.p")
		conf.Put("custom-scalars", map[string]interface{}{"Timestamp": "Instant"})
	case 2:
		cf = d + "/conf.yaml"
		write(cf, entry+":\n  header: \"// x\"\n  namespace: o.p\n  custom-scalars:\n    Timestamp: Instant\nother:\n  header: no\n")
		args = append(args, "-c", cf)
		conf.Put("header", "// x")
		conf.Put("namespace", "o.p")
		conf.Put("custom-scalars", map[string]interface{}{"Timestamp": "Instant"})
	case 3:
		os.Setenv("HOME", d)
		write(d+"/.sadl-config.yaml", entry+":\n  header: \"// y\"\n")
		conf.Put("header", "// y")
	case 4:
		os.Setenv("HOME", d)
		os.Remove(d + "/.sadl-config.yaml")
	case 5:
		write(cf, `{"`+entry+`": {"header": "no", "namespace": "no"}}`)
		args = append(args, "-c", cf, "-x", "header="+h, "-x", "namespace=o.p", "-x", "lombok")
		conf.Put("header", h)
		conf.Put("namespace", "o.p")
		conf.Put("lombok", true)
	}
	force := rt.Bool("force")
	if force {
		args = append(args, "-f")
	}
	conf.Put("force-overwrite", force)
	code := -1
	out := rt.Output(func() { code = sadlcmd.Run(append(args, f)...) })
	rt.Assert(code == 0, "the command succeeds")
	want, err := generate(gen, m, d+"/two", conf)
	rt.Assert(err == nil, "the generator succeeds")
	rt.Assert(strings.Replace(out, d+"/one", d+"/two", -1) == want, "the output of the generator")
	same(d+"/one", d+"/two")
	if entry == "java" || entry == "go" {
		rt.Reach("files")
	} else {
		rt.Assert(out != "", "some output")
		rt.Reach("text")
	}
}

// V_overwrite: a file that is there stays, unless -f is given
func V_overwrite() {
	rt.Steps(60000000)
	d := rt.TempDir()
	f := d + "/the-model.sadl"
	write(f, service)
	cf := d + "/conf.json"
	write(cf, "{}")
	gen := []string{"go", "java"}[rt.Choice("generator", 2)]
	args := []string{"-c", cf, "-g", gen, "-o", d + "/one"}
	rt.Output(func() { rt.Assert(sadlcmd.Run(append(args, f)...) == 0, "the command succeeds") })
	fs, cs := tree(d + "/one")
	rt.Assert(len(fs) > 0, "some files")
	n := rt.Choice("file", len(fs))
	write(d+"/one"+fs[n], "mine")
	force := rt.Bool("force")
	if force {
		args = append(args, "-f")
	}
	rt.Output(func() { rt.Assert(sadlcmd.Run(append(args, f)...) == 0, "the command succeeds") })
	fs2, cs2 := tree(d + "/one")
	rt.Assert(len(fs2) == len(fs), "the same files")
	for i := range fs2 {
		if i == n && !force {
			rt.Assert(cs2[i] == "mine", "a file that is there stays")
		} else {
			rt.Assert(cs2[i] == cs[i], "the same content")
		}
	}
	rt.Reach("done")
}

// V_failures: whatever goes wrong, the status says so
func V_failures() {
	d := rt.TempDir()
	f := d + "/m.sadl"
	write(f, service)
	cf := d + "/conf.json"
	write(cf, "{}")
	gen := "json"
	bad := true
	switch rt.Choice("case", 10) {
	case 0:
		bad = false
	case 1:
		gen = rt.StrN("generator", 1, 2, "gox")
		rt.Assume(gen != "go")
	case 2:
		cf = d + "/none.json"
	case 3:
		write(cf, "{\"go\": ")
	case 4:
		cf = d + "/none.yaml"
		write(cf, "go: [\n")
	case 5:
		f = d + "/none.sadl"
	case 6:
		write(f, "type T "+rt.StrN("type", 1, 2, "xy")+"\n")
	case 7:
		gen = "http-trace"
		write(f, strings.Replace(service, "\"id\": \"i\"", "", 1))
	case 8: // the output directory is a file
		gen = []string{"go", "java"}[rt.Choice("generator", 2)]
		write(d+"/one", "")
	case 9:
		gen = "smithy-ast"
		write(f, service+"type GetT String\n") // two shapes of that name
	}
	code := -1
	rt.Output(func() { code = sadlcmd.Run("-c", cf, "-g", gen, "-o", d+"/one", f) })
	rt.Assert((code != 0) == bad, "the status says whether the command succeeded")
	if bad {
		rt.Reach("failure")
	} else {
		rt.Reach("success")
	}
}
