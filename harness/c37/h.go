package c37

import (
	"errors"
	"os"
	"strconv"
	"strings"

	"github.com/boynton/sadl/zzh/fake/http"
	"github.com/boynton/sadl/zzh/fake/zip"
	"github.com/boynton/sadl/zzh/sadlcmd"
	rt "github.com/boynton/sadl/zzrt"
)

//verif:parser
//verif:cmd
//verif:assume boynton/scanner and boynton/smithy are not available offline: /verif/stubs stands in for them
//verif:assume the command is run as a function: a copy of cmd/sadl made at every run, in which os.Exit ends the command; net/http, archive/zip, os/exec and log are stand-ins with the same interface: http.ServeContent seeks to the end and to the start and then reads, as the real one does
//verif:bound two or three requests (the document, the index, a file, an unknown path each), the second one running as a whole at any one of the points where the first one reads or seeks (a third one for the document within the second); chunks of 24 bytes
//verif:bound paths of 1..4 symbolic characters, alone and before .json; model names of 0..2, contents of 0..2 and versions of 0..2 symbolic characters; the default URL 0..2 times in the index

const petstore = "https://petstore.swagger.io/v2/swagger.json"

func write(f, text string) {
	rt.Assert(os.WriteFile(f, []byte(text), 0644) == nil, "a file")
}

func model(dir, name string) string {
	f := dir + "/m.json"
	n := ""
	if name != "" {
		n = `"name": "` + name + `", `
	}
	write(f, `{"sadl": "1", `+n+`"types": [{"name": "T", "type": "Struct", "fields": [{"name": "x", "type": "String"}]}]}`)
	return f
}

func env(dir, version string) {
	os.Setenv("HOME", dir)
	os.Setenv("DOWNLOAD_DIRECTORY", dir)
	os.Setenv("SWAGGER_RELEASE", version)
}

// serve runs the command, and calls use with what is served
func serve(f string, use func(h http.Handler)) (served bool, code int) {
	http.DefaultServeMux = http.NewServeMux()
	http.Listening = func(addr string, h http.Handler) error {
		rt.Assert(addr == ":8080", "at the address that the command says")
		served = true
		if use != nil {
			use(h)
		}
		return errors.New("server closed")
	}
	rt.Output(func() { code = sadlcmd.Run("-g", "swagger-ui", f) })
	return served, code
}

// document is what the openapi generator writes
func document(f string) string {
	code := 0
	doc := rt.Output(func() { code = sadlcmd.Run("-g", "openapi", f) })
	rt.Assert(code == 0, "the model is exported to OpenAPI")
	return strings.TrimSuffix(doc, "\n")
}

func none(url string) (*http.Response, error) { return nil, errors.New("no network") }

func paths(name string) []string {
	return []string{"/" + name + ".json", "/index.html", "/", "/a.js", "/zz"}
}

// V_together: requests that are served at the same time get what each gets alone
func V_together() {
	dir := rt.TempDir()
	f := model(dir, "api")
	doc := document(f)
	env(dir, "v1")
	http.Remote = none
	long := strings.Repeat("0123456789", 6)
	write(dir+"/v1.zip", zip.Text("u-1/README", "r", "u-1/dist/", "", "u-1/dist/index.html", "<url='"+petstore+"'>"+long, "u-1/dist/a.js", long+"a"))
	ps := paths("api")
	alone := func(i int) (int, string) {
		switch i {
		case 0:
			return 200, doc
		case 1, 2:
			return 200, "<url='api.json'>" + long
		case 3:
			return 200, long + "a"
		}
		return 404, ""
	}
	http.Chunk = 24
	p, q := rt.Choice("first", len(ps)), rt.Choice("second", len(ps))
	at := rt.Int("at", 1, 40)
	third := rt.Int("then", 0, 40) // one more while the second one is served
	same := func(i, status int, hd http.Header, text, label string) {
		st, want := alone(i)
		rt.Assert(status == st, label+": status")
		if st == 200 {
			rt.Assert(text == want, label+": content")
			rt.Assert(hd.Get("Content-Length") == strconv.Itoa(len(text)), label+": length")
		}
	}
	served, _ := serve(f, func(h http.Handler) {
		n, m, depth := 0, 0, 0
		http.Yield = func() {
			switch depth {
			case 0:
				n++
				if n != at {
					return
				}
				depth = 1
				st, hd, text := http.Ask(h, ps[q])
				depth = 2
				same(q, st, hd, text, "the second request")
				rt.Reach("two requests at the same time")
			case 1:
				m++
				if m != third {
					return
				}
				depth = 2
				st, hd, text := http.Ask(h, ps[0])
				same(0, st, hd, text, "the third request")
				rt.Reach("three requests at the same time")
			}
		}
		st, hd, text := http.Ask(h, ps[p])
		http.Yield = func() {}
		same(p, st, hd, text, "the first request")
		for i := range ps { // and the next ones
			st, hd, text = http.Ask(h, ps[i])
			same(i, st, hd, text, "a later request")
		}
	})
	rt.Assert(served, "the model is served")
}

// V_paths: what is served for every path
func V_paths() {
	dir := rt.TempDir()
	name := []string{"api", "", "a" + rt.StrN("name", 1, 1, "bZ_3")}[rt.Choice("named", 3)]
	f := model(dir, name)
	doc := document(f)
	env(dir, "v1")
	http.Remote = none
	content := rt.StrN("content", 0, 2, "a<!\x00")
	rt.Assume(content != "!")
	rt.Assume(content != "!!")
	index, want := "", ""
	for i := rt.Int("urls", 0, 2); i > 0; i-- {
		index += "u=" + petstore + ";"
		want += "u=" + name + ".json;"
	}
	index += content
	want += content
	if index == "!" {
		return
	}
	write(dir+"/v1.zip", zip.Text("u-1/", "", "u-1/a", "outside", "u-1/src/dist/b", "outside", "u-1/distribution", "outside", "u-1/dist/", "", "u-1/dist/index.html", index, "u-1/dist/a", content, "u-1/dist/s/b", "sub"+content, "u-1/dist/bad", "!", "u-1/dist/cut", "!!", "u-1/dist/x.js", content))
	path := "/" + rt.StrN("path", 0, 4, "abdsx/.j")
	if rt.Bool("json") {
		path += ".json"
	}
	if d := rt.Choice("damaged", 3); d > 0 {
		path = []string{"", "/bad", "/cut"}[d]
	}
	served, _ := serve(f, func(h http.Handler) {
		status, hd, text := http.Ask(h, path)
		switch {
		case strings.HasSuffix(path, ".json"):
			rt.Assert(status == 200, "the document is there")
			rt.Assert(text == doc, "the document is what the openapi generator writes")
			rt.Assert(hd.Get("Content-Type") == "application/json", "the document is JSON")
			rt.Reach("document")
		case path == "/":
			rt.Assert(status == 200, "the index is there")
			rt.Assert(text == want, "the index names the document")
			rt.Assert(hd.Get("Content-Type") == "text/html; charset=utf-8", "the index is HTML")
			rt.Reach("index")
		case path == "/a":
			rt.Assert(status == 200 && text == content, "a file of the distribution")
			rt.Reach("file")
		case path == "/x.js":
			rt.Assert(status == 200 && text == content && hd.Get("Content-Type") == "text/javascript; charset=utf-8", "a script")
		case path == "/s/b":
			rt.Assert(status == 200 && text == "sub"+content, "a file in a directory")
			rt.Reach("subdirectory")
		case path == "/bad" || path == "/cut":
			rt.Assert(status == 500, "a damaged file is an error of the server")
			rt.Reach("damaged")
		default:
			rt.Assert(status == 404, "nothing else is there")
		}
	})
	rt.Assert(served, "the model is served")
}

// V_download: the distribution is asked for once, and kept; what is not one is not kept
func V_download() {
	dir := rt.TempDir()
	f := model(dir, "api")
	version := rt.StrN("version", 0, 2, "v1")
	env(dir, version)
	if version == "" {
		version = "v3.43.0"
	}
	if rt.Bool("home") {
		os.Setenv("DOWNLOAD_DIRECTORY", "")
		dir += "/Downloads"
		rt.Assert(os.MkdirAll(dir, 0755) == nil, "a directory")
	}
	asked := 0
	outcome := rt.Choice("outcome", 4)
	good := zip.Text("u-1/dist/", "", "u-1/dist/index.html", "I")
	http.Remote = func(u string) (*http.Response, error) {
		rt.Assert(u == "https://github.com/swagger-api/swagger-ui/archive/"+version+".zip", "the release asked for")
		asked++
		switch outcome {
		case 1:
			return nil, errors.New("no network")
		case 2:
			st := rt.Int("status", 201, 599)
			rt.Assume(st > 299)
			return &http.Response{StatusCode: st, Header: http.Header{}, Body: http.Text("sorry")}, nil
		case 3:
			return &http.Response{StatusCode: 200, Header: http.Header{}, Body: broken{}}, nil
		}
		return &http.Response{StatusCode: 200, Header: http.Header{}, Body: http.Text(good)}, nil
	}
	served, code := serve(f, func(h http.Handler) {
		st, _, text := http.Ask(h, "/")
		rt.Assert(st == 200 && text == "I", "what was downloaded is served")
	})
	rt.Assert(asked == 1, "the distribution is asked for")
	rt.Assert(served == (outcome == 0), "the model is served if there is a distribution")
	rt.Assert(code != 0, "the command ends with an error")
	outcome = 0
	served, _ = serve(f, nil)
	rt.Assert(served, "the next run serves the model")
	n := asked
	served, _ = serve(f, func(h http.Handler) {
		st, _, text := http.Ask(h, "/")
		rt.Assert(st == 200 && text == "I", "what was kept is served")
	})
	rt.Assert(served, "and the one after that")
	rt.Assert(asked == n, "which needs no network")
	b, err := os.ReadFile(dir + "/" + version + ".zip")
	rt.Assert(err == nil && string(b) == good, "the distribution is kept")
}

type broken struct{}

func (broken) Read(p []byte) (int, error) {
	return copy(p, "ZIP"), errors.New("connection reset")
}
func (broken) Close() error { return nil }
