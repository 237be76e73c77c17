package main

import (
	"context"
	"encoding/json"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
)

// Generated code. A harness directory can have a program in gen/, which is built with the working tree's generators
// and writes Go packages; these packages become part of the program under check. The imports of net/http and the gorilla
// packages (not available offline) are directed to stand-ins with the same interface.

var genImports = map[string]string{
	"net/http":                    "github.com/boynton/sadl/zzh/fake/http",
	"github.com/gorilla/mux":      "github.com/boynton/sadl/zzh/fake/mux",
	"github.com/gorilla/handlers": "github.com/boynton/sadl/zzh/fake/handlers",
}

// generate runs the generator program; a failure of the generators is returned, a failure of this machinery ends the run.
func (e *Engine) generate(s *setup, hname string) *Cex {
	dir := filepath.Join(e.verif, "harness", hname, "gen")
	src, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	if len(src) == 0 {
		return nil
	}
	s.generated = true
	e.addFakes(s)
	ov := map[string]string{}
	for k, v := range s.overlay {
		ov[k] = v
	}
	for _, f := range src {
		ov[filepath.Join(e.repo, "zzgen", filepath.Base(f))] = f
	}
	ovf := filepath.Join(e.work, "overlay-gen.json")
	b, _ := json.Marshal(map[string]any{"Replace": ov})
	must(os.WriteFile(ovf, b, 0644))
	bin := filepath.Join(e.work, "gen")
	cmd := exec.Command("go", "build", "-overlay="+ovf, "-mod=mod", "-modfile="+s.modfile, "-o", bin, "./zzgen")
	cmd.Dir = e.repo
	cmd.Env = goEnv()
	if out, err := cmd.CombinedOutput(); err != nil {
		must(fmt.Errorf("generator program: %v\n%s", err, out))
	}
	outDir := filepath.Join(e.work, "generated")
	must(os.MkdirAll(outDir, 0755))
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second) // a generator that never ends is a failure of it
	defer cancel()
	cmd = exec.CommandContext(ctx, bin, outDir)
	cmd.Dir = e.work
	cmd.Env = goEnv()
	if out, err := cmd.CombinedOutput(); err != nil {
		return &Cex{Harness: "generate", Kind: "generation", Label: "the fixture models are generated", Msg: trunc(err.Error()+"\n"+string(out), 2000)}
	}
	must(filepath.WalkDir(outDir, func(p string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		t := string(b)
		for k, v := range genImports {
			t = strings.ReplaceAll(t, "\""+k+"\"", "\""+v+"\"")
		}
		rel, _ := filepath.Rel(outDir, p)
		q := filepath.Join(e.work, "gensrc", rel)
		must(os.MkdirAll(filepath.Dir(q), 0755))
		must(os.WriteFile(q, []byte(t), 0644))
		s.overlay[filepath.Join(e.repo, "zzg", rel)] = q
		return nil
	}))
	return nil
}

// genErrors says that what does not build is the generated code
func genErrors(pkgs []*packages.Package, hpkg string) *Cex {
	var msg []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		// the harness uses nothing but the generated code and the machinery
		if strings.Contains(p.PkgPath, "/zzg/") || p.PkgPath == hpkg {
			for _, er := range p.Errors {
				msg = append(msg, er.Error())
			}
		}
	})
	if len(msg) == 0 {
		return nil
	}
	return &Cex{Harness: "generate", Kind: "generated code", Label: "the generated code compiles", Msg: trunc(strings.Join(msg, "\n"), 2000)}
}
