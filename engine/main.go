package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Engine struct {
	prog       *ssa.Program
	stdout     *ssa.Global
	pool       *Pool
	mu         sync.Mutex
	cmu        sync.Mutex
	funcs      map[*ssa.Function]bool
	debug      bool
	maxSteps   int64
	maxDepth   int
	mapReverse bool
	noSum      bool
	sumLimit   int
	tier       string
	pureCache  sync.Map
	bodies     sync.Map
	rtErr      types.Type
	errT       types.Type
	errIface   types.Type
	anySlice   types.Type
	anyMap     types.Type

	prop     string
	work     string
	verif    string
	repo     string
	deadline time.Time
	rep      *Replayer

	hs       map[string]*hstat
	asserts  map[string]*astat
	cexes    []*Cex
	seenCex  map[string]int
	spurious []*Cex
	reached  map[string]int
	reachAll map[string]bool

	queries, sat, unsat, unknown int64
	solverTime, maxQ             time.Duration
	samples                      []any
	validated, mismatched        int64
	concFallback                 int64
	mismatchMsgs                 []string
	verbose                      bool
	timedOut                     atomic.Bool
	noReplay                     bool
	genCex                       *Cex
}

type hstat struct {
	Paths, Infeasible, Unsupported, Diverge, Stopped int
	Unsup                                            map[string]int
	MaxSteps                                         int64
	Dur                                              time.Duration
	Sampled                                          int
}
type astat struct{ Folded, Unsat, Sat, Unknown int }

func (e *Engine) newWorker(id int) *W {
	w := &W{eng: e, id: id, ts: NewTerms()}
	w.sol = NewSolver(w.ts)
	w.shared = map[*ssa.Global]*Value{}
	w.inited = map[*ssa.Package]bool{}
	w.sums = map[string]*summary{}
	w.funcs = map[*ssa.Function]bool{}
	return w
}

func (e *Engine) note(label string, code int) {
	e.mu.Lock()
	defer e.mu.Unlock()
	a := e.asserts[label]
	if a == nil {
		a = &astat{}
		e.asserts[label] = a
	}
	switch code {
	case 0:
		a.Folded++
	case 1:
		a.Unsat++
	case 2:
		a.Sat++
	case 3:
		a.Unknown++
	}
}

func (e *Engine) reach(h, label string) {
	e.mu.Lock()
	e.reached[h+": "+label]++
	e.mu.Unlock()
}

func (e *Engine) addSolver(s *Solver) {
	e.queries += s.queries
	e.sat += s.sat
	e.unsat += s.unsat
	e.unknown += s.unknown
	e.solverTime += s.time
	if s.maxQ > e.maxQ {
		e.maxQ = s.maxQ
	}
}

// report is called with every counterexample of the solver: it is replayed on the real code at once.
func (e *Engine) report(w *W, c *Cex) {
	e.mu.Lock()
	key := c.Harness + "|" + c.Label
	n := e.seenCex[key]
	e.seenCex[key]++
	e.mu.Unlock()
	if n >= 6 {
		return
	}
	if e.verbose {
		fmt.Fprintf(os.Stderr, "cex %s %s %q %s\n   %s\n", c.Harness, c.Kind, c.Label, c.Msg, fmtInputs(c.Inputs))
	}
	if e.noReplay {
		return
	}
	tries := 1
	if w.mapND {
		tries = 300
	}
	ok, res := e.rep.confirm(c, tries)
	e.mu.Lock()
	defer e.mu.Unlock()
	if ok {
		c.Obs = res.Obs
		c.Replay = res.Status + ": " + res.Label + " " + res.Msg
		if res.Status == "assert" {
			c.Label = res.Label
		}
		e.cexes = append(e.cexes, c)
		if !strings.HasPrefix(c.Harness, "K") && !e.verbose {
			e.pool.stop()
		}
	} else {
		c.Replay = res.Status + ": " + res.Label + " " + res.Msg
		e.spurious = append(e.spurious, c)
	}
}

func fmtInputs(in []InputVal) string {
	var sb strings.Builder
	for _, i := range in {
		if i.Kind == "str" {
			fmt.Fprintf(&sb, "%s=%q ", i.Name, i.Str)
		} else {
			fmt.Fprintf(&sb, "%s=%d ", i.Name, i.Int)
		}
	}
	return sb.String()
}

func (e *Engine) pathDone(w *W, end pathEnd, d time.Duration) {
	h := w.h.Name()
	e.mu.Lock()
	st := e.hs[h]
	if st == nil {
		st = &hstat{Unsup: map[string]int{}}
		e.hs[h] = st
	}
	st.Dur += d
	if w.steps > st.MaxSteps {
		st.MaxSteps = w.steps
	}
	sample := false
	switch end.kind {
	case "done":
		st.Paths++
		if end.msg == "" {
			k := st.Paths
			sample = k <= 8 || (k&(k-1)) == 0 || (k%64 == 0 && st.Sampled < 60)
			if sample {
				st.Sampled++
			}
		}
	case "infeasible":
		st.Infeasible++
	case "stop":
		st.Stopped++
	case "diverge":
		st.Diverge++
		st.Unsup[trunc(end.msg, 300)]++
	default:
		st.Unsupported++
		st.Unsup[trunc(end.msg, 300)]++
		if st.Unsup[trunc(end.msg, 300)] <= 3 && st.Unsupported < 200 {
			sample = true
		}
	}
	if end.kind == "diverge" && st.Diverge <= 4 {
		sample = true
	}
	e.mu.Unlock()
	if !sample || e.noReplay {
		return
	}
	r, m := w.check(nil)
	if r != Sat {
		return
	}
	// evaluate inputs and observations under the model, run the same inputs natively, compare
	func() {
		defer func() { recover() }()
		ins := w.evalInputs(m)
		var want []string
		memo := map[*Term]uint64{}
		if end.kind == "done" {
			for _, o := range w.obs {
				want = append(want, w.fmtObs(o, m, memo))
			}
		}
		c := &Cex{Harness: h, Kind: "sample", Inputs: ins}
		res := e.rep.run(c)
		e.mu.Lock()
		defer e.mu.Unlock()
		if res.Status == "assert" || res.Status == "panic" || res.Status == "timeout" || res.Status == "crash" {
			c.Kind, c.Label, c.Msg = "native:"+res.Status, res.Label, res.Msg
			if end.kind == "diverge" {
				c.Msg = end.msg + " / " + res.Msg
			}
			c.Replay = res.Status + ": " + res.Label + " " + res.Msg
			if c.Label == "" {
				c.Label = res.Status
			}
			if w.mapND || end.kind != "done" || res.Status != "ok" {
				e.cexes = append(e.cexes, c)
				if !strings.HasPrefix(h, "K") && !e.verbose {
					e.pool.stop()
				}
			}
			return
		}
		if end.kind != "done" {
			e.concFallback++
			return
		}
		e.validated++
		if res.Status != "ok" || (!w.mapND && strings.Join(res.Obs, "\n") != strings.Join(want, "\n")) {
			e.mismatched++
			if len(e.mismatchMsgs) < 10 {
				e.mismatchMsgs = append(e.mismatchMsgs, fmt.Sprintf("%s %s: native %s %v predicted %v", h, fmtInputs(ins), res.Status+" "+res.Msg, diffObs(res.Obs, want), ""))
			}
		} else if len(e.samples) < 5 && len(want) > 0 {
			e.samples = append(e.samples, map[string]any{"harness": h, "inputs": trunc(fmtInputs(ins), 400), "observed": trunc(strings.Join(want, "; "), 400)})
		}
	}()
}

func diffObs(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "<none>", "<none>"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return trunc(x, 1500) + " <> " + trunc(y, 1500)
		}
	}
	return "same"
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (w *W) fmtObs(o obsEntry, m, memo map[*Term]uint64) string {
	s := o.Label
	for _, v := range o.V {
		i := w.asIface(v)
		switch x := w.str(i.v).(type) {
		case string:
			s += fmt.Sprintf(" %q", x)
		case *SymStr:
			s += fmt.Sprintf(" %q", string(w.evalStr(x, m, memo)))
		case bool:
			s += fmt.Sprintf(" %v", x)
		case int64:
			s += fmt.Sprintf(" %d", x)
		case *Term:
			k := x.Eval(m, memo)
			if x.sort == 0 {
				s += fmt.Sprintf(" %v", k == 1)
			} else if _, sg, _ := intInfo(i.t); sg {
				s += fmt.Sprintf(" %d", sx(k, x.sort))
			} else {
				s += fmt.Sprintf(" %d", k)
			}
		default:
			s += fmt.Sprintf(" ?%T", x)
		}
	}
	return s
}

func (e *Engine) fn(pkg, name string) *ssa.Function {
	for _, p := range e.prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			return p.Func(name)
		}
	}
	return nil
}
func (e *Engine) global(pkg, name string) *ssa.Global {
	for _, p := range e.prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			return p.Var(name)
		}
	}
	panic("no global " + pkg + "." + name)
}
func (e *Engine) typ(pkg, name string) types.Type {
	for _, p := range e.prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			if t := p.Type(name); t != nil {
				return t.Type()
			}
		}
	}
	return nil
}
func (e *Engine) namedPtr(pkg, name string) types.Type { return types.NewPointer(e.typ(pkg, name)) }
func (e *Engine) methodFn(pkg, typ, m string) *ssa.Function {
	e.cmu.Lock()
	defer e.cmu.Unlock()
	return e.prog.LookupMethod(e.namedPtr(pkg, typ), nil, m)
}
func (e *Engine) methodFnV(pkg, typ, m string) *ssa.Function {
	e.cmu.Lock()
	defer e.cmu.Unlock()
	return e.prog.LookupMethod(e.typ(pkg, typ), nil, m)
}

// ---- overlay, loading ----

type setup struct {
	overlay map[string]string // target -> source file
	modfile string
	flags   []string
	hpkg    string

	generated bool
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "engine:", err)
		os.Exit(2)
	}
}

func goEnv() []string {
	env := []string{}
	for _, kv := range os.Environ() {
		k := kv[:strings.IndexByte(kv, '=')]
		switch k {
		case "GOFLAGS", "GOPROXY", "GOSUMDB", "GOWORK", "CGO_ENABLED", "GOTOOLCHAIN", "GO111MODULE":
			continue
		}
		env = append(env, kv)
	}
	return append(env, "GOFLAGS=", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off", "CGO_ENABLED=0", "GOTOOLCHAIN=local")
}

// meta in harness files: //verif:dir lib,stub...
func (e *Engine) prepare(hname string, needParser, cmd bool) *setup {
	s := &setup{overlay: map[string]string{}}
	add := func(dir, target string) {
		fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
		for _, f := range fs {
			s.overlay[filepath.Join(target, filepath.Base(f))] = f
		}
	}
	add(filepath.Join(e.verif, "rt"), filepath.Join(e.repo, "zzrt"))
	add(filepath.Join(e.verif, "harness", "lib"), filepath.Join(e.repo, "zzh", "lib"))
	add(filepath.Join(e.verif, "harness", hname), filepath.Join(e.repo, "zzh", hname))
	// the parser needs a module that is not available offline: its harnesses use a stub scanner
	empty := filepath.Join(e.work, "empty.go")
	if !needParser {
		must(os.WriteFile(empty, []byte("package sadl\n"), 0644))
		for _, f := range []string{"parser.go", "unparser.go"} {
			if _, err := os.Stat(filepath.Join(e.repo, f)); err == nil {
				s.overlay[filepath.Join(e.repo, f)] = empty
			}
		}
	}
	mod, err := os.ReadFile(filepath.Join(e.repo, "go.mod"))
	must(err)
	sum, _ := os.ReadFile(filepath.Join(e.repo, "go.sum"))
	m := string(mod) + "\n"
	ents, _ := os.ReadDir(filepath.Join(e.verif, "stubs"))
	for _, d := range ents {
		m += fmt.Sprintf("replace github.com/boynton/%s => %s\n", d.Name(), filepath.Join(e.verif, "stubs", d.Name()))
	}
	s.modfile = filepath.Join(e.work, "go.mod")
	must(os.WriteFile(s.modfile, []byte(m), 0644))
	must(os.WriteFile(filepath.Join(e.work, "go.sum"), sum, 0644))
	s.hpkg = "github.com/boynton/sadl/zzh/" + hname
	if cmd {
		e.copyCmd(s)
	}
	return s
}

// cmdImports are the packages that have stand-ins in the copy of the command: there is no network and no browser
var cmdImports = map[string]string{
	"net/http":    "github.com/boynton/sadl/zzh/fake/http",
	"archive/zip": "github.com/boynton/sadl/zzh/fake/zip",
	"os/exec":     "github.com/boynton/sadl/zzh/fake/exec",
	"log":         "github.com/boynton/sadl/zzh/fake/log",
}

func (e *Engine) addFakes(s *setup) {
	fakes, _ := filepath.Glob(filepath.Join(e.verif, "harness", "fake", "*", "*.go"))
	for _, f := range fakes {
		d := filepath.Base(filepath.Dir(f))
		s.overlay[filepath.Join(e.repo, "zzh", "fake", d, filepath.Base(f))] = f
	}
}

// copyCmd makes an importable copy of the command (package main), whose calls of os.Exit end the command and not the process
func (e *Engine) copyCmd(s *setup) {
	e.addFakes(s)
	dir := filepath.Join(e.work, "sadlcmd")
	must(os.MkdirAll(dir, 0755))
	fs, _ := filepath.Glob(filepath.Join(e.repo, "cmd", "sadl", "*.go"))
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		must(err)
		fset := token.NewFileSet()
		a, err := parser.ParseFile(fset, f, b, 0)
		must(err)
		at := func(p token.Pos) int { return fset.Position(p).Offset }
		type edit struct {
			from, to int
			text     string
		}
		edits := []edit{{at(a.Name.Pos()), at(a.Name.End()), "sadlcmd"}}
		osName := ""
		for _, im := range a.Imports {
			if to := cmdImports[strings.Trim(im.Path.Value, "\"`")]; to != "" {
				edits = append(edits, edit{at(im.Path.Pos()), at(im.Path.End()), "\"" + to + "\""})
			}
			if im.Path.Value == "\"os\"" {
				osName = "os"
				if im.Name != nil {
					osName = im.Name.Name
				}
			}
		}
		ast.Inspect(a, func(n ast.Node) bool {
			if x, ok := n.(*ast.SelectorExpr); ok && x.Sel.Name == "Exit" {
				if id, ok := x.X.(*ast.Ident); ok && id.Name == osName {
					edits = append(edits, edit{at(x.Pos()), at(x.End()), "zzExit"})
				}
			}
			return true
		})
		sort.Slice(edits, func(i, j int) bool { return edits[i].from > edits[j].from })
		t := string(b)
		for _, ed := range edits {
			t = t[:ed.from] + ed.text + t[ed.to:]
		}
		if osName != "" {
			t += "\nvar _ = " + osName + ".Args\n"
		}
		q := filepath.Join(dir, filepath.Base(f))
		must(os.WriteFile(q, []byte(t), 0644))
		s.overlay[filepath.Join(e.repo, "zzh", "sadlcmd", filepath.Base(f))] = q
	}
	q := filepath.Join(dir, "zz_run.go")
	must(os.WriteFile(q, []byte(`package sadlcmd

import (
	"flag"
	"os"

	fakelog "github.com/boynton/sadl/zzh/fake/log"
)

type exitCode struct{ code int }

func zzExit(code int) { panic(exitCode{code}) }

// Run is the command with the given arguments; it gives the status the process would end with
func Run(args ...string) (code int) {
	save, saveSet := os.Args, flag.CommandLine
	os.Args = append([]string{"sadl"}, args...)
	flag.CommandLine = flag.NewFlagSet("sadl", flag.ContinueOnError)
	fakelog.Exit = zzExit
	defer func() {
		os.Args, flag.CommandLine = save, saveSet
		if r := recover(); r != nil {
			e, ok := r.(exitCode)
			if !ok {
				panic(r)
			}
			code = e.code
		}
	}()
	main()
	return 0
}
`), 0644))
	s.overlay[filepath.Join(e.repo, "zzh", "sadlcmd", "zz_run.go")] = q
}

func (s *setup) writeOverlay(path string) {
	b, _ := json.Marshal(map[string]any{"Replace": s.overlay})
	must(os.WriteFile(path, b, 0644))
}

func (e *Engine) load(s *setup) *ssa.Package {
	ov := map[string][]byte{}
	for t, f := range s.overlay {
		b, err := os.ReadFile(f)
		must(err)
		ov[t] = b
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: e.repo, Overlay: ov, Env: goEnv(),
		BuildFlags: []string{"-mod=mod", "-modfile=" + s.modfile}}
	pkgs, err := packages.Load(cfg, s.hpkg)
	must(err)
	if s.generated {
		if c := genErrors(pkgs, s.hpkg); c != nil {
			e.genCex = c
			return nil
		}
	}
	if packages.PrintErrors(pkgs) > 0 {
		fmt.Fprintln(os.Stderr, "engine: the harness does not build against this tree")
		os.Exit(2)
	}
	prog, ps := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	e.prog = prog
	e.stdout = e.global("os", "Stdout")
	e.errIface = types.Universe.Lookup("error").Type()
	any := types.NewInterfaceType(nil, nil)
	any.Complete()
	e.anySlice = types.NewSlice(any)
	e.anyMap = types.NewMap(types.Typ[types.String], any)
	e.rtErr = e.typ("runtime", "errorString")
	e.errT = e.namedPtr("errors", "errorString")
	return ps[0]
}

// ---- native replay ----

type Replayer struct {
	e    *Engine
	bin  string
	err  error
	done chan struct{}
	mu   sync.Mutex
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	lim  time.Duration
}

type NResult struct {
	Status string
	Label  string
	Msg    string
	Obs    []string
	Fails  []string
}

func (e *Engine) buildReplayer(s *setup, harnesses []string) *Replayer {
	r := &Replayer{e: e, done: make(chan struct{}), lim: 20 * time.Second}
	go func() {
		defer close(r.done)
		var sb strings.Builder
		sb.WriteString("package main\n\nimport (\n\t\"bufio\"\n\t\"encoding/json\"\n\t\"fmt\"\n\t\"os\"\n\n\th \"" + s.hpkg + "\"\n\trt \"" + rtPath + "\"\n)\n\nvar tab = map[string]func(){\n")
		for _, h := range harnesses {
			fmt.Fprintf(&sb, "\t%q: h.%s,\n", h, h)
		}
		sb.WriteString(`}

func main() {
	stdout := os.Stdout
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	rd := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := rd.ReadBytes('\n')
		if err != nil {
			return
		}
		name, in, th, err := rt.Decode(line)
		res := rt.Result{Status: "mismatch", Msg: fmt.Sprint(err)}
		if f := tab[name]; err == nil && f != nil {
			res = rt.Run(f, in, th)
		}
		b, _ := json.Marshal(res)
		stdout.Write(append(b, '\n'))
	}
}
`)
		mf := filepath.Join(e.work, "zzmain.go")
		if r.err = os.WriteFile(mf, []byte(sb.String()), 0644); r.err != nil {
			return
		}
		ov := map[string]string{}
		for k, v := range s.overlay {
			ov[k] = v
		}
		ov[filepath.Join(e.repo, "zzmain", "main.go")] = mf
		ovf := filepath.Join(e.work, "overlay.json")
		b, _ := json.Marshal(map[string]any{"Replace": ov})
		if r.err = os.WriteFile(ovf, b, 0644); r.err != nil {
			return
		}
		r.bin = filepath.Join(e.work, "replay")
		cmd := exec.Command("go", "build", "-overlay="+ovf, "-mod=mod", "-modfile="+s.modfile, "-o", r.bin, "./zzmain")
		cmd.Dir = e.repo
		cmd.Env = goEnv()
		out, err := cmd.CombinedOutput()
		if err != nil {
			r.err = fmt.Errorf("replay build: %v\n%s", err, out)
		}
	}()
	return r
}

func (r *Replayer) start() error {
	cmd := exec.Command(r.bin)
	cmd.Dir = r.e.work
	cmd.Env = append(goEnv(), "GOMEMLIMIT=2GiB", "GOTRACEBACK=none")
	in, err := cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := cmd.Start(); err != nil {
		return err
	}
	r.cmd, r.in, r.out = cmd, in, bufio.NewReaderSize(out, 1<<20)
	return nil
}

func (r *Replayer) close() {
	if r.cmd != nil {
		r.cmd.Process.Kill()
		r.cmd.Wait()
		r.cmd = nil
	}
}

func (r *Replayer) run(c *Cex) NResult {
	<-r.done
	if r.err != nil {
		return NResult{Status: "error", Msg: r.err.Error()}
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.cmd == nil {
		if err := r.start(); err != nil {
			return NResult{Status: "error", Msg: err.Error()}
		}
	}
	b, _ := json.Marshal(map[string]any{"Harness": c.Harness, "Inputs": c.Inputs, "Thorough": r.e.tier == "thorough"})
	r.in.Write(append(b, '\n'))
	type lr struct {
		b   []byte
		err error
	}
	ch := make(chan lr, 1)
	out := r.out
	go func() {
		l, err := out.ReadBytes('\n')
		ch <- lr{l, err}
	}()
	select {
	case x := <-ch:
		if x.err != nil {
			r.close()
			return NResult{Status: "crash", Label: "process crash", Msg: "the process died (stack overflow, out of memory or os.Exit)"}
		}
		var res NResult
		if err := json.Unmarshal(x.b, &res); err != nil {
			return NResult{Status: "error", Msg: err.Error()}
		}
		return res
	case <-time.After(r.lim):
		r.close()
		return NResult{Status: "timeout", Label: "does not terminate", Msg: "no result after " + r.lim.String()}
	}
}

func (r *Replayer) confirm(c *Cex, tries int) (bool, NResult) {
	var res NResult
	for i := 0; i < tries; i++ {
		res = r.run(c)
		switch res.Status {
		case "assert", "panic", "timeout", "crash":
			return true, res
		case "mismatch", "error":
			if tries == 1 {
				return false, res
			}
		}
	}
	return false, res
}

// ---- known findings ----

type Finding struct {
	Property string `json:"property"`
	ID       string `json:"id"`
	Harness  string `json:"harness"`
	Label    string `json:"label"`
	Status   string `json:"status"` // known | fixed
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
	Input    string `json:"input,omitempty"`
}

func (e *Engine) findings() []Finding {
	var f struct{ Findings []Finding }
	b, err := os.ReadFile(filepath.Join(e.verif, "known_findings.json"))
	if err == nil {
		must(json.Unmarshal(b, &f))
	}
	return f.Findings
}

func main() {
	var (
		prop    = flag.String("prop", "", "property id")
		tier    = flag.String("tier", "", "quick or thorough")
		only    = flag.String("only", "", "regexp of harness names")
		nw      = flag.Int("j", 0, "workers")
		limit   = flag.Duration("limit", 0, "time budget of the exploration")
		verbose = flag.Bool("v", false, "verbose")
		dbg     = flag.Bool("debug", false, "let engine errors crash")
		verif   = flag.String("verif", "", "verification directory")
		repo    = flag.String("repo", "/repo", "repository")
		noRep   = flag.Bool("noreplay", false, "no native replay")
		noSum   = flag.Bool("nosum", false, "no function summaries")
		replayF = flag.String("replay", "", "replay a recorded violation")
	)
	flag.Parse()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier == "" {
		*tier = "quick"
	}
	if *verif == "" {
		wd, _ := os.Getwd()
		*verif = wd
	}
	debug.SetGCPercent(400)
	debug.SetMaxStack(4 << 30)
	if *nw == 0 {
		*nw = runtime.NumCPU()
		if *nw > 8 {
			*nw = 8
		}
	}
	t0 := time.Now()
	e := &Engine{prop: *prop, tier: *tier, verif: *verif, repo: *repo, maxSteps: 4000000, maxDepth: 2500, sumLimit: 64,
		funcs: map[*ssa.Function]bool{}, hs: map[string]*hstat{}, asserts: map[string]*astat{}, seenCex: map[string]int{}, reached: map[string]int{}, reachAll: map[string]bool{},
		verbose: *verbose, debug: *dbg, noReplay: *noRep, noSum: *noSum}
	var err error
	e.work, err = os.MkdirTemp("", "verif-"+*prop+"-")
	must(err)
	cleanup := func() { os.RemoveAll(e.work) }
	defer cleanup()

	hname := strings.ToLower(*prop)
	hdir := filepath.Join(e.verif, "harness", hname)
	srcs, _ := filepath.Glob(filepath.Join(hdir, "*.go"))
	if len(srcs) == 0 {
		fmt.Fprintln(os.Stderr, "engine: no harness for", *prop)
		cleanup()
		os.Exit(2)
	}
	var src bytes.Buffer
	for _, f := range srcs {
		b, _ := os.ReadFile(f)
		src.Write(b)
	}
	needParser := bytes.Contains(src.Bytes(), []byte("//verif:parser"))
	var names []string
	for _, m := range regexp.MustCompile(`(?m)^func ([VK]_?\w*)\(\) \{`).FindAllStringSubmatch(src.String(), -1) {
		names = append(names, m[1])
	}
	for _, m := range regexp.MustCompile(`rt\.Reach\("([^"]*)"\)`).FindAllStringSubmatch(src.String(), -1) {
		e.reachAll[m[1]] = true
	}
	bounds := []string{}
	for _, m := range regexp.MustCompile(`(?m)^//verif:bound (.*)$`).FindAllStringSubmatch(src.String(), -1) {
		bounds = append(bounds, m[1])
	}
	assumptions := []string{}
	for _, m := range regexp.MustCompile(`(?m)^//verif:assume (.*)$`).FindAllStringSubmatch(src.String(), -1) {
		assumptions = append(assumptions, m[1])
	}
	s := e.prepare(hname, needParser, bytes.Contains(src.Bytes(), []byte("//verif:cmd")))
	e.genCex = e.generate(s, hname)
	failGen := func() {
		e.cexes = append(e.cexes, e.genCex)
		code := e.finish(t0, 0, names, bounds, assumptions)
		cleanup()
		os.Exit(code)
	}
	if e.genCex != nil {
		failGen()
	}
	e.rep = e.buildReplayer(s, names)
	if *replayF != "" {
		b, err := os.ReadFile(*replayF)
		must(err)
		var c Cex
		must(json.Unmarshal(b, &c))
		ok, res := e.rep.confirm(&c, 300)
		fmt.Printf("harness %s\ninputs  %s\nresult  %s %s %s\nfails   %v\nobs     %v\n", c.Harness, fmtInputs(c.Inputs), res.Status, res.Label, res.Msg, res.Fails, res.Obs)
		e.rep.close()
		cleanup()
		if ok {
			os.Exit(1)
		}
		os.Exit(0)
	}
	hp := e.load(s)
	if hp == nil {
		<-e.rep.done
		failGen()
	}
	loadT := time.Since(t0)
	var hs []*ssa.Function
	re := regexp.MustCompile(*only)
	for _, n := range names {
		if *only != "" && !re.MatchString(n) {
			continue
		}
		f := hp.Func(n)
		if f == nil {
			fmt.Fprintln(os.Stderr, "engine: no function", n)
			os.Exit(2)
		}
		hs = append(hs, f)
	}
	budget := 240 * time.Second
	if *tier == "thorough" {
		budget = 45 * time.Minute
	}
	if *limit > 0 {
		budget = *limit
	}
	// The budget covers the exploration; whatever is left unexplored is reported.
	timer := time.AfterFunc(budget, func() {
		e.timedOut.Store(true)
		if e.pool != nil {
			e.pool.stop()
		}
	})
	e.explore(hs, *nw)
	timer.Stop()
	<-e.rep.done
	if e.rep.err != nil {
		fmt.Fprintln(os.Stderr, "engine:", e.rep.err)
		e.rep.close()
		cleanup()
		os.Exit(2)
	}
	e.rep.close()
	code := e.finish(t0, loadT, names, bounds, assumptions)
	cleanup()
	os.Exit(code)
}

func (e *Engine) finish(t0 time.Time, loadT time.Duration, names, bounds, assumptions []string) int {
	known := e.findings()
	var viol []*Cex
	knownHit := map[string]bool{}
	for _, c := range e.cexes {
		hit := false
		for _, f := range known {
			if f.Status == "known" && f.Property == e.prop && f.Harness == c.Harness && (f.Label == "" || f.Label == c.Label) {
				hit = true
				if !knownHit[f.ID] {
					knownHit[f.ID] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", e.prop, f.What, trunc(fmtInputs(c.Inputs), 200))
				}
			}
		}
		if !hit {
			viol = append(viol, c)
		}
	}
	// evidence
	var fl []string
	for f := range e.funcs {
		if f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), repoPrefix) && (!strings.Contains(f.Pkg.Pkg.Path(), "/zz") || strings.Contains(f.Pkg.Pkg.Path(), "/zzg/")) {
			fl = append(fl, strings.ReplaceAll(f.String(), "github.com/boynton/", ""))
		}
	}
	sort.Strings(fl)
	paths, infeasible, unsup, div, stopped := 0, 0, 0, 0, 0
	per := map[string]any{}
	for n, h := range e.hs {
		paths += h.Paths
		infeasible += h.Infeasible
		unsup += h.Unsupported
		div += h.Diverge
		stopped += h.Stopped
		m := map[string]any{"paths": h.Paths, "cut_by_assumptions": h.Infeasible, "max_steps": h.MaxSteps, "cpu_s": round(h.Dur.Seconds())}
		if h.Unsupported+h.Diverge > 0 {
			m["inconclusive_paths"] = h.Unsupported
			m["diverging_paths"] = h.Diverge
			m["reasons"] = h.Unsup
		}
		per[n] = m
	}
	folded, uns, sats, unk := 0, 0, 0, 0
	al := map[string]any{}
	for l, a := range e.asserts {
		folded += a.Folded
		uns += a.Unsat
		sats += a.Sat
		unk += a.Unknown
		al[l] = map[string]int{"decided_by_solver": a.Unsat, "constant_on_path": a.Folded, "refuted": a.Sat, "unknown": a.Unknown}
	}
	unreached := []string{}
	for l := range e.reachAll {
		ok := false
		for r := range e.reached {
			if strings.HasSuffix(r, ": "+l) {
				ok = true
			}
		}
		if !ok {
			unreached = append(unreached, l)
		}
	}
	sort.Strings(unreached)
	complete := !e.timedOut.Load() && unsup == 0 && div == 0 && unk == 0 && len(viol) == 0 && stopped == 0
	expl := fmt.Sprintf("Symbolic execution of the real code (go/ssa built from the working tree) with z3 deciding every branch and assertion: %d feasible paths over %d harnesses, %d assertions discharged (%d by a solver query, %d constant on their path), %d solver queries (%d sat, %d unsat, %d unknown), %.1f s solver time. Bounds: %s. Outside the bounds nothing is claimed.",
		paths, len(e.hs), folded+uns, uns, folded, e.queries, e.sat, e.unsat, e.unknown, e.solverTime.Seconds(), strings.Join(bounds, "; "))
	cov := map[string]any{
		"explanation": expl, "functions_encoded": fl, "functions_encoded_count": len(fl), "bounds": bounds,
		"paths": paths, "paths_cut_by_assumptions": infeasible, "inconclusive_paths": unsup, "diverging_paths": div, "unexplored_at_budget": e.timedOut.Load(),
		"assertions": al, "queries": e.queries, "queries_sat": e.sat, "queries_unsat": e.unsat, "queries_unknown": e.unknown,
		"solver_s": round(e.solverTime.Seconds()), "longest_query_s": round(e.maxQ.Seconds()), "load_s": round(loadT.Seconds()),
		"harnesses": per, "reach_witnesses": e.reached, "reach_missing": unreached,
		"paths_replayed_natively": e.validated, "native_mismatches": e.mismatched, "inconclusive_paths_run_concretely": e.concFallback,
		"unconfirmed_counterexamples": len(e.spurious), "samples": e.samples, "exhaustive": complete,
		"solver": z3path,
	}
	if len(e.mismatchMsgs) > 0 {
		cov["native_mismatch_examples"] = e.mismatchMsgs
	}
	if len(e.spurious) > 0 {
		var sp []string
		for i, c := range e.spurious {
			if i < 6 {
				sp = append(sp, fmt.Sprintf("%s %q %s: %s", c.Harness, c.Label, trunc(fmtInputs(c.Inputs), 200), trunc(c.Replay, 200)))
			}
		}
		cov["unconfirmed_examples"] = sp
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	ev := map[string]any{"property": e.prop, "tier": e.tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": round(time.Since(t0).Seconds()),
		"assumptions": append(assumptions, "standard-library models of the engine (strings, fmt, encoding/json, math/big, time, text/template, regexp, os as a virtual file system) agree with the library; sampled paths are replayed natively to check this"), "violations": len(viol)}
	os.MkdirAll(filepath.Join(e.verif, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	must(os.WriteFile(filepath.Join(e.verif, "evidence", e.prop+".json"), append(b, '\n'), 0644))

	fmt.Printf("%s %s: %d paths, %d infeasible, %d inconclusive, %d diverging, asserts solver/const %d/%d, queries %d, solver %.1fs, native %d ok %d mismatch, spurious %d, reach missing %v, wall %.1fs%s\n",
		e.prop, e.tier, paths, infeasible, unsup, div, uns, folded, e.queries, e.solverTime.Seconds(), e.validated-e.mismatched, e.mismatched, len(e.spurious), unreached, time.Since(t0).Seconds(),
		map[bool]string{true: " (budget reached)", false: ""}[e.timedOut.Load()])
	if e.verbose {
		for n, h := range e.hs {
			fmt.Printf("  %-28s paths %d inf %d unsup %d div %d maxsteps %d cpu %.1fs\n", n, h.Paths, h.Infeasible, h.Unsupported, h.Diverge, h.MaxSteps, h.Dur.Seconds())
			for m, k := range h.Unsup {
				fmt.Printf("      %d x %s\n", k, m)
			}
		}
		for _, m := range e.mismatchMsgs {
			fmt.Println("  MISMATCH", m)
		}
		for _, c := range e.spurious {
			fmt.Println("  SPURIOUS", c.Harness, c.Label, c.Msg, trunc(fmtInputs(c.Inputs), 300), c.Replay)
		}
		for l, a := range e.asserts {
			fmt.Printf("  assert %q %+v\n", l, *a)
		}
	}
	if len(viol) > 0 {
		dir := filepath.Join(e.verif, "evidence", "replay")
		os.MkdirAll(dir, 0755)
		for i, c := range viol {
			if i >= 5 {
				break
			}
			p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", e.prop, i+1))
			b, _ := json.MarshalIndent(c, "", " ")
			os.WriteFile(p, append(b, '\n'), 0644)
			fmt.Printf("  %s: %s [%s] %s\n    inputs: %s\n", c.Harness, c.Label, c.Kind, trunc(c.Msg, 300), trunc(fmtInputs(c.Inputs), 600))
			fmt.Printf("VIOLATION property=%s replay=%s\n", e.prop, p)
		}
		return 1
	}
	return 0
}

func round(f float64) float64 { return float64(int64(f*1000)) / 1000 }
