// Package zzrt is the runtime of the verification harnesses. The symbolic engine intercepts every function
// of this package; the bodies below are used when a counterexample or a sampled path is replayed natively
// against the real code.
package zzrt

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"
)

// Input is one recorded nondeterministic value, in call order.
type Input struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Str  []byte `json:"str,omitempty"`
	Int  int64  `json:"int"`
}

type Result struct {
	Status string   `json:"status"` // ok, assert, panic, assume, mismatch
	Label  string   `json:"label"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
	Fails  []string `json:"fails"`
}

type stop struct{ status, msg string }

var (
	inputs   []Input
	pos      int
	counts   map[string]int
	obs      []string
	fails    []string
	thorough bool
	tmp      string
)

func name(n string) string {
	k := counts[n]
	counts[n]++
	if k > 0 {
		return fmt.Sprintf("%s#%d", n, k)
	}
	return n
}

func next(n, kind string) Input {
	n = name(n)
	if pos >= len(inputs) {
		panic(stop{"mismatch", "no recorded value for " + n})
	}
	in := inputs[pos]
	pos++
	if in.Name != n || in.Kind != kind {
		panic(stop{"mismatch", fmt.Sprintf("recorded %s/%s, wanted %s/%s", in.Name, in.Kind, n, kind)})
	}
	return in
}

// Run executes one harness on recorded inputs.
func Run(f func(), in []Input, th bool) (res Result) {
	inputs, pos, counts, obs, fails, thorough = in, 0, map[string]int{}, nil, nil, th
	if tmp != "" {
		os.RemoveAll(tmp)
		tmp = ""
	}
	defer func() {
		r := recover()
		if tmp != "" {
			os.RemoveAll(tmp)
			tmp = ""
		}
		res.Obs, res.Fails = obs, fails
		if s, ok := r.(stop); ok {
			res.Status, res.Msg = s.status, s.msg
		} else if r != nil {
			res.Status, res.Label, res.Msg = "panic", "uncaught panic", fmt.Sprint(r)
		} else {
			res.Status = "ok"
		}
		if len(fails) > 0 {
			res.Status, res.Label = "assert", fails[0]
		}
	}()
	f()
	return
}

func Decode(line []byte) (harness string, in []Input, th bool, err error) {
	var c struct {
		Harness  string
		Inputs   []Input
		Thorough bool
	}
	err = json.Unmarshal(line, &c)
	return c.Harness, c.Inputs, c.Thorough, err
}

func Bool(n string) bool { return next(n, "bool").Int != 0 }

// Int is a symbolic int in [lo,hi].
func Int(n string, lo, hi int) int         { return int(next(n, "int").Int) }
func Int64(n string, lo, hi int64) int64   { return next(n, "int").Int }
func Int32(n string, lo, hi int32) int32   { return int32(next(n, "int").Int) }
func Byte(n string, lo, hi byte) byte      { return byte(next(n, "int").Int) }
func Small(n string, max int) int          { return int(next(n, "int").Int) }

// Dec is a non-negative number of at most k decimal digits.
func Dec(n string, k int) int { return int(next(n, "int").Int) }

// Choice forks k ways.
func Choice(n string, k int) int { return int(next(n, "choice").Int) }

// StrN is a string of min..max symbolic bytes over the alphabet ("" means every byte value).
func StrN(n string, min, max int, alphabet string) string { return string(next(n, "str").Str) }

func Assume(c bool) {
	if !c {
		panic(stop{"assume", ""})
	}
}

func Assert(c bool, label string) {
	if !c {
		fails = append(fails, label)
	}
}

// Reach marks a point that must be reachable for the harness not to be vacuous.
func Reach(label string) {}

// Observe records values that the engine's prediction is compared with.
func Observe(label string, vals ...interface{}) {
	s := label
	for _, v := range vals {
		switch x := v.(type) {
		case string:
			s += " " + strconv.Quote(x)
		case bool:
			s += fmt.Sprintf(" %v", x)
		default:
			s += fmt.Sprintf(" %d", x)
		}
	}
	obs = append(obs, s)
}

// MapOrder(true) makes the iteration order of maps nondeterministic in the engine.
func MapOrder(on bool) {}

func Thorough() bool { return thorough }

// Symbolic reports whether the engine is running (false in native replay).
func Symbolic() bool { return false }

func TempDir() string {
	if tmp == "" {
		tmp, _ = os.MkdirTemp("", "verif-replay-")
	}
	return tmp
}

// Steps sets the step limit of the current path.
func Steps(n int) {}

// And, Or, Not, Iff evaluate without forking in the engine.
func And(c ...bool) bool {
	r := true
	for _, x := range c {
		r = r && x
	}
	return r
}
func Or(c ...bool) bool {
	r := false
	for _, x := range c {
		r = r || x
	}
	return r
}
func Not(c bool) bool    { return !c }
func Iff(a, b bool) bool { return a == b }

// In reports whether c is one of the bytes of set.
func In(c byte, set string) bool {
	for i := 0; i < len(set); i++ {
		if set[i] == c {
			return true
		}
	}
	return false
}

// Fork makes the engine split on b.
func Fork(b bool) bool { return b }

// Panics runs f and reports whether it panicked.
func Panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(stop); ok {
				panic(s)
			}
			p = true
		}
	}()
	f()
	return false
}

// Output runs f and gives what it wrote to the standard output.
func Output(f func()) string {
	file := TempDir() + "/stdout"
	out, err := os.Create(file)
	if err != nil {
		panic(err)
	}
	save := os.Stdout
	os.Stdout = out
	defer func() { os.Stdout = save }()
	f()
	out.Close()
	b, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	return string(b)
}
