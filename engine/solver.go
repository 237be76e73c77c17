package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver drives one persistent z3 process over SMT-LIB 2.
type Solver struct {
	ts      *Terms
	cmd     *exec.Cmd
	in      *bufio.Writer
	out     *bufio.Reader
	emitted []bool
	nem     int
	stack   []*Term // assertions currently pushed in z3, one level each
	queries int64
	sat     int64
	unsat   int64
	unknown int64
	time    time.Duration
	maxQ    time.Duration
	log     io.Writer
}

var z3path = func() string {
	for _, p := range []string{os.Getenv("VERIF_Z3"), "/opt/veriftools/bin/z3-new", "/usr/local/bin/z3-new", "/usr/bin/z3"} {
		if p != "" {
			if _, err := os.Stat(p); err == nil {
				return p
			}
		}
	}
	if p, err := exec.LookPath("z3-new"); err == nil {
		return p
	}
	return "z3"
}()

func NewSolver(ts *Terms) *Solver {
	s := &Solver{ts: ts}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(z3path, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(fmt.Sprintf("cannot start z3: %v", err))
	}
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.emitted = nil
	s.nem = 0
	s.stack = nil
	s.send("(set-option :global-declarations true)\n(set-option :timeout 60000)\n(set-logic QF_BV)\n")
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) send(x string) {
	if s.log != nil {
		io.WriteString(s.log, x)
	}
	s.in.WriteString(x)
}

func (s *Solver) isEm(t *Term) bool {
	return int(t.id) < len(s.emitted) && s.emitted[t.id]
}

func (s *Solver) emit(t *Term) {
	if t.op == OConst || s.isEm(t) {
		return
	}
	for i := int8(0); i < t.n; i++ {
		s.emit(t.a[i])
	}
	for int(t.id) >= len(s.emitted) {
		s.emitted = append(s.emitted, make([]bool, 4096)...)
	}
	s.emitted[t.id] = true
	s.nem++
	if t.op == OVar {
		s.send(fmt.Sprintf("(declare-const v%d %s)\n", t.id, sortStr(t.sort)))
		return
	}
	s.send(fmt.Sprintf("(define-fun t%d () %s %s)\n", t.id, sortStr(t.sort), t.body()))
}

// sync makes z3's assertion stack equal to pc.
func (s *Solver) sync(pc []*Term) {
	k := 0
	for k < len(s.stack) && k < len(pc) && s.stack[k] == pc[k] {
		k++
	}
	if n := len(s.stack) - k; n > 0 {
		s.send(fmt.Sprintf("(pop %d)\n", n))
		s.stack = s.stack[:k]
	}
	if s.nem > 400000 {
		s.Close()
		s.start()
		k = 0
	}
	for ; k < len(pc); k++ {
		s.emit(pc[k])
		s.send(fmt.Sprintf("(push 1)\n(assert %s)\n", pc[k].ref()))
		s.stack = append(s.stack, pc[k])
	}
}

func (s *Solver) readLine() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		panic(fmt.Sprintf("z3 died: %v", err))
	}
	return strings.TrimSpace(l)
}

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

// Check decides pc ∧ extra. When model is non-nil and the answer is sat, values for vars are filled in.
func (s *Solver) Check(pc []*Term, extra *Term, vars []*Term, model map[*Term]uint64) Res {
	t0 := time.Now()
	s.sync(pc)
	if extra != nil {
		s.emit(extra)
		s.send(fmt.Sprintf("(push 1)\n(assert %s)\n", extra.ref()))
	}
	s.send("(check-sat)\n")
	s.in.Flush()
	l := s.readLine()
	var r Res
	switch l {
	case "sat":
		r = Sat
		s.sat++
	case "unsat":
		r = Unsat
		s.unsat++
	case "unknown":
		r = Unknown
		s.unknown++
	default:
		panic("z3: " + l)
	}
	if r == Sat && model != nil {
		var em []*Term
		for _, v := range vars {
			if s.isEm(v) {
				em = append(em, v)
			} else {
				model[v] = 0
			}
		}
		for i := 0; i < len(em); i += 200 {
			j := i + 200
			if j > len(em) {
				j = len(em)
			}
			var sb strings.Builder
			sb.WriteString("(get-value (")
			for _, v := range em[i:j] {
				sb.WriteString(v.ref() + " ")
			}
			sb.WriteString("))\n")
			s.send(sb.String())
			s.in.Flush()
			s.readValues(em[i:j], model)
		}
	}
	if extra != nil {
		s.send("(pop 1)\n")
	}
	d := time.Since(t0)
	if slowQ > 0 && d > slowQ {
		fmt.Fprintf(os.Stderr, "slow query %v %v |pc|=%d\n", d, r, len(pc))
		if extra != nil {
			fmt.Fprintln(os.Stderr, "   ", extra.str(10))
		}
		for _, c := range pc {
			fmt.Fprintln(os.Stderr, "      pc", c.str(8))
		}
	}
	s.queries++
	s.time += d
	if d > s.maxQ {
		s.maxQ = d
	}
	return r
}

func (s *Solver) readValues(vs []*Term, model map[*Term]uint64) {
	depth := 0
	var sb strings.Builder
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			panic("z3 died in get-value")
		}
		sb.WriteString(l)
		for _, c := range l {
			if c == '(' {
				depth++
			} else if c == ')' {
				depth--
			}
		}
		if depth <= 0 && sb.Len() > 1 {
			break
		}
	}
	byName := map[string]*Term{}
	for _, v := range vs {
		byName[v.ref()] = v
	}
	f := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(sb.String()))
	for i := 0; i+1 < len(f); i += 2 {
		v := byName[f[i]]
		if v == nil {
			panic("z3 model: " + sb.String())
		}
		val := f[i+1]
		switch {
		case val == "true":
			model[v] = 1
		case val == "false":
			model[v] = 0
		case strings.HasPrefix(val, "#x"):
			n, _ := strconv.ParseUint(val[2:], 16, 64)
			model[v] = n
		case strings.HasPrefix(val, "#b"):
			n, _ := strconv.ParseUint(val[2:], 2, 64)
			model[v] = n
		default:
			panic("z3 model value: " + val)
		}
	}
}

// SLOWQ: the seconds after which a query is shown
var slowQ = func() time.Duration { f, _ := strconv.ParseFloat(os.Getenv("SLOWQ"), 64); return time.Duration(f * 1e9) }()
