package main

import (
	"fmt"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Dec struct {
	kind byte // 'b' branch, 'c' n-ary choice, 'p' picked value
	v    uint64
	n    uint64
	more bool
}

type Nondet struct {
	Name string
	Kind string // bool int str choice
	V    Value
	W    int16
	S    bool
}

type pathEnd struct {
	kind string // "infeasible", "unsupported", "limit", "stop", "done"
	msg  string
}

// W is one worker: interpreter state, term store, solver.
type W struct {
	eng    *Engine
	id     int
	ts     *Terms
	sol    *Solver
	shared map[*ssa.Global]*Value // globals of packages outside the repository
	local  map[*ssa.Global]*Value // globals of repository packages: fresh for every path
	inited map[*ssa.Package]bool
	linit  map[*ssa.Package]bool
	inInit int

	trace []Dec
	pos   int
	base  int
	pc    []*Term
	masks map[*Term]*Mask
	ent   map[*Term]bool
	model map[*Term]uint64
	memo  map[*Term]uint64

	nd       []Nondet
	ndCount  map[string]int
	obs      []obsEntry
	steps    int64
	depth    int
	maxSteps int64
	mapND    bool
	vfs      *VFS
	sub      *subState
	sums     map[string]*summary
	funcs    map[*ssa.Function]bool
	h        *ssa.Function
	curFrame *frame
	panicPos string
	pathKey  string
}

type obsEntry struct {
	Label string
	V     []Value // deep, evaluated lazily with a model
}

type CexKind string

type Cex struct {
	Harness string
	Kind    string // assert, panic, diverge, observe
	Label   string
	Msg     string
	Inputs  []InputVal
	Obs     []string
	Trace   string
	Replay  string
}

type InputVal struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Str  []byte `json:"str,omitempty"`
	Int  int64  `json:"int"`
}

func (w *W) unsupported(msg string) {
	panic(pathEnd{"unsupported", msg})
}

func (w *W) addPC(c *Term) {
	if c.isTrue() {
		return
	}
	w.pc = append(w.pc, c)
	w.addMask(c)
}

func (w *W) addMask(c *Term) {
	if c.op == OAnd {
		w.addMask(c.a[0])
		w.addMask(c.a[1])
		return
	}
	if c.op == ONot && c.a[0].op == OOr {
		w.addMask(w.ts.Not(c.a[0].a[0]))
		w.addMask(w.ts.Not(c.a[0].a[1]))
		return
	}
	if !c.multi && c.v != nil {
		m := w.masks[c.v]
		cm := c.getMask()
		if m == nil {
			w.masks[c.v] = cm
			return
		}
		nm := *m
		for i := range nm {
			nm[i] &= cm[i]
		}
		w.masks[c.v] = &nm
		return
	}
	w.markEnt(c, map[*Term]bool{})
}

func (w *W) markEnt(c *Term, seen map[*Term]bool) {
	if seen[c] || c.op == OConst {
		return
	}
	seen[c] = true
	if c.op == OVar {
		w.ent[c] = true
		return
	}
	if !c.multi {
		if c.v != nil {
			w.ent[c.v] = true
		}
		return
	}
	for i := int8(0); i < c.n; i++ {
		w.markEnt(c.a[i], seen)
	}
}

// quick: 1 must be true, 0 must be false, 2 both feasible for certain, -1 ask the solver
func (w *W) quick(c *Term) int {
	if c.isConst() {
		return int(c.k)
	}
	if c.multi || c.v == nil {
		return -1
	}
	cm := c.getMask()
	dm := w.masks[c.v]
	var full Mask
	if dm == nil {
		n := 1 << uint(c.v.sort)
		if c.v.sort == 0 {
			n = 2
		}
		for i := 0; i < n; i++ {
			full[i>>6] |= 1 << uint(i&63)
		}
		dm = &full
	}
	someT, someF := false, false
	for i := range dm {
		if dm[i]&cm[i] != 0 {
			someT = true
		}
		if dm[i]&^cm[i] != 0 {
			someF = true
		}
	}
	switch {
	case someT && !someF:
		return 1
	case someF && !someT:
		return 0
	}
	if !someT && !someF {
		return 0
	}
	if !w.ent[c.v] {
		return 2
	}
	return -1
}

func (w *W) evalModel(c *Term) bool {
	return c.Eval(w.model, w.memo) == 1
}

func (w *W) vars() []*Term {
	var vs []*Term
	for _, v := range w.ts.vars {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].id < vs[j].id })
	return vs
}

// check asks the solver for pc ∧ c and keeps the model
func (w *W) check(c *Term) (Res, map[*Term]uint64) {
	m := map[*Term]uint64{}
	r := w.sol.Check(w.pc, c, w.pathVars(), m)
	if r == Sat {
		return r, m
	}
	return r, nil
}

func (w *W) pathVars() []*Term {
	var vs []*Term
	for _, n := range w.nd {
		vs = appendVars(vs, n.V)
	}
	return vs
}

func appendVars(vs []*Term, v Value) []*Term {
	switch x := v.(type) {
	case *Term:
		if x.op == OVar {
			vs = append(vs, x)
		} else {
			for i := int8(0); i < x.n; i++ {
				vs = appendVars(vs, x.a[i])
			}
		}
	case *SymStr:
		for _, b := range x.b {
			vs = appendVars(vs, b)
		}
	}
	return vs
}

func (w *W) truth(v Value) bool {
	switch x := v.(type) {
	case bool:
		return x
	case *Term:
		return w.decide(x)
	}
	panic(fmt.Sprintf("truth of %T", v))
}

func (w *W) decide(c *Term) bool {
	if w.sub != nil {
		return w.subDecide(c)
	}
	q := w.quick(c)
	if q == 0 || q == 1 {
		return q == 1
	}
	if w.pos < len(w.trace) {
		d := &w.trace[w.pos]
		if d.kind != 'b' {
			panic(fmt.Sprintf("engine: nondeterministic re-execution (want b, have %c)", d.kind))
		}
		w.pos++
		if d.v == 1 {
			w.addPC(c)
		} else {
			w.addPC(w.ts.Not(c))
		}
		return d.v == 1
	}
	d := Dec{kind: 'b'}
	if q == 2 {
		d.v, d.more = 1, true
		if w.model != nil && !w.evalModel(c) {
			w.model = nil
		}
	} else {
		if w.model == nil {
			r, m := w.check(nil)
			if r == Unsat {
				panic(pathEnd{"infeasible", ""})
			}
			if r == Sat {
				w.setModel(m)
			}
		}
		if w.model == nil { // unknown
			d.v, d.more = 1, true
		} else if w.evalModel(c) {
			r, _ := w.check(w.ts.Not(c))
			d.v, d.more = 1, r != Unsat
		} else {
			r, m := w.check(c)
			if r == Unsat {
				d.v, d.more = 0, false
			} else {
				d.v, d.more = 1, true
				w.setModel(m)
			}
		}
	}
	w.trace = append(w.trace, d)
	w.pos++
	if d.v == 1 {
		w.addPC(c)
	} else {
		w.addPC(w.ts.Not(c))
	}
	return d.v == 1
}

func (w *W) setModel(m map[*Term]uint64) {
	w.model = m
	w.memo = map[*Term]uint64{}
}

// choose forks n ways
func (w *W) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if w.sub != nil {
		panic(subAbort{})
	}
	if w.pos < len(w.trace) {
		d := &w.trace[w.pos]
		if d.kind != 'c' {
			panic("engine: nondeterministic re-execution (choice)")
		}
		w.pos++
		return int(d.v)
	}
	w.trace = append(w.trace, Dec{kind: 'c', v: 0, n: uint64(n), more: true})
	w.pos++
	return 0
}

// pick returns a concrete value for t, forking over all feasible ones
func (w *W) pick(t *Term) uint64 {
	if t.isConst() {
		return t.k
	}
	if w.sub != nil {
		panic(subAbort{})
	}
	for i := 0; ; i++ {
		if i > 4096 {
			w.unsupported("too many values to concretise")
		}
		var v uint64
		if w.pos < len(w.trace) {
			d := &w.trace[w.pos]
			if d.kind != 'p' {
				panic("engine: nondeterministic re-execution (pick)")
			}
			v = d.v
			w.pos++
		} else {
			if w.model == nil {
				r, m := w.check(nil)
				if r != Sat {
					panic(pathEnd{"infeasible", ""})
				}
				w.setModel(m)
			}
			v = t.Eval(w.model, w.memo)
			w.trace = append(w.trace, Dec{kind: 'p', v: v})
			w.pos++
		}
		if w.decide(w.ts.Eq(t, w.ts.Const(t.sort, v))) {
			return v
		}
	}
}

func (w *W) concInt(v Value, signed bool) int64 {
	switch x := v.(type) {
	case int64:
		return x
	case *Term:
		u := w.pick(x)
		if signed {
			return sx(u, x.sort)
		}
		return int64(u)
	}
	panic(fmt.Sprintf("concInt %T", v))
}

// concStr turns a symbolic string into a concrete one, forking over the feasible values
func (w *W) concStr(v Value) string {
	switch x := w.str(v).(type) {
	case string:
		return x
	case *SymStr:
		b := make([]byte, len(x.b))
		for i, c := range x.b {
			b[i] = byte(w.concInt(c, false))
		}
		return string(b)
	}
	panic("concStr")
}

func (w *W) assume(v Value) {
	switch x := v.(type) {
	case bool:
		if !x {
			panic(pathEnd{"infeasible", ""})
		}
	case *Term:
		q := w.quick(x)
		switch q {
		case 1:
			return
		case 0:
			panic(pathEnd{"infeasible", ""})
		case 2:
			if w.model != nil && !w.evalModel(x) {
				w.model = nil
			}
			w.addPC(x)
			return
		}
		if w.pos >= len(w.trace) {
			if w.model == nil || !w.evalModel(x) {
				r, m := w.check(x)
				if r == Unsat {
					panic(pathEnd{"infeasible", ""})
				}
				if r == Sat {
					w.setModel(m)
				}
			}
		}
		w.addPC(x)
	}
}

func (w *W) assert(v Value, label string) {
	e := w.eng
	switch x := v.(type) {
	case bool:
		if w.pos >= len(w.trace) {
			e.note(label, 0)
		}
		if !x {
			r, m := w.check(nil)
			if r == Unsat {
				panic(pathEnd{"infeasible", ""})
			}
			w.cex("assert", label, "", m)
			panic(pathEnd{"done", "assertion failed"})
		}
	case *Term:
		if w.pos < len(w.trace) { // already decided on an earlier path with this prefix
			w.assume(x)
			return
		}
		// a conjunction is decided conjunct by conjunct
		var cs []*Term
		var split func(t *Term)
		split = func(t *Term) {
			if t.op == OAnd {
				split(t.a[0])
				split(t.a[1])
			} else {
				cs = append(cs, t)
			}
		}
		split(x)
		res := 0
		for _, c := range cs {
			if q := w.quick(c); q == 1 {
				if res < 1 {
					res = 1
				}
				continue
			}
			r, m := w.check(w.ts.Not(c))
			if r == Sat {
				w.cex("assert", label, "", m)
				res = 2
				break
			}
			if r == Unknown {
				res = 3
			} else if res < 1 {
				res = 1
			}
		}
		e.note(label, res)
		w.assume(x)
	}
}

func (w *W) evalInputs(m map[*Term]uint64) []InputVal {
	memo := map[*Term]uint64{}
	var out []InputVal
	for _, n := range w.nd {
		iv := InputVal{Name: n.Name, Kind: n.Kind}
		switch x := n.V.(type) {
		case bool:
			if x {
				iv.Int = 1
			}
		case int64:
			iv.Int = x
		case *Term:
			v := x.Eval(m, memo)
			if n.S && n.W > 0 {
				iv.Int = sx(v, n.W)
			} else {
				iv.Int = int64(v)
			}
		default:
			iv.Str = w.evalStr(n.V, m, memo)
		}
		out = append(out, iv)
	}
	return out
}

func (w *W) evalStr(v Value, m, memo map[*Term]uint64) []byte {
	b := w.strBytes(v)
	r := make([]byte, len(b))
	for i, c := range b {
		switch y := c.(type) {
		case int64:
			r[i] = byte(y)
		case *Term:
			r[i] = byte(y.Eval(m, memo))
		}
	}
	return r
}

func (w *W) cex(kind, label, msg string, m map[*Term]uint64) {
	if m == nil {
		r, mm := w.check(nil)
		if r != Sat {
			return
		}
		m = mm
	}
	c := &Cex{Harness: w.h.Name(), Kind: kind, Label: label, Msg: msg, Inputs: w.evalInputs(m)}
	w.eng.report(w, c)
}

func (w *W) resetPath() {
	w.pos = 0
	w.pc = w.pc[:0]
	w.masks = map[*Term]*Mask{}
	w.ent = map[*Term]bool{}
	w.model = nil
	w.memo = nil
	w.nd = nil
	w.ndCount = map[string]int{}
	w.obs = nil
	w.steps = 0
	w.depth = 0
	w.mapND = false
	w.local = map[*ssa.Global]*Value{}
	w.linit = map[*ssa.Package]bool{}
	w.inInit = 0
	w.vfs = nil
	if p, ok := w.shared[w.eng.stdout]; ok {
		*p = (*Value)(nil)
	}
	w.sub = nil
	w.curFrame = nil
	w.maxSteps = w.eng.maxSteps
}

// runPath executes the harness once along w.trace.
func (w *W) runPath() (end pathEnd) {
	w.resetPath()
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case pathEnd:
				end = x
			case *targetPanic:
				msg := w.panicString(x)
				if w.pos >= len(w.trace) {
					w.cex("panic", "uncaught panic", msg, nil)
				}
				end = pathEnd{"done", "panic"}
			default:
				if w.eng.debug {
					panic(r)
				}
				end = pathEnd{"unsupported", fmt.Sprintf("engine error: %v at %s", r, w.where())}
			}
		}
	}()
	w.call(w.h, nil)
	return pathEnd{"done", ""}
}

type job struct {
	h     *ssa.Function
	trace []Dec
}

// Pool explores harnesses in parallel by handing out decision prefixes.
type Pool struct {
	mu      sync.Mutex
	cond    *sync.Cond
	jobs    []job
	idle    int32
	n       int
	stopped atomic.Bool
	done    bool
}

func (e *Engine) explore(hs []*ssa.Function, nw int) {
	p := &Pool{n: nw}
	p.cond = sync.NewCond(&p.mu)
	for _, h := range hs {
		p.jobs = append(p.jobs, job{h: h})
	}
	e.pool = p
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func(id int) {
			defer wg.Done()
			w := e.newWorker(id)
			defer func() {
				e.mu.Lock()
				e.addSolver(w.sol)
				for f := range w.funcs {
					e.funcs[f] = true
				}
				e.mu.Unlock()
				w.sol.Close()
			}()
			for {
				j, ok := p.get()
				if !ok {
					return
				}
				w.runJob(j)
			}
		}(i)
	}
	wg.Wait()
}

func (p *Pool) get() (job, bool) {
	p.mu.Lock()
	defer p.mu.Unlock()
	atomic.AddInt32(&p.idle, 1)
	for {
		if p.stopped.Load() || p.done {
			return job{}, false
		}
		if len(p.jobs) > 0 {
			j := p.jobs[0]
			p.jobs = p.jobs[1:]
			atomic.AddInt32(&p.idle, -1)
			return j, true
		}
		if int(atomic.LoadInt32(&p.idle)) == p.n {
			p.done = true
			p.cond.Broadcast()
			return job{}, false
		}
		p.cond.Wait()
	}
}

func (p *Pool) put(j job) {
	p.mu.Lock()
	p.jobs = append(p.jobs, j)
	p.mu.Unlock()
	p.cond.Signal()
}

func (p *Pool) stop() {
	p.stopped.Store(true)
	p.cond.Broadcast()
}

func (w *W) runJob(j job) {
	e := w.eng
	w.h = j.h
	w.trace = append([]Dec(nil), j.trace...)
	w.base = len(j.trace)
	for {
		if e.pool.stopped.Load() {
			return
		}
		if len(w.ts.all) > 3000000 { // keep memory bounded
			w.ts = NewTerms()
			w.sol.ts = w.ts
			w.sol.Close()
			w.sol.start()
			w.sums = map[string]*summary{}
			w.shared = map[*ssa.Global]*Value{}
			w.inited = map[*ssa.Package]bool{}
		}
		t0 := time.Now()
		end := w.runPath()
		e.pathDone(w, end, time.Since(t0))
		// backtrack
		i := len(w.trace) - 1
		for i >= w.base && !w.trace[i].more {
			i--
		}
		if i < w.base {
			return
		}
		d := &w.trace[i]
		w.trace = w.trace[:i+1]
		advance(d)
		// donate the shallowest open alternative if somebody is idle
		if atomic.LoadInt32(&e.pool.idle) > 0 {
			for k := w.base; k < len(w.trace)-1; k++ {
				if w.trace[k].more {
					nt := append([]Dec(nil), w.trace[:k+1]...)
					advance(&nt[k])
					w.trace[k].more = false
					if nt[k].kind == 'c' && nt[k].more {
						// the receiver also owns the rest of this choice: give it as base-1
						for nt[k].more {
							one := append([]Dec(nil), nt...)
							one[k].more = false
							e.pool.put(job{w.h, one})
							advance(&nt[k])
						}
					}
					nt[k].more = false
					e.pool.put(job{w.h, nt})
					break
				}
			}
		}
	}
}

func advance(d *Dec) {
	switch d.kind {
	case 'b':
		d.v, d.more = 0, false
	case 'c':
		d.v++
		d.more = d.v+1 < d.n
	}
}
