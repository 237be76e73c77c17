package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Context-free summaries of pure functions over scalars and strings: all local paths are explored once
// and their results merged into if-then-else terms, so that callers do not fork on them.

type subState struct {
	trace  []bool
	more   []bool
	pos    int
	cond   *Term
	masks  map[*Term]*Mask
	noFork bool
}
type subAbort struct{}

func (s *subState) allowStore(p Value) bool { return false }

type outcome struct {
	cond *Term
	v    Value
}
type summary struct {
	ok   bool
	outs []outcome
}

func (w *W) subDecide(c *Term) bool {
	s := w.sub
	if c.isConst() {
		return c.k == 1
	}
	// determined by what was decided locally?
	saveM, saveE := w.masks, w.ent
	w.masks, w.ent = s.masks, map[*Term]bool{}
	q := w.quick(c)
	w.masks, w.ent = saveM, saveE
	if q == 0 || q == 1 {
		return q == 1
	}
	if s.noFork {
		panic(subAbort{})
	}
	take := func(b bool) bool {
		t := c
		if !b {
			t = w.ts.Not(c)
		}
		s.cond = w.ts.And(s.cond, t)
		saveM, saveE := w.masks, w.ent
		w.masks, w.ent = s.masks, map[*Term]bool{}
		w.addMask(t)
		w.masks, w.ent = saveM, saveE
		return b
	}
	if s.pos < len(s.trace) {
		b := s.trace[s.pos]
		s.pos++
		return take(b)
	}
	s.trace = append(s.trace, true)
	s.more = append(s.more, true)
	s.pos++
	return take(true)
}

func (e *Engine) isPure(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if v, ok := e.pureCache.Load(fn); ok {
		return v.(bool)
	}
	if seen[fn] {
		return false
	}
	seen[fn] = true
	r := e.isPure1(fn, seen)
	e.pureCache.Store(fn, r)
	return r
}

func basicType(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&(types.IsInteger|types.IsBoolean|types.IsString) != 0
}

func (e *Engine) isPure1(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if strings.HasSuffix(pkgPath(fn), "/zzrt") || strings.Contains(pkgPath(fn), "/zzh/") {
		// harness code never decides on its own; merging its pure helpers is still fine
		if strings.HasSuffix(pkgPath(fn), "/zzrt") {
			return false
		}
	}
	sig := fn.Signature
	if sig.Results().Len() == 0 || fn.Blocks == nil || len(fn.FreeVars) > 0 {
		return false
	}
	for _, p := range fn.Params {
		if !basicType(p.Type()) {
			return false
		}
	}
	for i := 0; i < sig.Results().Len(); i++ {
		if !basicType(sig.Results().At(i).Type()) {
			return false
		}
	}
	if len(fn.Blocks) > 60 {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.BinOp, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Phi, *ssa.Index, *ssa.Extract, *ssa.Slice, *ssa.ChangeType, *ssa.DebugRef, *ssa.Range, *ssa.Next:
				if s, ok := in.(*ssa.Slice); ok && !isString(s.X.Type()) {
					return false
				}
				if s, ok := in.(*ssa.Range); ok && !isString(s.X.Type()) {
					return false
				}
			case *ssa.Lookup:
				if !isString(x.X.Type()) {
					return false
				}
			case *ssa.Convert:
				if !basicType(x.X.Type()) || !basicType(x.Type()) {
					return false
				}
			case *ssa.IndexAddr:
				if g, ok := x.X.(*ssa.Global); !ok || strings.HasPrefix(pkgPathG(g), repoPrefix) {
					return false
				}
			case *ssa.UnOp:
				if x.Op == token.MUL {
					switch a := x.X.(type) {
					case *ssa.IndexAddr:
					case *ssa.Global:
						if strings.HasPrefix(pkgPathG(a), repoPrefix) {
							return false
						}
					default:
						return false
					}
				} else if x.Op == token.ARROW {
					return false
				}
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
					if bi.Name() == "len" {
						continue
					}
					return false
				}
				cal := x.Call.StaticCallee()
				if cal == nil {
					return false
				}
				if pureIntr[fnName(cal)] {
					continue
				}
				if intrinsics[fnName(cal)] != nil {
					return false
				}
				if !e.isPure(cal, seen) {
					return false
				}
			default:
				return false
			}
		}
	}
	return true
}

func pkgPath(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	return ""
}
func pkgPathG(g *ssa.Global) string {
	if g.Pkg != nil {
		return g.Pkg.Pkg.Path()
	}
	return ""
}

func (w *W) argKey(fn *ssa.Function, args []Value) (string, bool) {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%p", fn)
	sym := false
	for _, a := range args {
		switch x := a.(type) {
		case int64:
			fmt.Fprintf(&sb, "|i%d", x)
		case bool:
			fmt.Fprintf(&sb, "|b%v", x)
		case string:
			fmt.Fprintf(&sb, "|s%q", x)
		case *Term:
			sym = true
			fmt.Fprintf(&sb, "|t%d", x.id)
		case *SymStr:
			sym = true
			sb.WriteString("|S")
			for _, b := range x.b {
				switch y := b.(type) {
				case int64:
					fmt.Fprintf(&sb, ",%d", y)
				case *Term:
					fmt.Fprintf(&sb, ",t%d", y.id)
				}
			}
		default:
			return "", false
		}
	}
	return sb.String(), sym
}

func (w *W) trySummary(cf *cfunc, args []Value) (Value, bool) {
	if w.eng.noSum {
		return nil, false
	}
	if cf.pure == 0 {
		if w.eng.isPure(cf.fn, map[*ssa.Function]bool{}) {
			cf.pure = 1
		} else {
			cf.pure = 2
		}
	}
	if cf.pure != 1 {
		return nil, false
	}
	for i, a := range args {
		if l, ok := a.(*LazyStr); ok {
			args[i] = w.str(l)
		}
	}
	key, sym := w.argKey(cf.fn, args)
	if !sym || key == "" {
		return nil, false
	}
	s := w.sums[key]
	if s == nil {
		s = w.summarise(cf, args)
		w.sums[key] = s
	}
	if !s.ok {
		return nil, false
	}
	// group outcomes by shape
	type group struct {
		sh   string
		cond *Term
		outs []outcome
	}
	var gs []*group
	for _, o := range s.outs {
		sh := shape(o.v)
		var g *group
		for _, x := range gs {
			if x.sh == sh {
				g = x
			}
		}
		if g == nil {
			g = &group{sh: sh, cond: w.ts.False}
			gs = append(gs, g)
		}
		g.cond = w.ts.Or(g.cond, o.cond)
		g.outs = append(g.outs, o)
	}
	var g *group
	for i, x := range gs {
		if i == len(gs)-1 || w.decide(x.cond) {
			g = x
			break
		}
	}
	r := g.outs[len(g.outs)-1].v
	for i := len(g.outs) - 2; i >= 0; i-- {
		r = w.mergeVal(g.outs[i].cond, g.outs[i].v, r, cf.fn.Signature.Results())
	}
	return r, true
}

func shape(v Value) string {
	switch x := v.(type) {
	case Tuple:
		s := ""
		for _, e := range x {
			s += shape(e) + ";"
		}
		return s
	case string:
		return fmt.Sprintf("s%d", len(x))
	case *SymStr:
		return fmt.Sprintf("s%d", len(x.b))
	}
	return "x"
}

func (w *W) mergeVal(c *Term, a, b Value, res *types.Tuple) Value {
	if ta, ok := a.(Tuple); ok {
		tb := b.(Tuple)
		r := make(Tuple, len(ta))
		for i := range ta {
			r[i] = w.merge1(c, ta[i], tb[i], res.At(i).Type())
		}
		return r
	}
	return w.merge1(c, a, b, res.At(0).Type())
}

func (w *W) merge1(c *Term, a, b Value, t types.Type) Value {
	if isString(t) {
		if x, ok := a.(string); ok {
			if y, ok := b.(string); ok && x == y {
				return x
			}
		}
		x, y := w.strBytes(a), w.strBytes(b)
		r := make([]Value, len(x))
		for i := range x {
			r[i] = termVal(w.ts.Ite(c, w.byteTerm(x[i]), w.byteTerm(y[i])), false)
		}
		return mkStr(r)
	}
	if wd, s, ok := intInfo(t); ok {
		return termVal(w.ts.Ite(c, w.intTerm(a, wd), w.intTerm(b, wd)), s)
	}
	return termVal(w.ts.Ite(c, w.boolTerm(a), w.boolTerm(b)), false)
}

func (w *W) summarise(cf *cfunc, args []Value) (res *summary) {
	saveSub, saveFrame, saveDepth, saveSteps := w.sub, w.curFrame, w.depth, w.steps
	restore := func() {
		w.sub, w.curFrame, w.depth = saveSub, saveFrame, saveDepth
		w.steps = saveSteps
	}
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case subAbort, *targetPanic:
				restore()
				res = &summary{}
				return
			case pathEnd:
				restore()
				res = &summary{}
				return
			}
			panic(r)
		}
	}()
	out := &summary{ok: true}
	var trace, more []bool
	limit := w.eng.sumLimit
	for n := 0; ; n++ {
		if n > limit {
			restore()
			return &summary{}
		}
		st := &subState{trace: trace, more: more, cond: w.ts.True, masks: map[*Term]*Mask{}}
		w.sub = st
		w.steps = 0
		v := w.exec(cf, args, nil, nil)
		if !st.cond.isFalse() {
			out.outs = append(out.outs, outcome{st.cond, v})
		}
		trace, more = st.trace, st.more
		i := len(trace) - 1
		for i >= 0 && !more[i] {
			i--
		}
		if i < 0 {
			break
		}
		trace, more = trace[:i+1], more[:i+1]
		trace[i], more[i] = false, false
	}
	restore()
	if len(out.outs) == 0 {
		return &summary{}
	}
	return out
}
