package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// Region merging: the blocks of a short-circuit condition (or a small side-effect free conditional) are evaluated
// together and only the distinct places control can leave to are forked on, instead of every way to get there.

type region struct {
	blocks []*ssa.BasicBlock // absorbed, in topological order
	exits  []*ssa.BasicBlock
}

// regionOf finds the region that starts at the If ending block b; nil when there is nothing to merge.
func (w *W) regionOf(cf *cfunc, b *ssa.BasicBlock) *region {
	in := map[*ssa.BasicBlock]bool{b: true}
	r := &region{}
	for changed := true; changed && len(r.blocks) < 40; {
		changed = false
		for _, x := range append([]*ssa.BasicBlock{b}, r.blocks...) {
			for _, s := range x.Succs {
				if in[s] {
					continue
				}
				ok := true
				for _, p := range s.Preds {
					if !in[p] {
						ok = false
					}
				}
				if !ok || !w.absorbable(s) {
					continue
				}
				in[s] = true
				r.blocks = append(r.blocks, s)
				changed = true
			}
		}
	}
	if len(r.blocks) == 0 {
		return nil
	}
	seen := map[*ssa.BasicBlock]bool{}
	edges := 0
	for _, x := range append([]*ssa.BasicBlock{b}, r.blocks...) {
		for _, s := range x.Succs {
			if s == b || !in[s] {
				edges++
				if !seen[s] {
					seen[s] = true
					r.exits = append(r.exits, s)
				}
			}
		}
	}
	if edges <= len(r.exits) {
		return nil // every way out leads somewhere else: nothing to gain
	}
	return r
}

func (w *W) absorbable(b *ssa.BasicBlock) bool {
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.BinOp:
			if !basicType(x.X.Type()) {
				return false
			}
		case *ssa.If, *ssa.Jump, *ssa.Phi, *ssa.DebugRef, *ssa.ChangeType, *ssa.Extract, *ssa.Field, *ssa.Index:
		case *ssa.Lookup:
			if !isString(x.X.Type()) {
				return false
			}
		case *ssa.Convert:
			if !basicType(x.X.Type()) || !basicType(x.Type()) {
				return false
			}
		case *ssa.IndexAddr, *ssa.FieldAddr:
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				return false
			}
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
				if bi.Name() == "len" {
					continue
				}
				return false
			}
			cal := x.Call.StaticCallee()
			if cal == nil {
				return false
			}
			if pureIntr[fnName(cal)] {
				continue
			}
			if intrinsics[fnName(cal)] != nil || !w.eng.isPure(cal, map[*ssa.Function]bool{}) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

type redge struct {
	pred *ssa.BasicBlock
	cond *Term
}

// mergeRegion runs the region that starts at fr.block, whose If has condition c. It returns false, having changed
// nothing that matters, when the region cannot be merged.
func (w *W) mergeRegion(fr *frame, r *region, c *Term) (done bool) {
	saveSub, saveDepth, saveCur := w.sub, w.depth, w.curFrame
	masks := w.masks
	if saveSub != nil {
		masks = saveSub.masks
	}
	type exit struct {
		b     *ssa.BasicBlock
		edges []redge
		cond  *Term
		vals  []Value
	}
	var exits []*exit
	ok := func() (ok bool) {
		defer func() {
			w.sub, w.depth, w.curFrame = saveSub, saveDepth, saveCur
			if x := recover(); x != nil {
				switch x.(type) {
				case subAbort, *targetPanic, pathEnd:
					ok = false
					return
				}
				panic(x)
			}
		}()
		w.sub = &subState{noFork: true, cond: w.ts.True, masks: masks}
		inE := map[*ssa.BasicBlock][]redge{}
		reg := map[*ssa.BasicBlock]bool{}
		for _, b := range r.blocks {
			reg[b] = true
		}
		start := fr.block
		add := func(from, to *ssa.BasicBlock, cond *Term) {
			if cond.isFalse() {
				return
			}
			if reg[to] {
				inE[to] = append(inE[to], redge{from, cond})
				return
			}
			var e *exit
			for _, x := range exits {
				if x.b == to {
					e = x
				}
			}
			if e == nil {
				e = &exit{b: to, cond: w.ts.False}
				exits = append(exits, e)
			}
			e.edges = append(e.edges, redge{from, cond})
			e.cond = w.ts.Or(e.cond, cond)
		}
		add(start, start.Succs[0], c)
		add(start, start.Succs[1], w.ts.Not(c))
		for _, b := range r.blocks {
			es := inE[b]
			if len(es) == 0 {
				continue
			}
			cond := w.ts.False
			for _, e := range es {
				cond = w.ts.Or(cond, e.cond)
			}
			code := fr.cf.blocks[b.Index]
			np := 0
			var tmp []Value
			for np < len(code) {
				if _, ok := code[np].ins.(*ssa.Phi); !ok {
					break
				}
				v, ok := w.mergePhi(fr, &code[np], b, es)
				if !ok {
					return false
				}
				tmp = append(tmp, v)
				np++
			}
			for i, v := range tmp {
				fr.regs[code[i].dst] = v
			}
			for ci := np; ci < len(code); ci++ {
				in := &code[ci]
				w.steps++
				switch in.ins.(type) {
				case *ssa.If:
					c := w.boolTerm(w.get(fr, &in.ops[0]))
					add(b, b.Succs[0], w.ts.And(cond, c))
					add(b, b.Succs[1], w.ts.And(cond, w.ts.Not(c)))
				case *ssa.Jump:
					add(b, b.Succs[0], cond)
				default:
					w.step(fr, in)
				}
			}
		}
		for _, e := range exits {
			for k := range fr.cf.blocks[e.b.Index] {
				in := &fr.cf.blocks[e.b.Index][k]
				if _, ok := in.ins.(*ssa.Phi); !ok {
					break
				}
				v, ok := w.mergePhi(fr, in, e.b, e.edges)
				if !ok {
					return false
				}
				e.vals = append(e.vals, v)
			}
		}
		return len(exits) > 0
	}()
	if !ok {
		return false
	}
	var e *exit
	for i, x := range exits {
		if i == len(exits)-1 || w.decide(x.cond) {
			e = x
			break
		}
	}
	for i, v := range e.vals {
		fr.regs[fr.cf.blocks[e.b.Index][i].dst] = v
	}
	fr.prev = e.edges[0].pred
	fr.block = e.b
	fr.skipPhis = true
	return true
}

func (w *W) mergePhi(fr *frame, in *inst, b *ssa.BasicBlock, es []redge) (Value, bool) {
	vals := make([]Value, len(es))
	for i, e := range es {
		pi := -1
		for k, p := range b.Preds {
			if p == e.pred {
				pi = k // an If with both ways to the same block gives the same phi operand
			}
		}
		vals[i] = w.get(fr, &in.ops[pi])
	}
	same := true
	for i := 1; i < len(vals) && same; i++ {
		same = sameVal(vals[0], vals[i])
	}
	if same {
		return vals[0], true
	}
	t := in.ins.(*ssa.Phi).Type()
	if !basicType(t) {
		return nil, false
	}
	wd, _, isInt := intInfo(t)
	if isString(t) {
		n := -1
		for _, v := range vals {
			switch x := v.(type) {
			case string:
				if n >= 0 && n != len(x) {
					return nil, false
				}
				n = len(x)
			case *SymStr:
				if n >= 0 && n != len(x.b) {
					return nil, false
				}
				n = len(x.b)
			default:
				return nil, false
			}
		}
	} else if isInt && wd == 64 {
		// counters and indexes stay concrete
		for _, v := range vals {
			if _, ok := v.(*Term); ok {
				isInt = false
			}
		}
		if isInt {
			return nil, false
		}
	}
	r := vals[len(vals)-1]
	for i := len(vals) - 2; i >= 0; i-- {
		r = w.merge1(es[i].cond, vals[i], r, t)
	}
	return r, true
}

func sameVal(a, b Value) bool {
	switch x := a.(type) {
	case int64:
		y, ok := b.(int64)
		return ok && x == y
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case string:
		y, ok := b.(string)
		return ok && x == y
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case *SymStr:
		y, ok := b.(*SymStr)
		return ok && x == y
	case *Value:
		y, ok := b.(*Value)
		return ok && x == y
	}
	return false
}

// settled says whether the condition follows from what was already decided, without asking the solver
func (w *W) settled(c *Term) bool {
	var q int
	if w.sub != nil {
		saveM, saveE := w.masks, w.ent
		w.masks, w.ent = w.sub.masks, map[*Term]bool{}
		q = int(w.quick(c))
		w.masks, w.ent = saveM, saveE
	} else {
		q = int(w.quick(c))
	}
	return q == 0 || q == 1
}

func (w *W) regionAt(cf *cfunc, b *ssa.BasicBlock) *region {
	if w.eng.noSum || (w.sub != nil && w.sub.noFork) {
		return nil
	}
	cf.rmu.Lock()
	defer cf.rmu.Unlock()
	if cf.regions == nil {
		cf.regions = map[*ssa.BasicBlock]*region{}
	}
	r, ok := cf.regions[b]
	if !ok {
		r = w.regionOf(cf, b)
		cf.regions[b] = r
	}
	return r
}
