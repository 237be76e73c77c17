package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type targetPanic struct {
	v     Value // Iface
	where string
}

type opnd struct {
	k byte // 'r' register, 'c' constant, 'g' global
	i int
	c Value
	g *ssa.Global
}

type inst struct {
	ins ssa.Instruction
	dst int
	ops []opnd
	aux any
}

type cfunc struct {
	fn      *ssa.Function
	nregs   int
	blocks  [][]inst
	intr    Intrinsic
	name    string
	hasDef  bool
	params  int
	free    int
	repo    bool
	pure    int8
	ext     bool
	pkgInit bool
	native  *nativeInfo
	isInit  bool
	rmu     sync.Mutex
	regions map[*ssa.BasicBlock]*region
}

type Intrinsic func(w *W, fn *ssa.Function, args []Value) Value

type frame struct {
	cf        *cfunc
	regs      []Value
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	result    Value
	defers    []deferred
	panicing  bool
	panicv    *targetPanic
	caller    *frame
	cur       ssa.Instruction
	done      bool
	isDefer   bool
	deferOf   *frame
	recovered bool
	skipPhis  bool // mergeRegion has set the phis of the block
}

type deferred struct {
	fn   Value
	args []Value
	inv  *ssa.CallCommon
}

var cfCache sync.Map

func (e *Engine) compile(fn *ssa.Function) *cfunc {
	if c, ok := cfCache.Load(fn); ok {
		return c.(*cfunc)
	}
	e.cmu.Lock()
	defer e.cmu.Unlock()
	if c, ok := cfCache.Load(fn); ok {
		return c.(*cfunc)
	}
	cf := &cfunc{fn: fn}
	cf.name = fnName(fn)
	cf.intr = intrinsics[cf.name]
	cf.native = natives[cf.name]
	if cf.native != nil {
		cf.native.init()
	}
	if fn.Pkg != nil {
		cf.repo = strings.HasPrefix(fn.Pkg.Pkg.Path(), repoPrefix)
	}
	cf.isInit = fn.Synthetic == "package initializer"
	cf.params = len(fn.Params)
	cf.free = len(fn.FreeVars)
	if cf.intr == nil {
		if fn.Blocks == nil {
			cf.ext = true
		} else {
			e.compileBody(cf)
		}
	}
	cfCache.Store(fn, cf)
	return cf
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

func (e *Engine) compileBody(cf *cfunc) {
	fn := cf.fn
	slot := map[ssa.Value]int{}
	n := 0
	add := func(v ssa.Value) int {
		slot[v] = n
		n++
		return n - 1
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	cf.nregs = n
	cf.blocks = make([][]inst, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.DebugRef); ok {
				continue
			}
			in := inst{ins: i, dst: -1}
			if v, ok := i.(ssa.Value); ok {
				in.dst = slot[v]
			}
			var rands []*ssa.Value
			rands = i.Operands(rands)
			for _, r := range rands {
				if r == nil || *r == nil {
					in.ops = append(in.ops, opnd{k: 'c', c: nil})
					continue
				}
				switch v := (*r).(type) {
				case *ssa.Const:
					in.ops = append(in.ops, opnd{k: 'c', c: constVal(v)})
				case *ssa.Global:
					in.ops = append(in.ops, opnd{k: 'g', g: v})
				case *ssa.Function, *ssa.Builtin:
					in.ops = append(in.ops, opnd{k: 'c', c: v})
				default:
					s, ok := slot[v]
					if !ok {
						panic(fmt.Sprintf("no slot for %v in %s", v, fn))
					}
					in.ops = append(in.ops, opnd{k: 'r', i: s})
				}
			}
			switch x := i.(type) {
			case *ssa.Defer:
				cf.hasDef = true
			case *ssa.IndexAddr:
				onlyLoads := true
				for _, rf := range *x.Referrers() {
					switch u := rf.(type) {
					case *ssa.UnOp:
						if u.Op != token.MUL {
							onlyLoads = false
						}
					case *ssa.DebugRef:
					default:
						onlyLoads = false
					}
				}
				el := x.Type().(*types.Pointer).Elem()
				_, isb := under(el).(*types.Basic)
				in.aux = onlyLoads && isb && !isString(el)
			}
			cf.blocks[bi] = append(cf.blocks[bi], in)
		}
	}
}

func constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return zero(c.Type())
	}
	if b, ok := under(c.Type()).(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return constant.BoolVal(c.Value)
		case b.Info()&types.IsInteger != 0:
			if v, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
				return v
			}
			u, _ := constant.Uint64Val(constant.ToInt(c.Value))
			return int64(u)
		case b.Info()&types.IsFloat != 0:
			f := c.Float64()
			if b.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			return string(rune(c.Int64()))
		case b.Info()&types.IsComplex != 0:
			return c.Complex128()
		}
	}
	if _, ok := under(c.Type()).(*types.TypeParam); ok {
		return nil
	}
	panic(fmt.Sprintf("constVal %v", c))
}

func (w *W) get(fr *frame, o *opnd) Value {
	switch o.k {
	case 'r':
		return fr.regs[o.i]
	case 'c':
		return o.c
	}
	return w.global(o.g)
}

func (w *W) global(g *ssa.Global) *Value {
	local := g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), repoPrefix)
	tab, ini := w.shared, w.inited
	if local {
		tab, ini = w.local, w.linit
	}
	if p, ok := tab[g]; ok {
		return p
	}
	if g.Pkg != nil && !ini[g.Pkg] {
		ini[g.Pkg] = true
		for _, m := range g.Pkg.Members {
			if gg, ok := m.(*ssa.Global); ok {
				z := zero(gg.Type().(*types.Pointer).Elem())
				tab[gg] = &z
			}
		}
		if init := g.Pkg.Func("init"); init != nil && init.Blocks != nil && !skipInit[g.Pkg.Pkg.Path()] {
			saveSub := w.sub
			w.sub = nil
			w.inInit++
			st := w.steps
			w.call(init, nil)
			w.steps = st
			w.inInit--
			w.sub = saveSub
		}
		if f := globalFix[g.Pkg.Pkg.Path()]; f != nil {
			f(w, g.Pkg, tab)
		}
		if p, ok := tab[g]; ok {
			return p
		}
	}
	z := zero(g.Type().(*types.Pointer).Elem())
	tab[g] = &z
	return &z
}

var skipInit = map[string]bool{"runtime": true, "os": true, "syscall": true, "reflect": true, "internal/cpu": true, "internal/godebug": true,
	"testing": true, "net": true, "net/http": true, "internal/poll": true, "flag": true, "log": true, "encoding/json": true, "math/big": true,
	"crypto/tls": true, "crypto/x509": true, "math/rand": true, "text/template": true, "html": true, "encoding/json/v2": true, "encoding/json/jsontext": true}
var globalFix = map[string]func(w *W, p *ssa.Package, tab map[*ssa.Global]*Value){}

func (w *W) where() string {
	var sb strings.Builder
	n := 0
	for f := w.curFrame; f != nil && n < 8; f = f.caller {
		pos := token.Position{}
		if f.cur != nil {
			pos = w.eng.prog.Fset.Position(f.cur.Pos())
		}
		fmt.Fprintf(&sb, "%s (%s:%d) < ", f.cf.name, shortFile(pos.Filename), pos.Line)
		n++
	}
	return sb.String()
}

func shortFile(s string) string {
	p := strings.Split(s, "/")
	if len(p) > 2 {
		p = p[len(p)-2:]
	}
	return strings.Join(p, "/")
}

func (w *W) throw(v Value) {
	panic(&targetPanic{v: v, where: w.where()})
}

func (w *W) throwRT(msg string) {
	if w.sub != nil {
		panic(subAbort{})
	}
	panic(&targetPanic{v: Iface{w.eng.rtErr, msg}, where: w.where()})
}

func (w *W) panicString(p *targetPanic) string {
	s := ""
	i := w.asIface(p.v)
	if i.t != nil {
		switch x := i.v.(type) {
		case string:
			s = x
		case *SymStr, *LazyStr:
			s = "<symbolic string>"
		default:
			s = fmt.Sprintf("%v", i.t)
		}
	}
	return s + " @ " + p.where
}

// call invokes any function value.
func (w *W) call(fv Value, args []Value) Value {
	switch f := fv.(type) {
	case *ssa.Function:
		if f == nil {
			w.throwRT("invalid memory address or nil pointer dereference (nil func)")
		}
		return w.callFn(f, args, nil, nil)
	case *Closure:
		return w.callFn(f.fn, args, f.env, nil)
	case *NativeFn:
		return f.f(w, args)
	case nil:
		w.throwRT("invalid memory address or nil pointer dereference (nil func)")
	}
	panic(fmt.Sprintf("call of %T", fv))
}

func (w *W) callFn(fn *ssa.Function, args []Value, env []Value, deferOf *frame) Value {
	cf := w.eng.compile(fn)
	if cf.isInit && (w.curFrame != nil && w.curFrame.cf.isInit) {
		return nil // dependencies are initialised on first use
	}
	if cf.native != nil {
		if r, ok := cf.native.try(w, args); ok {
			return r
		}
	}
	if cf.intr != nil {
		w.funcs[fn] = true
		return cf.intr(w, fn, args)
	}
	if cf.ext {
		if w.inInit > 0 {
			return zeroResult(fn)
		}
		w.unsupported("no body: " + cf.name)
	}
	if env == nil && w.inInit == 0 {
		if r, ok := w.trySummary(cf, args); ok {
			return r
		}
	}
	return w.exec(cf, args, env, deferOf)
}

func zeroResult(fn *ssa.Function) Value {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return zero(res.At(0).Type())
	}
	t := make(Tuple, res.Len())
	for i := range t {
		t[i] = zero(res.At(i).Type())
	}
	return t
}

func (w *W) exec(cf *cfunc, args []Value, env []Value, deferOf *frame) Value {
	fr := &frame{cf: cf, regs: make([]Value, cf.nregs), caller: w.curFrame, deferOf: deferOf}
	if len(args) != cf.params {
		panic(fmt.Sprintf("arity %s: %d vs %d", cf.name, len(args), cf.params))
	}
	copy(fr.regs, args)
	copy(fr.regs[cf.params:], env)
	fr.block = cf.fn.Blocks[0]
	w.depth++
	w.curFrame = fr
	if !w.funcs[cf.fn] {
		w.funcs[cf.fn] = true
	}
	if w.depth > w.eng.maxDepth {
		if w.sub != nil {
			panic(subAbort{})
		}
		panic(pathEnd{"diverge", "call depth limit in " + cf.name + ": " + w.where()})
	}
	saveDepth := w.depth
	if cf.hasDef {
		for fr.block != nil {
			w.runGuarded(fr)
		}
	} else {
		w.run(fr)
	}
	w.depth = saveDepth - 1
	w.curFrame = fr.caller
	return fr.result
}

func (w *W) runGuarded(fr *frame) {
	depth := w.depth
	defer func() {
		if fr.block == nil {
			return
		}
		r := recover()
		tp, ok := r.(*targetPanic)
		if !ok {
			panic(r)
		}
		w.depth = depth
		w.curFrame = fr
		fr.panicing = true
		fr.panicv = tp
		w.runDefers(fr)
		// recovered
		fr.block = fr.cf.fn.Recover
		if fr.block == nil {
			fr.result = zeroResult(fr.cf.fn)
		}
	}()
	w.run(fr)
}

func (w *W) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			depth := w.depth
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(*targetPanic)
					if !ok {
						panic(r)
					}
					w.depth = depth
					w.curFrame = fr
					fr.panicing = true
					fr.panicv = tp
				}
			}()
			switch f := d.fn.(type) {
			case *ssa.Function:
				w.callFn(f, d.args, nil, fr)
			case *Closure:
				w.callFn(f.fn, d.args, f.env, fr)
			case *ssa.Builtin:
				w.builtin(fr, f, d.inv, d.args, nil)
			default:
				w.call(f, d.args)
			}
		}()
	}
	if fr.panicing {
		panic(fr.panicv)
	}
}

func (w *W) run(fr *frame) {
	cf := fr.cf
blocks:
	for {
		code := cf.blocks[fr.block.Index]
		// phis first, in parallel
		np := 0
		for np < len(code) {
			if _, ok := code[np].ins.(*ssa.Phi); !ok {
				break
			}
			np++
		}
		if np > 0 && fr.skipPhis {
			// set by mergeRegion
		} else if np > 0 {
			pi := -1
			for i, p := range fr.block.Preds {
				if p == fr.prev {
					pi = i
					break
				}
			}
			if np == 1 {
				fr.regs[code[0].dst] = w.get(fr, &code[0].ops[pi])
			} else {
				tmp := make([]Value, np)
				for i := 0; i < np; i++ {
					tmp[i] = w.get(fr, &code[i].ops[pi])
				}
				for i := 0; i < np; i++ {
					fr.regs[code[i].dst] = tmp[i]
				}
			}
		}
		fr.skipPhis = false
		for ci := np; ci < len(code); ci++ {
			in := &code[ci]
			fr.cur = in.ins
			w.steps++
			if w.steps > w.maxSteps {
				if w.sub != nil {
					panic(subAbort{})
				}
				panic(pathEnd{"diverge", "step limit: " + w.where()})
			}
			if w.steps&0xffff == 0 && w.eng.pool != nil && w.eng.pool.stopped.Load() {
				panic(pathEnd{"stop", ""})
			}
			switch in.ins.(type) {
			case *ssa.If:
				c := w.get(fr, &in.ops[0])
				var t bool
				if b, ok := c.(bool); ok {
					t = b
				} else {
					ct := c.(*Term)
					if rg := w.regionAt(cf, fr.block); rg != nil && !ct.isConst() && !w.settled(ct) && w.mergeRegion(fr, rg, ct) {
						continue blocks
					}
					t = w.decide(ct)
				}
				fr.prev = fr.block
				if t {
					fr.block = fr.block.Succs[0]
				} else {
					fr.block = fr.block.Succs[1]
				}
				continue blocks
			case *ssa.Jump:
				fr.prev = fr.block
				fr.block = fr.block.Succs[0]
				continue blocks
			case *ssa.Return:
				switch len(in.ops) {
				case 0:
				case 1:
					fr.result = w.get(fr, &in.ops[0])
				default:
					t := make(Tuple, len(in.ops))
					for i := range in.ops {
						t[i] = w.get(fr, &in.ops[i])
					}
					fr.result = t
				}
				fr.block = nil
				return
			case *ssa.Panic:
				w.throw(w.get(fr, &in.ops[0]))
			case *ssa.RunDefers:
				w.runDefers(fr)
			default:
				w.step(fr, in)
			}
		}
		panic("fell off block in " + cf.name)
	}
}

func (w *W) step(fr *frame, in *inst) {
	var r Value
	switch x := in.ins.(type) {
	case *ssa.BinOp:
		r = w.binop(x.Op, x.X.Type(), w.get(fr, &in.ops[0]), w.get(fr, &in.ops[1]), x.Y.Type())
	case *ssa.UnOp:
		r = w.unop(x, w.get(fr, &in.ops[0]))
	case *ssa.Call:
		r = w.doCall(fr, &x.Call, in)
	case *ssa.FieldAddr:
		p := w.ptr(w.get(fr, &in.ops[0]))
		s, ok := (*p).(Struct)
		if !ok {
			w.unsupported(fmt.Sprintf("FieldAddr on %T in %s", *p, w.where()))
		}
		r = &s[x.Field]
	case *ssa.Field:
		s := w.get(fr, &in.ops[0]).(Struct)
		r = s[x.Field]
	case *ssa.Store:
		w.store(w.get(fr, &in.ops[0]), w.get(fr, &in.ops[1]))
		return
	case *ssa.Alloc:
		z := zero(x.Type().(*types.Pointer).Elem())
		r = &z
	case *ssa.IndexAddr:
		r = w.indexAddr(x, in, w.get(fr, &in.ops[0]), w.get(fr, &in.ops[1]))
	case *ssa.Index:
		r = w.index(x, w.get(fr, &in.ops[0]), w.get(fr, &in.ops[1]))
	case *ssa.Lookup:
		r = w.lookup(x, w.get(fr, &in.ops[0]), w.get(fr, &in.ops[1]))
	case *ssa.MapUpdate:
		m := w.get(fr, &in.ops[0]).(*MapV)
		if m == nil {
			w.throw(Iface{w.eng.rtErr, "assignment to entry in nil map"})
		}
		if w.sub != nil {
			panic(subAbort{})
		}
		w.mapSet(under(x.Map.Type()).(*types.Map), m, w.get(fr, &in.ops[1]), copyVal(w.get(fr, &in.ops[2])))
		return
	case *ssa.MakeInterface:
		v := w.get(fr, &in.ops[0])
		r = Iface{x.X.Type(), copyVal(v)}
	case *ssa.TypeAssert:
		r = w.typeAssert(x, w.asIface(w.get(fr, &in.ops[0])))
	case *ssa.ChangeType, *ssa.ChangeInterface:
		r = w.get(fr, &in.ops[0])
	case *ssa.Convert:
		r = w.convert(x.X.Type(), x.Type(), w.get(fr, &in.ops[0]))
	case *ssa.MultiConvert:
		r = w.convert(x.X.Type(), x.Type(), w.get(fr, &in.ops[0]))
	case *ssa.Extract:
		r = w.get(fr, &in.ops[0]).(Tuple)[x.Index]
	case *ssa.Slice:
		r = w.slice(x, fr, in)
	case *ssa.MakeSlice:
		n := w.concInt(w.get(fr, &in.ops[0]), true)
		c := w.concInt(w.get(fr, &in.ops[1]), true)
		if n < 0 || c < n {
			w.throwRT("makeslice: len out of range")
		}
		if c > 1<<24 {
			w.unsupported("huge make")
		}
		el := under(x.Type()).(*types.Slice).Elem()
		a := make([]Value, c)
		switch under(el).(type) {
		case *types.Struct, *types.Array:
			for i := range a {
				a[i] = zero(el)
			}
		default:
			z := zero(el)
			for i := range a {
				a[i] = z
			}
		}
		r = a[:n]
	case *ssa.MakeMap:
		r = &MapV{}
	case *ssa.MakeChan:
		r = &ChanV{}
	case *ssa.MakeClosure:
		env := make([]Value, len(in.ops)-1)
		for i := range env {
			env[i] = w.get(fr, &in.ops[i+1])
		}
		r = &Closure{x.Fn.(*ssa.Function), env}
	case *ssa.Range:
		r = w.rangeIter(x, w.get(fr, &in.ops[0]))
	case *ssa.Next:
		r = w.next(x, w.get(fr, &in.ops[0]))
	case *ssa.Defer:
		if w.sub != nil {
			panic(subAbort{})
		}
		fv, args := w.callee(fr, &x.Call, in)
		fr.defers = append(fr.defers, deferred{fn: fv, args: args, inv: &x.Call})
		return
	case *ssa.Go:
		fv, args := w.callee(fr, &x.Call, in)
		w.call(fv, args) // goroutines run to completion at the go statement
		return
	case *ssa.Send:
		c := w.get(fr, &in.ops[0]).(*ChanV)
		c.buf = append(c.buf, w.get(fr, &in.ops[1]))
		return
	case *ssa.SliceToArrayPointer:
		s := w.get(fr, &in.ops[0]).([]Value)
		n := under(x.Type()).(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if int64(len(s)) < n {
			w.throwRT("cannot convert slice to array pointer")
		}
		var v Value = Array(s[:n:n])
		r = &v
	case *ssa.Phi:
		panic("phi")
	default:
		w.unsupported(fmt.Sprintf("instruction %T", in.ins))
	}
	if in.dst >= 0 {
		fr.regs[in.dst] = r
	}
}

func (w *W) ptr(v Value) *Value {
	p, ok := v.(*Value)
	if !ok {
		w.unsupported(fmt.Sprintf("pointer %T at %s", v, w.where()))
	}
	if p == nil {
		w.throwRT("invalid memory address or nil pointer dereference")
	}
	return p
}

func (w *W) store(pv, v Value) {
	if w.sub != nil && !w.sub.allowStore(pv) {
		panic(subAbort{})
	}
	storeInto(w.ptr(pv), v)
}

func (w *W) load(pv Value) Value {
	if sp, ok := pv.(*SymPtr); ok {
		return w.symLoad(sp)
	}
	return copyVal(*w.ptr(pv))
}

func (w *W) symLoad(sp *SymPtr) Value {
	wd, signed, isInt := intInfo(sp.t)
	n := len(sp.arr)
	lo, hi := sp.idx.urange()
	if hi >= uint64(n) {
		hi = uint64(n - 1)
	}
	var r *Term
	for i := int(hi); i >= int(lo); i-- {
		var e *Term
		if isInt {
			e = w.intTerm(sp.arr[i], wd)
		} else {
			e = w.boolTerm(sp.arr[i])
		}
		if r == nil {
			r = e
			continue
		}
		r = w.ts.Ite(w.ts.Eq(sp.idx, w.ts.Const(sp.idx.sort, uint64(i))), e, r)
	}
	return termVal(r, signed)
}

func (w *W) unop(x *ssa.UnOp, v Value) Value {
	switch x.Op {
	case token.MUL:
		return w.load(v)
	case token.NOT:
		return w.not(v)
	case token.SUB:
		if wd, s, ok := intInfo(x.Type()); ok {
			if i, c := v.(int64); c {
				return normInt(-i, wd, s)
			}
			return termVal(w.ts.Neg(v.(*Term)), s)
		}
		return -w.flt(v)
	case token.XOR:
		wd, s, _ := intInfo(x.Type())
		if i, c := v.(int64); c {
			return normInt(^i, wd, s)
		}
		return termVal(w.ts.Bnot(v.(*Term)), s)
	case token.ARROW:
		c := v.(*ChanV)
		if c == nil || len(c.buf) == 0 {
			if c != nil && c.closed {
				z := zero(under(x.X.Type()).(*types.Chan).Elem())
				if x.CommaOk {
					return Tuple{z, false}
				}
				return z
			}
			w.unsupported("receive on empty channel")
		}
		e := c.buf[0]
		c.buf = c.buf[1:]
		if x.CommaOk {
			return Tuple{e, true}
		}
		return e
	}
	panic("unop " + x.Op.String())
}

func (w *W) binop(op token.Token, t types.Type, a, b Value, tb types.Type) Value {
	switch op {
	case token.EQL:
		return w.eqOp(t, tb, a, b)
	case token.NEQ:
		return w.not(w.eqOp(t, tb, a, b))
	}
	if wd, signed, ok := intInfo(t); ok {
		x, c1 := a.(int64)
		y, c2 := b.(int64)
		if c1 && c2 {
			return w.intOp(op, wd, signed, x, y, tb)
		}
		if isOp(a) || isOp(b) {
			w.unsupported("arithmetic on opaque value")
		}
		if op == token.SHL || op == token.SHR {
			return w.symShift(op, wd, signed, a, b, tb)
		}
		p, q := w.intTerm(a, wd), w.intTerm(b, wd)
		ts := w.ts
		var r *Term
		switch op {
		case token.ADD:
			r = ts.Bin(OAdd, p, q)
		case token.SUB:
			r = ts.Bin(OSub, p, q)
		case token.MUL:
			r = ts.Bin(OMul, p, q)
		case token.QUO, token.REM:
			if w.truth(termVal(ts.Eq(q, ts.Const(wd, 0)), false)) {
				w.throwRT("integer divide by zero")
			}
			o := map[bool]map[token.Token]Op{true: {token.QUO: OSdiv, token.REM: OSrem}, false: {token.QUO: OUdiv, token.REM: OUrem}}[signed][op]
			r = ts.Bin(o, p, q)
		case token.AND:
			r = ts.Bin(OBand, p, q)
		case token.OR:
			r = ts.Bin(OBor, p, q)
		case token.XOR:
			r = ts.Bin(OBxor, p, q)
		case token.AND_NOT:
			r = ts.Bin(OBand, p, ts.Bnot(q))
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if op == token.GTR || op == token.GEQ {
				p, q = q, p
			}
			strict := op == token.LSS || op == token.GTR
			switch {
			case signed && strict:
				r = ts.Slt(p, q)
			case signed:
				r = ts.Sle(p, q)
			case strict:
				r = ts.Ult(p, q)
			default:
				r = ts.Ule(p, q)
			}
		default:
			panic("binop " + op.String())
		}
		return termVal(r, signed)
	}
	bt, _ := under(t).(*types.Basic)
	if bt == nil {
		w.unsupported(fmt.Sprintf("binop %s on %v", op, t))
	}
	if bt.Info()&types.IsString != 0 {
		switch op {
		case token.ADD:
			return w.concat(a, b)
		case token.LSS:
			return w.strLess(a, b)
		case token.GTR:
			return w.strLess(b, a)
		case token.LEQ:
			return w.not(w.strLess(b, a))
		case token.GEQ:
			return w.not(w.strLess(a, b))
		}
	}
	if bt.Info()&types.IsFloat != 0 {
		x, y := w.flt(a), w.flt(b)
		var f float64
		switch op {
		case token.ADD:
			f = x + y
		case token.SUB:
			f = x - y
		case token.MUL:
			f = x * y
		case token.QUO:
			f = x / y
		case token.LSS:
			return x < y
		case token.LEQ:
			return x <= y
		case token.GTR:
			return x > y
		case token.GEQ:
			return x >= y
		}
		if bt.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return f
	}
	if bt.Info()&types.IsBoolean != 0 {
		switch op {
		case token.AND:
			return w.and(a, b)
		case token.OR:
			return w.not(w.and(w.not(a), w.not(b)))
		}
	}
	w.unsupported(fmt.Sprintf("binop %s on %v", op, t))
	return nil
}

func (w *W) eqOp(t, tb types.Type, a, b Value) Value {
	_, ia := under(t).(*types.Interface)
	_, ib := under(tb).(*types.Interface)
	if ia && !ib {
		if bb, ok := under(tb).(*types.Basic); !ok || bb.Kind() != types.UntypedNil {
			b = Iface{tb, b}
		}
	} else if ib && !ia {
		if aa, ok := under(t).(*types.Basic); !ok || aa.Kind() != types.UntypedNil {
			a = Iface{t, a}
		}
		t = tb
	}
	return w.eq(t, a, b)
}

func (w *W) intOp(op token.Token, wd int16, signed bool, x, y int64, tb types.Type) Value {
	switch op {
	case token.ADD:
		return normInt(x+y, wd, signed)
	case token.SUB:
		return normInt(x-y, wd, signed)
	case token.MUL:
		return normInt(x*y, wd, signed)
	case token.QUO:
		if y == 0 {
			w.throwRT("integer divide by zero")
		}
		if signed {
			if y == -1 {
				return normInt(-x, wd, signed)
			}
			return normInt(x/y, wd, signed)
		}
		return normInt(int64(uint64(x)/uint64(y)), wd, signed)
	case token.REM:
		if y == 0 {
			w.throwRT("integer divide by zero")
		}
		if signed {
			if y == -1 {
				return int64(0)
			}
			return normInt(x%y, wd, signed)
		}
		return normInt(int64(uint64(x)%uint64(y)), wd, signed)
	case token.AND:
		return x & y
	case token.OR:
		return x | y
	case token.XOR:
		return normInt(x^y, wd, signed)
	case token.AND_NOT:
		return normInt(x&^y, wd, signed)
	case token.SHL, token.SHR:
		_, ys, _ := intInfo(tb)
		if ys && y < 0 {
			w.throwRT("negative shift amount")
		}
		s := uint64(y)
		if op == token.SHL {
			if s >= 64 {
				return int64(0)
			}
			return normInt(x<<s, wd, signed)
		}
		if signed {
			if s > 63 {
				s = 63
			}
			return x >> s
		}
		if s >= 64 {
			return int64(0)
		}
		return int64(uint64(x) >> s)
	case token.LSS:
		if signed {
			return x < y
		}
		return uint64(x) < uint64(y)
	case token.LEQ:
		if signed {
			return x <= y
		}
		return uint64(x) <= uint64(y)
	case token.GTR:
		if signed {
			return x > y
		}
		return uint64(x) > uint64(y)
	case token.GEQ:
		if signed {
			return x >= y
		}
		return uint64(x) >= uint64(y)
	}
	panic("intOp " + op.String())
}

func (w *W) symShift(op token.Token, wd int16, signed bool, a, b Value, tb types.Type) Value {
	yw, ys, _ := intInfo(tb)
	ts := w.ts
	y := w.intTerm(b, yw)
	if ys {
		if w.truth(termVal(ts.Slt(y, ts.Const(yw, 0)), false)) {
			w.throwRT("negative shift amount")
		}
	}
	// saturate the amount to the operand width
	var yy *Term
	if yw <= wd {
		yy = ts.Zext(y, wd)
	} else {
		big := ts.Ule(ts.Const(yw, uint64(wd)), y)
		yy = ts.Ite(big, ts.Const(wd, uint64(wd)), ts.Extract(y, int(wd)-1, 0))
	}
	x := w.intTerm(a, wd)
	var r *Term
	switch {
	case op == token.SHL:
		r = ts.Bin(OShl, x, yy)
	case signed:
		r = ts.Bin(OAshr, x, yy)
	default:
		r = ts.Bin(OLshr, x, yy)
	}
	return termVal(r, signed)
}

// boundIdx checks 0 <= idx < n and returns it concrete or as a term
func (w *W) boundIdx(idx Value, it types.Type, n int) Value {
	wd, signed, _ := intInfo(it)
	switch i := idx.(type) {
	case int64:
		if (signed && i < 0) || uint64(i) >= uint64(n) {
			w.throwRT(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return i
	case *Term:
		ts := w.ts
		var ok *Term
		if uint64(n) > wmask(wd) {
			ok = ts.True
			if signed {
				ok = ts.Sle(ts.Const(wd, 0), i)
			}
		} else {
			ok = ts.Ult(i, ts.Const(wd, uint64(n)))
			if signed && uint64(n) > wmask(wd)>>1 {
				ok = ts.Sle(ts.Const(wd, 0), i)
			}
		}
		if !w.truth(termVal(ok, false)) {
			w.throwRT(fmt.Sprintf("index out of range [symbolic] with length %d", n))
		}
		return i
	}
	panic(fmt.Sprintf("boundIdx %T", idx))
}

func (w *W) indexAddr(x *ssa.IndexAddr, in *inst, base, idx Value) Value {
	var arr []Value
	switch b := base.(type) {
	case []Value:
		arr = b
	case *Value:
		p := w.ptr(b)
		arr = (*p).(Array)
	default:
		w.unsupported(fmt.Sprintf("IndexAddr on %T", base))
	}
	i := w.boundIdx(idx, x.Index.Type(), len(arr))
	if t, ok := i.(*Term); ok {
		if in.aux == true && len(arr) <= 1024 && allScalar(arr) {
			return &SymPtr{arr: arr, idx: t, t: x.Type().(*types.Pointer).Elem()}
		}
		_, s, _ := intInfo(x.Index.Type())
		i = w.concInt(t, s)
	}
	return &arr[i.(int64)]
}

func allScalar(a []Value) bool {
	for _, v := range a {
		switch v.(type) {
		case int64, bool, *Term:
		default:
			return false
		}
	}
	return true
}

func (w *W) index(x *ssa.Index, base, idx Value) Value {
	switch b := base.(type) {
	case Array:
		i := w.boundIdx(idx, x.Index.Type(), len(b))
		if t, ok := i.(*Term); ok {
			if allScalar(b) {
				return w.symLoad(&SymPtr{arr: b, idx: t, t: x.Type()})
			}
			i = w.concInt(t, true)
		}
		return copyVal(b[i.(int64)])
	default:
		return w.strIndex(base, idx, x.Index.Type())
	}
}

func (w *W) strIndex(base, idx Value, it types.Type) Value {
	base = w.str(base)
	i := w.boundIdx(idx, it, w.strLen(base))
	if t, ok := i.(*Term); ok {
		return w.symLoad(&SymPtr{arr: w.strBytes(base), idx: t, t: types.Typ[types.Uint8]})
	}
	if s, ok := base.(string); ok {
		return int64(s[i.(int64)])
	}
	return base.(*SymStr).b[i.(int64)]
}

func (w *W) lookup(x *ssa.Lookup, base, idx Value) Value {
	if mt, ok := under(x.X.Type()).(*types.Map); ok {
		m := base.(*MapV)
		e := w.mapFind(mt, m, idx)
		var v Value
		if e != nil {
			v = copyVal(e.v)
		} else {
			v = zero(mt.Elem())
		}
		if x.CommaOk {
			return Tuple{v, e != nil}
		}
		return v
	}
	return w.strIndex(base, idx, x.Index.Type())
}

func (w *W) slice(x *ssa.Slice, fr *frame, in *inst) Value {
	base := w.get(fr, &in.ops[0])
	optional := func(k int, v ssa.Value) (int64, bool) {
		if v == nil {
			return 0, false
		}
		_, s, _ := intInfo(v.Type())
		return w.concInt(w.get(fr, &in.ops[k]), s), true
	}
	lo, _ := optional(1, x.Low)
	hi, hasHi := optional(2, x.High)
	mx, hasMax := optional(3, x.Max)
	switch b := base.(type) {
	case string, *SymStr, *LazyStr:
		n := int64(w.strLen(b))
		if !hasHi {
			hi = n
		}
		if lo < 0 || hi < lo || hi > n {
			w.throwRT(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, n))
		}
		return w.strSlice(b, int(lo), int(hi))
	case []Value:
		if !hasHi {
			hi = int64(len(b))
		}
		c := int64(cap(b))
		if !hasMax {
			mx = c
		}
		if lo < 0 || hi < lo || hi > mx || mx > c {
			w.throwRT(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, c))
		}
		if b == nil {
			return b
		}
		return b[lo:hi:mx]
	case *Value:
		p := w.ptr(b)
		a := []Value((*p).(Array))
		if !hasHi {
			hi = int64(len(a))
		}
		c := int64(len(a))
		if !hasMax {
			mx = c
		}
		if lo < 0 || hi < lo || hi > mx || mx > c {
			w.throwRT("slice bounds out of range (array)")
		}
		return a[lo:hi:mx]
	}
	panic(fmt.Sprintf("slice of %T", base))
}

func (w *W) typeAssert(x *ssa.TypeAssert, v Iface) Value {
	ok := false
	if v.t != nil {
		if it, isI := under(x.AssertedType).(*types.Interface); isI {
			ok = w.implements(v.t, it)
		} else {
			ok = types.Identical(v.t, x.AssertedType)
		}
	}
	var r Value
	if ok {
		if types.IsInterface(x.AssertedType) {
			r = v
		} else {
			r = copyVal(v.v)
		}
	} else {
		if !x.CommaOk {
			d := "nil"
			if v.t != nil {
				d = v.t.String()
			}
			w.throw(Iface{w.eng.rtErr, fmt.Sprintf("interface conversion: interface is %s, not %s", d, x.AssertedType)})
		}
		r = zero(x.AssertedType)
	}
	if x.CommaOk {
		return Tuple{r, ok}
	}
	return r
}

type implKey struct {
	t  types.Type
	it *types.Interface
}

var implCache sync.Map

func (w *W) implements(t types.Type, it *types.Interface) bool {
	k := implKey{t, it}
	if v, ok := implCache.Load(k); ok {
		return v.(bool)
	}
	r := types.Implements(t, it)
	implCache.Store(k, r)
	return r
}

func (w *W) callee(fr *frame, c *ssa.CallCommon, in *inst) (Value, []Value) {
	// operand order: Value, then Args (for invoke mode too)
	fv := w.get(fr, &in.ops[0])
	var args []Value
	if c.IsInvoke() {
		i := w.asIface(fv)
		if i.t == nil {
			w.throwRT("invalid memory address or nil pointer dereference (method call on nil interface)")
		}
		m := w.findMethod(i.t, c.Method)
		args = make([]Value, 0, len(in.ops))
		args = append(args, copyVal(i.v))
		for k := 1; k <= len(c.Args); k++ {
			args = append(args, w.get(fr, &in.ops[k]))
		}
		return m, args
	}
	args = make([]Value, len(c.Args)) // (a Defer has one more operand, its stack)
	for k := range args {
		args[k] = w.get(fr, &in.ops[k+1])
	}
	return fv, args
}

type mkey struct {
	t types.Type
	m *types.Func
}

var methCache sync.Map

func (w *W) findMethod(t types.Type, m *types.Func) *ssa.Function {
	k := mkey{t, m}
	if f, ok := methCache.Load(k); ok {
		return f.(*ssa.Function)
	}
	w.eng.cmu.Lock()
	f := w.eng.prog.LookupMethod(t, m.Pkg(), m.Name())
	w.eng.cmu.Unlock()
	if f == nil {
		w.unsupported(fmt.Sprintf("no method %s on %v", m.Name(), t))
	}
	methCache.Store(k, f)
	return f
}

func (w *W) methodByName(t types.Type, name string) *ssa.Function {
	w.eng.cmu.Lock()
	defer w.eng.cmu.Unlock()
	sel := w.eng.prog.MethodSets.MethodSet(t).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	return w.eng.prog.MethodValue(sel)
}

func (w *W) doCall(fr *frame, c *ssa.CallCommon, in *inst) Value {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		args := make([]Value, len(in.ops)-1)
		for k := range args {
			args[k] = w.get(fr, &in.ops[k+1])
		}
		return w.builtin(fr, b, c, args, in)
	}
	fv, args := w.callee(fr, c, in)
	switch f := fv.(type) {
	case *ssa.Function:
		if f == nil {
			w.throwRT("invalid memory address or nil pointer dereference (nil func)")
		}
		return w.callFn(f, args, nil, nil)
	case *Closure:
		return w.callFn(f.fn, args, f.env, nil)
	}
	return w.call(fv, args)
}

func (w *W) builtin(fr *frame, b *ssa.Builtin, c *ssa.CallCommon, args []Value, in *inst) Value {
	switch b.Name() {
	case "Sizeof":
		return types.SizesFor("gc", "amd64").Sizeof(c.Args[0].Type())
	case "len":
		switch x := args[0].(type) {
		case string, *SymStr, *LazyStr:
			return int64(w.strLen(x))
		case []Value:
			return int64(len(x))
		case *MapV:
			if x == nil {
				return int64(0)
			}
			return int64(x.n)
		case Array:
			return int64(len(x))
		case *Value:
			return int64(len((*w.ptr(x)).(Array)))
		case *ChanV:
			return int64(len(x.buf))
		}
	case "cap":
		switch x := args[0].(type) {
		case []Value:
			return int64(cap(x))
		case Array:
			return int64(len(x))
		case *Value:
			return int64(len((*w.ptr(x)).(Array)))
		}
		return int64(0)
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		if w.sub != nil {
			panic(subAbort{})
		}
		s := args[0].([]Value)
		switch y := args[1].(type) {
		case []Value:
			if len(y) == 0 {
				return s
			}
			for _, e := range y {
				s = append(s, copyVal(e))
			}
			return s
		default:
			return append(s, w.strBytes(y)...)
		}
	case "copy":
		if w.sub != nil {
			panic(subAbort{})
		}
		d := args[0].([]Value)
		var src []Value
		if y, ok := args[1].([]Value); ok {
			src = y
		} else {
			src = w.strBytes(args[1])
		}
		n := len(d)
		if len(src) < n {
			n = len(src)
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			storeInto(&d[i], tmp[i])
		}
		return int64(n)
	case "delete":
		if w.sub != nil {
			panic(subAbort{})
		}
		if m := args[0].(*MapV); m != nil {
			w.mapDel(under(c.Args[0].Type()).(*types.Map), m, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x != nil {
				*x = MapV{}
			}
		case []Value:
			el := under(c.Args[0].Type()).(*types.Slice).Elem()
			for i := range x {
				x[i] = zero(el)
			}
		}
		return nil
	case "print", "println":
		return nil
	case "panic":
		w.throw(args[0])
	case "recover":
		return w.doRecover(fr)
	case "min", "max":
		t := c.Args[0].Type()
		r := args[0]
		for _, a := range args[1:] {
			var less Value
			if b.Name() == "min" {
				less = w.binop(token.LSS, t, a, r, t)
			} else {
				less = w.binop(token.LSS, t, r, a, t)
			}
			if lb, ok := less.(bool); ok {
				if lb {
					r = a
				}
			} else if wd, sg, isI := intInfo(t); isI {
				r = termVal(w.ts.Ite(less.(*Term), w.intTerm(a, wd), w.intTerm(r, wd)), sg)
			} else if w.truth(less) {
				r = a
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			w.throwRT("value method called using nil pointer")
		}
		return args[0]
	case "close":
		args[0].(*ChanV).closed = true
		return nil
	case "String": // unsafe.String(ptr, len): only reached with the slice itself from SliceData
		if s, ok := args[0].([]Value); ok {
			n := w.concInt(args[1], true)
			return mkStr(append([]Value(nil), s[:n]...))
		}
	case "SliceData":
		return args[0]
	case "StringData":
		return args[0]
	case "Slice":
		switch args[0].(type) {
		case string, *SymStr, *LazyStr:
			return append([]Value{}, w.strBytes(args[0])...)
		case []Value:
			return args[0].([]Value)[:w.concInt(args[1], true)]
		}
	}
	w.unsupported("builtin " + b.Name())
	return nil
}

func (w *W) doRecover(fr *frame) Value {
	// recover is effective only in a function called directly by a deferring frame that is panicking
	d := fr.deferOf
	if d != nil && d.panicing {
		d.panicing = false
		v := d.panicv.v
		d.panicv = nil
		if v == nil {
			return Iface{}
		}
		return v
	}
	return Iface{}
}

// ---- conversions ----

func (w *W) convert(from, to types.Type, v Value) Value {
	fu, tu := under(from), under(to)
	if _, ok := fu.(*types.TypeParam); ok {
		w.unsupported("conversion of type parameter")
	}
	switch t := tu.(type) {
	case *types.Basic:
		if t.Kind() == types.UnsafePointer {
			return v
		}
		if tw, ts, ok := intInfo(to); ok {
			if fw, fs, fok := intInfo(from); fok {
				_ = fw
				switch x := v.(type) {
				case int64:
					return normInt(x, tw, ts)
				case *Term:
					return termVal(w.ts.Resize(x, tw, fs), ts)
				case *Opaque:
					return x
				}
				panic(fmt.Sprintf("convert int %T", v))
			}
			if fb, ok := fu.(*types.Basic); ok && fb.Info()&types.IsFloat != 0 {
				f := w.flt(v)
				if !ts && tw == 64 && f >= math.MaxInt64 {
					return int64(uint64(f))
				}
				return normInt(int64(f), tw, ts)
			}
			if fb, ok := fu.(*types.Basic); ok && fb.Kind() == types.UnsafePointer {
				return int64(0)
			}
		}
		if t.Info()&types.IsFloat != 0 {
			if _, fs, ok := intInfo(from); ok {
				x := w.concInt(v, fs)
				var f float64
				if fs {
					f = float64(x)
				} else {
					f = float64(uint64(x))
				}
				if t.Kind() == types.Float32 {
					f = float64(float32(f))
				}
				return f
			}
			f := w.flt(v)
			if t.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f
		}
		if t.Info()&types.IsString != 0 {
			switch f := fu.(type) {
			case *types.Basic:
				if f.Info()&types.IsString != 0 {
					return v
				}
				if f.Info()&types.IsInteger != 0 {
					return mkStr(w.encodeRune(v, from))
				}
			case *types.Slice:
				s := v.([]Value)
				if eb, ok := under(f.Elem()).(*types.Basic); ok {
					if eb.Kind() == types.Uint8 {
						return mkStr(append([]Value(nil), s...))
					}
					var out []Value
					for _, r := range s {
						out = append(out, w.encodeRune(r, types.Typ[types.Int32])...)
					}
					return mkStr(out)
				}
			}
		}
		if t.Info()&types.IsBoolean != 0 {
			return v
		}
		if t.Info()&types.IsComplex != 0 {
			return v
		}
	case *types.Slice:
		if fb, ok := fu.(*types.Basic); ok && fb.Info()&types.IsString != 0 {
			eb := under(t.Elem()).(*types.Basic)
			if eb.Kind() == types.Uint8 {
				return append([]Value{}, w.strBytes(v)...)
			}
			out := []Value{}
			b := w.strBytes(v)
			for i := 0; i < len(b); {
				r, n := w.decodeRune(b[i:])
				out = append(out, r)
				i += n
			}
			return out
		}
		return v
	case *types.Pointer:
		return v
	case *types.Array:
		if s, ok := v.([]Value); ok {
			if int64(len(s)) < t.Len() {
				w.throwRT("cannot convert slice to array")
			}
			return copyVal(Array(s[:t.Len()]))
		}
		return v
	}
	return v
}

// encodeRune returns the UTF-8 bytes of a rune value
func (w *W) encodeRune(v Value, t types.Type) []Value {
	wd, signed, _ := intInfo(t)
	if x, ok := v.(int64); ok {
		var s string
		if x < 0 || x > 0x10ffff {
			s = "\uFFFD"
		} else {
			s = string(rune(x))
		}
		return w.strBytes(s)
	}
	x := v.(*Term)
	ts := w.ts
	_ = signed
	if w.truth(termVal(ts.Ult(x, ts.Const(wd, min(0x80, wmask(wd)))), false)) || (wd == 8 && false) {
		return []Value{termVal(ts.Resize(x, 8, false), false)}
	}
	x32 := ts.Resize(x, 32, false)
	c := func(hi, lo int, or uint64) Value {
		e := ts.Zext(ts.Extract(x32, hi, lo), 8)
		return termVal(ts.Bin(OBor, e, ts.Const(8, or)), false)
	}
	if w.truth(termVal(ts.Ult(x32, ts.Const(32, 0x800)), false)) {
		return []Value{c(10, 6, 0xc0), c(5, 0, 0x80)}
	}
	bad := ts.Or(ts.Ult(ts.Const(32, 0x10ffff), x32), ts.And(ts.Ule(ts.Const(32, 0xd800), x32), ts.Ule(x32, ts.Const(32, 0xdfff))))
	if w.truth(termVal(bad, false)) {
		return w.strBytes("\uFFFD")
	}
	if w.truth(termVal(ts.Ult(x32, ts.Const(32, 0x10000)), false)) {
		return []Value{c(15, 12, 0xe0), c(11, 6, 0x80), c(5, 0, 0x80)}
	}
	return []Value{c(20, 18, 0xf0), c(17, 12, 0x80), c(11, 6, 0x80), c(5, 0, 0x80)}
}

// decodeRune decodes the first rune of b (non-empty)
func (w *W) decodeRune(b []Value) (Value, int) {
	ts := w.ts
	if x, ok := b[0].(int64); ok && x < 0x80 {
		return x, 1
	}
	if isConcrete(b[:min(len(b), 4)]) {
		buf := make([]byte, min(len(b), 4))
		for i := range buf {
			buf[i] = byte(b[i].(int64))
		}
		for i, r := range string(buf) {
			if i == 0 {
				n := 0
				for j := range string(buf) {
					if j > 0 {
						n = j
						break
					}
				}
				if n == 0 {
					n = len(buf)
				}
				return int64(r), n
			}
		}
	}
	b0 := w.byteTerm(b[0])
	if w.truth(termVal(ts.Ult(b0, ts.Const(8, 0x80)), false)) {
		return termVal(ts.Zext(b0, 32), true), 1
	}
	bad := func() (Value, int) { return int64(0xfffd), 1 }
	in := func(x *Term, lo, hi uint64) *Term {
		return ts.And(ts.Ule(ts.Const(8, lo), x), ts.Ule(x, ts.Const(8, hi)))
	}
	tr := func(c *Term) bool { return w.truth(termVal(c, false)) }
	low := func(x *Term, nb int) *Term { return ts.Zext(ts.Extract(x, nb-1, 0), 32) }
	sh := func(x *Term, n uint64) *Term { return ts.Bin(OShl, x, ts.Const(32, n)) }
	or := func(a, b *Term) *Term { return ts.Bin(OBor, a, b) }
	if tr(in(b0, 0xc2, 0xdf)) {
		if len(b) < 2 {
			return bad()
		}
		b1 := w.byteTerm(b[1])
		if !tr(in(b1, 0x80, 0xbf)) {
			return bad()
		}
		return termVal(or(sh(low(b0, 5), 6), low(b1, 6)), true), 2
	}
	if tr(in(b0, 0xe0, 0xef)) {
		if len(b) < 3 {
			return bad()
		}
		b1, b2 := w.byteTerm(b[1]), w.byteTerm(b[2])
		lo := ts.Ite(ts.Eq(b0, ts.Const(8, 0xe0)), ts.Const(8, 0xa0), ts.Const(8, 0x80))
		hi := ts.Ite(ts.Eq(b0, ts.Const(8, 0xed)), ts.Const(8, 0x9f), ts.Const(8, 0xbf))
		if !tr(ts.And(ts.And(ts.Ule(lo, b1), ts.Ule(b1, hi)), in(b2, 0x80, 0xbf))) {
			return bad()
		}
		return termVal(or(or(sh(low(b0, 4), 12), sh(low(b1, 6), 6)), low(b2, 6)), true), 3
	}
	if tr(in(b0, 0xf0, 0xf4)) {
		if len(b) < 4 {
			return bad()
		}
		b1, b2, b3 := w.byteTerm(b[1]), w.byteTerm(b[2]), w.byteTerm(b[3])
		lo := ts.Ite(ts.Eq(b0, ts.Const(8, 0xf0)), ts.Const(8, 0x90), ts.Const(8, 0x80))
		hi := ts.Ite(ts.Eq(b0, ts.Const(8, 0xf4)), ts.Const(8, 0x8f), ts.Const(8, 0xbf))
		if !tr(ts.And(ts.And(ts.Ule(lo, b1), ts.Ule(b1, hi)), ts.And(in(b2, 0x80, 0xbf), in(b3, 0x80, 0xbf)))) {
			return bad()
		}
		return termVal(or(or(or(sh(low(b0, 3), 18), sh(low(b1, 6), 12)), sh(low(b2, 6), 6)), low(b3, 6)), true), 4
	}
	return bad()
}

// ---- range ----

type strIter struct {
	b []Value
	i int
}
type mapIter struct {
	m    *MapV
	rest []*mapEnt
}

func (w *W) rangeIter(x *ssa.Range, v Value) Value {
	switch m := v.(type) {
	case *MapV:
		it := &mapIter{m: m}
		if m != nil {
			it.rest = append([]*mapEnt(nil), m.ents...)
			if !w.mapND && w.eng.mapReverse {
				for i, j := 0, len(it.rest)-1; i < j; i, j = i+1, j-1 {
					it.rest[i], it.rest[j] = it.rest[j], it.rest[i]
				}
			}
		}
		return it
	}
	return &strIter{b: w.strBytes(v)}
}

func (w *W) next(x *ssa.Next, it Value) Value {
	switch m := it.(type) {
	case *strIter:
		if m.i >= len(m.b) {
			return Tuple{false, int64(0), int64(0)}
		}
		r, n := w.decodeRune(m.b[m.i:])
		i := m.i
		m.i += n
		return Tuple{true, int64(i), r}
	case *mapIter:
		for len(m.rest) > 0 {
			k := 0
			if w.mapND {
				live := m.rest[:0:0]
				for _, e := range m.rest {
					if !e.dead {
						live = append(live, e)
					}
				}
				m.rest = live
				if len(live) == 0 {
					break
				}
				if len(live) <= 3 {
					k = w.choose(len(live))
				} else if w.choose(2) == 1 { // larger maps: first or last of the remaining entries
					k = len(live) - 1
				}
			}
			e := m.rest[k]
			nr := append([]*mapEnt(nil), m.rest[:k]...)
			m.rest = append(nr, m.rest[k+1:]...)
			if e.dead {
				continue
			}
			return Tuple{true, copyVal(e.k), copyVal(e.v)}
		}
		tt := x.Type().(*types.Tuple)
		z := Tuple{false, nil, nil}
		for i := 1; i <= 2; i++ {
			if b, ok := tt.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
				continue
			}
			z[i] = zero(tt.At(i).Type())
		}
		return z
	}
	panic("next")
}
