package main

import (
	"fmt"
	"go/types"
	"strings"
	"text/template/parse"

	"golang.org/x/tools/go/ssa"
)

// text/template: the source is concrete and parsed natively; the tree is interpreted over engine values.
type tmpl struct {
	name  string
	funcs map[string]Iface
	trees map[string]*parse.Tree
	left  string
	right string
}

type texec struct {
	w    *W
	t    *tmpl
	wr   Iface
	vars []tvar
	dep  int
}
type tvar struct {
	name string
	v    Iface
}
type tmplErr struct{ msg string }

var tmplBuiltins = map[string]any{"and": true, "or": true, "not": true, "eq": true, "ne": true, "lt": true, "le": true, "gt": true, "ge": true,
	"len": true, "index": true, "print": true, "printf": true, "println": true, "html": true, "js": true, "call": true, "slice": true, "urlquery": true, "break": true, "continue": true}

func initTemplate() {
	get := func(w *W, v Value) *tmpl { return (*w.ptr(v)).(*Opaque).v.(*tmpl) }
	reg("text/template.New", func(w *W, fn *ssa.Function, a []Value) Value {
		var v Value = &Opaque{"template", &tmpl{name: w.concStr(a[0]), funcs: map[string]Iface{}, trees: map[string]*parse.Tree{}}}
		return &v
	})
	reg("(*text/template.Template).Funcs", func(w *W, fn *ssa.Function, a []Value) Value {
		t := get(w, a[0])
		if m, _ := a[1].(*MapV); m != nil {
			for _, e := range m.ents {
				if !e.dead {
					t.funcs[e.k.(string)] = w.asIface(e.v)
				}
			}
		}
		return a[0]
	})
	reg("(*text/template.Template).Delims", func(w *W, fn *ssa.Function, a []Value) Value {
		t := get(w, a[0])
		t.left, t.right = w.concStr(a[1]), w.concStr(a[2])
		return a[0]
	})
	reg("(*text/template.Template).Option", func(w *W, fn *ssa.Function, a []Value) Value { return a[0] })
	reg("(*text/template.Template).Name", func(w *W, fn *ssa.Function, a []Value) Value { return get(w, a[0]).name })
	reg("text/template.Must", func(w *W, fn *ssa.Function, a []Value) Value {
		if i := w.asIface(a[1]); i.t != nil {
			w.throw(i)
		}
		return a[0]
	})
	reg("(*text/template.Template).Parse", func(w *W, fn *ssa.Function, a []Value) Value {
		t := get(w, a[0])
		fm := map[string]any{}
		for k := range t.funcs {
			fm[k] = true
		}
		trees, err := parse.Parse(t.name, w.concStr(a[1]), t.left, t.right, fm, tmplBuiltins)
		if err != nil {
			return Tuple{(*Value)(nil), w.mkErr(err.Error())}
		}
		for k, tr := range trees {
			t.trees[k] = tr
		}
		return Tuple{a[0], Iface{}}
	})
	reg("(*text/template.Template).Execute", func(w *W, fn *ssa.Function, a []Value) (res Value) {
		t := get(w, a[0])
		x := &texec{w: w, t: t, wr: w.asIface(a[1])}
		defer func() {
			if r := recover(); r != nil {
				if e, ok := r.(tmplErr); ok {
					res = w.mkErr("template: " + t.name + ": " + e.msg)
					return
				}
				panic(r)
			}
		}()
		tr := t.trees[t.name]
		if tr == nil || tr.Root == nil {
			return w.mkErr("template: " + t.name + ": incomplete or empty template")
		}
		data := w.asIface(a[2])
		x.vars = []tvar{{"$", data}}
		x.walk(data, tr.Root)
		return Iface{}
	})
}

func (x *texec) fail(f string, a ...any) { panic(tmplErr{fmt.Sprintf(f, a...)}) }

func (x *texec) write(v Value) {
	w := x.w
	m := w.methodByName(x.wr.t, "Write")
	r := w.call(m, []Value{copyVal(x.wr.v), append([]Value{}, w.strBytes(v)...)})
	if e := w.asIface(r.(Tuple)[1]); e.t != nil {
		x.fail("write error")
	}
}

type tbreak struct{}
type tcontinue struct{}

func (x *texec) walk(dot Iface, n parse.Node) {
	switch n := n.(type) {
	case *parse.ListNode:
		for _, c := range n.Nodes {
			x.walk(dot, c)
		}
	case *parse.TextNode:
		x.write(string(n.Text))
	case *parse.ActionNode:
		v := x.pipe(dot, n.Pipe)
		if len(n.Pipe.Decl) == 0 {
			x.print(v)
		}
	case *parse.CommentNode:
	case *parse.IfNode:
		x.ifWith(dot, n.Pipe, n.List, n.ElseList, false)
	case *parse.WithNode:
		x.ifWith(dot, n.Pipe, n.List, n.ElseList, true)
	case *parse.RangeNode:
		x.rng(dot, n)
	case *parse.TemplateNode:
		tr := x.t.trees[n.Name]
		if tr == nil {
			x.fail("template %q not defined", n.Name)
		}
		var d Iface
		if n.Pipe != nil {
			d = x.pipe(dot, n.Pipe)
		}
		save := x.vars
		x.vars = []tvar{{"$", d}}
		x.dep++
		if x.dep > 200 {
			x.fail("exceeded maximum template depth")
		}
		x.walk(d, tr.Root)
		x.dep--
		x.vars = save
	case *parse.BreakNode:
		panic(tbreak{})
	case *parse.ContinueNode:
		panic(tcontinue{})
	default:
		x.w.unsupported(fmt.Sprintf("template node %T", n))
	}
}

func (x *texec) ifWith(dot Iface, p *parse.PipeNode, l, e *parse.ListNode, with bool) {
	mark := len(x.vars)
	v := x.pipe(dot, p)
	if x.w.truth(x.isTrue(v)) {
		if with {
			x.walk(v, l)
		} else {
			x.walk(dot, l)
		}
	} else if e != nil {
		x.walk(dot, e)
	}
	x.vars = x.vars[:mark]
}

func (x *texec) isTrue(v Iface) Value {
	w := x.w
	if v.t == nil {
		return false
	}
	switch y := v.v.(type) {
	case bool, *Term:
		if t, ok := y.(*Term); ok && t.sort != 0 {
			return termVal(w.ts.Not(w.ts.Eq(t, w.ts.Const(t.sort, 0))), false)
		}
		return y
	case int64:
		return y != 0
	case float64:
		return y != 0
	case string, *SymStr, *LazyStr:
		return w.strLen(y) > 0
	case []Value:
		return len(y) > 0
	case *MapV:
		return y != nil && y.n > 0
	case *Value:
		return y != nil
	case Struct:
		return true
	case Array:
		return len(y) > 0
	}
	return !isNilFn(v.v)
}

func (x *texec) rng(dot Iface, r *parse.RangeNode) {
	w := x.w
	mark := len(x.vars)
	v := x.indirect(x.pipeNoSet(dot, r.Pipe))
	stop := false
	one := func(k, e Iface) {
		if stop {
			return
		}
		m := len(x.vars)
		d := r.Pipe.Decl
		set := func(name string, v Iface) {
			x.vars = append(x.vars, tvar{name, v})
		}
		if len(d) == 1 {
			set(d[0].Ident[0], e)
		} else if len(d) > 1 {
			set(d[0].Ident[0], k)
			set(d[1].Ident[0], e)
		}
		func() {
			defer func() {
				if p := recover(); p != nil {
					switch p.(type) {
					case tbreak:
						stop = true
					case tcontinue:
					default:
						panic(p)
					}
				}
			}()
			x.walk(e, r.List)
		}()
		x.vars = x.vars[:m]
	}
	cnt := 0
	intT := types.Typ[types.Int]
	switch y := v.v.(type) {
	case []Value:
		el := under(v.t).(*types.Slice).Elem()
		for i, e := range y {
			one(Iface{intT, int64(i)}, x.box(el, e))
			cnt++
		}
	case Array:
		el := under(v.t).(*types.Array).Elem()
		for i, e := range y {
			one(Iface{intT, int64(i)}, x.box(el, e))
			cnt++
		}
	case *MapV:
		mt := under(v.t).(*types.Map)
		if y != nil {
			for _, e := range w.sortedEnts(mt, y) {
				one(x.box(mt.Key(), e.k), x.box(mt.Elem(), e.v))
				cnt++
			}
		}
	case int64:
		for i := int64(0); i < y; i++ {
			one(Iface{intT, i}, Iface{v.t, i})
			cnt++
		}
	default:
		if v.t == nil {
			break
		}
		x.fail("range can't iterate over %v", v.t)
	}
	if cnt == 0 && r.ElseList != nil {
		x.walk(dot, r.ElseList)
	}
	x.vars = x.vars[:mark]
}

func (x *texec) box(t types.Type, v Value) Iface {
	if types.IsInterface(t) {
		return x.w.asIface(v)
	}
	return Iface{t, copyVal(v)}
}

func (x *texec) indirect(v Iface) Iface {
	for v.t != nil {
		p, ok := under(v.t).(*types.Pointer)
		if !ok {
			return v
		}
		pv := v.v.(*Value)
		if pv == nil {
			return v
		}
		v = x.box(p.Elem(), *pv)
	}
	return v
}

func (x *texec) pipe(dot Iface, p *parse.PipeNode) Iface {
	v := x.pipeNoSet(dot, p)
	for _, d := range p.Decl {
		if p.IsAssign {
			for i := len(x.vars) - 1; i >= 0; i-- {
				if x.vars[i].name == d.Ident[0] {
					x.vars[i].v = v
					break
				}
			}
		} else {
			x.vars = append(x.vars, tvar{d.Ident[0], v})
		}
	}
	return v
}

func (x *texec) pipeNoSet(dot Iface, p *parse.PipeNode) Iface {
	var v Iface
	has := false
	for _, c := range p.Cmds {
		v = x.cmd(dot, c, v, has)
		has = true
	}
	return v
}

func (x *texec) cmd(dot Iface, c *parse.CommandNode, final Iface, has bool) Iface {
	first := c.Args[0]
	switch n := first.(type) {
	case *parse.FieldNode:
		return x.chain(dot, dot, n.Ident, c.Args, final, has)
	case *parse.ChainNode:
		return x.chain(dot, x.arg(dot, n.Node), n.Field, c.Args, final, has)
	case *parse.IdentifierNode:
		return x.fn(dot, n.Ident, c.Args[1:], final, has)
	case *parse.PipeNode:
		return x.pipe(dot, n)
	case *parse.VariableNode:
		v := x.variable(n.Ident[0])
		if len(n.Ident) == 1 {
			return v
		}
		return x.chain(dot, v, n.Ident[1:], c.Args, final, has)
	}
	if len(c.Args) > 1 || has {
		x.fail("can't give argument to non-function %s", first)
	}
	return x.arg(dot, first)
}

func (x *texec) variable(n string) Iface {
	for i := len(x.vars) - 1; i >= 0; i-- {
		if x.vars[i].name == n {
			return x.vars[i].v
		}
	}
	x.fail("undefined variable: %s", n)
	return Iface{}
}

func (x *texec) chain(dot, recv Iface, ids []string, args []parse.Node, final Iface, has bool) Iface {
	for i, id := range ids {
		if i == len(ids)-1 {
			return x.field(dot, recv, id, args, final, has)
		}
		recv = x.field(dot, recv, id, nil, Iface{}, false)
	}
	return recv
}

func (x *texec) field(dot, recv Iface, name string, args []parse.Node, final Iface, has bool) Iface {
	w := x.w
	if recv.t == nil {
		x.fail("nil data; no entry for key %q", name)
	}
	if m := w.methodByName(recv.t, name); m != nil && token_exported(name) {
		av := []Value{copyVal(recv.v)}
		sig := m.Signature
		k := 0
		if len(args) > 1 {
			for _, a := range args[1:] {
				av = append(av, x.conv(x.arg(dot, a), sig.Params().At(k).Type()))
				k++
			}
		}
		if has {
			av = append(av, x.conv(final, sig.Params().At(k).Type()))
			k++
		}
		if k != sig.Params().Len() {
			x.fail("wrong number of args for %s", name)
		}
		return x.result(sig, w.call(m, av))
	}
	v := x.indirect(recv)
	switch u := under(v.t).(type) {
	case *types.Struct:
		path, ft, ok := findField(u, name)
		if ok && token_exported(name) {
			cur := v.v
			for _, i := range path {
				if p, isP := cur.(*Value); isP {
					if p == nil {
						x.fail("nil pointer evaluating %v.%s", recv.t, name)
					}
					cur = *p
				}
				cur = cur.(Struct)[i]
			}
			if len(args) > 1 || has {
				x.fail("%s has arguments but cannot be invoked as function", name)
			}
			return x.box(ft, cur)
		}
	case *types.Map:
		if !isString(u.Key()) {
			break
		}
		e := w.mapFind(u, v.v.(*MapV), name)
		if e == nil {
			if types.IsInterface(u.Elem()) {
				return Iface{}
			}
			return Iface{u.Elem(), zero(u.Elem())}
		}
		return x.box(u.Elem(), e.v)
	case *types.Pointer:
		x.fail("nil pointer evaluating %v.%s", recv.t, name)
	}
	x.fail("can't evaluate field %s in type %v", name, recv.t)
	return Iface{}
}

func token_exported(n string) bool { return n != "" && n[0] >= 'A' && n[0] <= 'Z' }

func findField(st *types.Struct, name string) ([]int, types.Type, bool) {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return []int{i}, st.Field(i).Type(), true
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !f.Embedded() {
			continue
		}
		t := f.Type()
		if p, ok := under(t).(*types.Pointer); ok {
			t = p.Elem()
		}
		if s, ok := under(t).(*types.Struct); ok {
			if p, ft, ok := findField(s, name); ok {
				return append([]int{i}, p...), ft, true
			}
		}
	}
	return nil, nil, false
}

func (x *texec) conv(v Iface, t types.Type) Value {
	if types.IsInterface(t) {
		return v
	}
	if v.t == nil {
		switch under(t).(type) {
		case *types.Pointer, *types.Slice, *types.Map, *types.Signature:
			return zero(t)
		}
		x.fail("invalid value; expected %v", t)
	}
	if types.AssignableTo(v.t, t) {
		return v.v
	}
	// numeric constants
	if v.t == types.Typ[types.UntypedInt] {
		if _, _, ok := intInfo(t); ok {
			return v.v
		}
		if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return float64(v.v.(int64))
		}
	}
	if p, ok := under(v.t).(*types.Pointer); ok && types.AssignableTo(p.Elem(), t) {
		if pv := v.v.(*Value); pv != nil {
			return copyVal(*pv)
		}
		x.fail("dereference of nil pointer of type %v", v.t)
	}
	if types.AssignableTo(types.NewPointer(v.t), t) {
		nv := copyVal(v.v)
		return &nv
	}
	x.fail("wrong type for value; expected %v; got %v", t, v.t)
	return nil
}

func (x *texec) result(sig *types.Signature, r Value) Iface {
	switch sig.Results().Len() {
	case 1:
		return x.box(sig.Results().At(0).Type(), r)
	case 2:
		t := r.(Tuple)
		if e := x.w.asIface(t[1]); e.t != nil {
			x.fail("error calling function")
		}
		return x.box(sig.Results().At(0).Type(), t[0])
	}
	x.fail("bad function signature")
	return Iface{}
}

func (x *texec) fn(dot Iface, name string, args []parse.Node, final Iface, has bool) Iface {
	w := x.w
	if f, ok := x.t.funcs[name]; ok {
		sig := under(f.t).(*types.Signature)
		var av []Iface
		for _, a := range args {
			av = append(av, x.arg(dot, a))
		}
		if has {
			av = append(av, final)
		}
		np := sig.Params().Len()
		var cv []Value
		if sig.Variadic() {
			if len(av) < np-1 {
				x.fail("wrong number of args for %s", name)
			}
			for i := 0; i < np-1; i++ {
				cv = append(cv, x.conv(av[i], sig.Params().At(i).Type()))
			}
			el := sig.Params().At(np - 1).Type().(*types.Slice).Elem()
			rest := []Value{}
			for _, a := range av[np-1:] {
				rest = append(rest, x.conv(a, el))
			}
			cv = append(cv, rest)
		} else {
			if len(av) != np {
				x.fail("wrong number of args for %s: want %d got %d", name, np, len(av))
			}
			for i := range av {
				cv = append(cv, x.conv(av[i], sig.Params().At(i).Type()))
			}
		}
		return x.result(sig, w.call(f.v, cv))
	}
	if name == "and" || name == "or" {
		var v Iface
		n := len(args)
		for i, a := range args {
			v = x.arg(dot, a)
			t := w.truth(x.isTrue(v))
			if t == (name == "or") {
				return v
			}
			_ = i
		}
		if has {
			v = final
		}
		_ = n
		return v
	}
	var av []Iface
	for _, a := range args {
		av = append(av, x.arg(dot, a))
	}
	if has {
		av = append(av, final)
	}
	boolT := types.Typ[types.Bool]
	vals := func(a []Iface) []Value {
		r := make([]Value, len(a))
		for i := range a {
			r[i] = a[i]
			if a[i].t == types.Typ[types.UntypedInt] {
				r[i] = Iface{types.Typ[types.Int], a[i].v}
			}
		}
		return r
	}
	switch name {
	case "not":
		return Iface{boolT, w.not(x.isTrue(av[0]))}
	case "eq", "ne":
		var r Value = false
		for _, b := range av[1:] {
			r = termVal(w.ts.Or(w.boolTerm(r), w.boolTerm(x.basicEq(av[0], b))), false)
		}
		if name == "ne" {
			r = w.not(r)
		}
		return Iface{boolT, r}
	case "lt", "le", "gt", "ge":
		a, ok1 := av[0].v.(int64)
		b, ok2 := av[1].v.(int64)
		if !ok1 || !ok2 {
			w.unsupported("template ordering comparison")
		}
		return Iface{boolT, map[string]bool{"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[name]}
	case "len":
		v := x.indirect(av[0])
		switch y := v.v.(type) {
		case string, *SymStr, *LazyStr:
			return Iface{types.Typ[types.Int], int64(w.strLen(y))}
		case []Value:
			return Iface{types.Typ[types.Int], int64(len(y))}
		case *MapV:
			if y == nil {
				return Iface{types.Typ[types.Int], int64(0)}
			}
			return Iface{types.Typ[types.Int], int64(y.n)}
		}
		x.fail("len of type %v", v.t)
	case "index":
		v := x.indirect(av[0])
		for _, ix := range av[1:] {
			switch y := v.v.(type) {
			case []Value:
				i := w.concInt(ix.v, true)
				if i < 0 || i >= int64(len(y)) {
					x.fail("error calling index: index out of range: %d", i)
				}
				v = x.box(under(v.t).(*types.Slice).Elem(), y[i])
			case *MapV:
				mt := under(v.t).(*types.Map)
				e := w.mapFind(mt, y, ix.v)
				if e == nil {
					v = Iface{mt.Elem(), zero(mt.Elem())}
				} else {
					v = x.box(mt.Elem(), e.v)
				}
			default:
				x.fail("can't index item of type %v", v.t)
			}
		}
		return v
	case "print":
		return Iface{tstr(), w.sprint(vals(av), false)}
	case "println":
		return Iface{tstr(), w.sprint(vals(av), true)}
	case "printf":
		return Iface{tstr(), w.sprintf(w.concStr(av[0].v), vals(av[1:]))}
	}
	w.unsupported("template function " + name)
	return Iface{}
}

func (x *texec) basicEq(a, b Iface) Value {
	w := x.w
	a, b = x.indirectIface(a), x.indirectIface(b)
	if a.t == nil || b.t == nil {
		return a.t == nil && b.t == nil
	}
	ab, ok1 := under(a.t).(*types.Basic)
	bb, ok2 := under(b.t).(*types.Basic)
	if !ok1 || !ok2 {
		if types.Identical(a.t, b.t) && types.Comparable(a.t) {
			return w.eq(a.t, a.v, b.v)
		}
		x.fail("error calling eq: incompatible types for comparison")
	}
	const cls = types.IsString | types.IsBoolean | types.IsInteger | types.IsFloat
	if ab.Info()&cls != bb.Info()&cls {
		x.fail("error calling eq: incompatible types for comparison")
	}
	if ab.Info()&types.IsInteger != 0 && !types.Identical(a.t, b.t) {
		return w.concInt(a.v, true) == w.concInt(b.v, true)
	}
	return w.eq(a.t, a.v, b.v)
}

func (x *texec) indirectIface(a Iface) Iface { return a }

func (x *texec) arg(dot Iface, n parse.Node) Iface {
	switch n := n.(type) {
	case *parse.DotNode:
		return dot
	case *parse.NilNode:
		return Iface{}
	case *parse.FieldNode:
		return x.chain(dot, dot, n.Ident, nil, Iface{}, false)
	case *parse.VariableNode:
		return x.chain(dot, x.variable(n.Ident[0]), n.Ident[1:], nil, Iface{}, false)
	case *parse.PipeNode:
		return x.pipe(dot, n)
	case *parse.IdentifierNode:
		return x.fn(dot, n.Ident, nil, Iface{}, false)
	case *parse.ChainNode:
		return x.chain(dot, x.arg(dot, n.Node), n.Field, nil, Iface{}, false)
	case *parse.BoolNode:
		return Iface{types.Typ[types.Bool], n.True}
	case *parse.StringNode:
		return Iface{tstr(), n.Text}
	case *parse.NumberNode:
		if n.IsInt {
			return Iface{types.Typ[types.UntypedInt], n.Int64}
		}
		if n.IsFloat {
			return Iface{types.Typ[types.Float64], n.Float64}
		}
	}
	x.w.unsupported(fmt.Sprintf("template argument %T", n))
	return Iface{}
}

func (x *texec) print(v Iface) {
	w := x.w
	if v.t == nil {
		x.write("<no value>")
		return
	}
	if v.t == types.Typ[types.UntypedInt] {
		v.t = types.Typ[types.Int]
	}
	if p, ok := v.v.(*Value); ok && p != nil {
		if w.methodByName(v.t, "String") == nil && w.methodByName(v.t, "Error") == nil {
			v = x.indirect(v)
		}
	}
	x.write(w.sprint([]Value{v}, false))
}

var _ = strings.Join
