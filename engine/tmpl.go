package main

import (
	"go/types"
	htmpl "html/template"
	"io"
	"strconv"
	ttmpl "text/template"
	"text/template/parse"

	"golang.org/x/tools/go/ssa"
)

// Templates are parsed, and the escapers their contexts need are chosen, by
// the real packages; what they then do with the values is executed here.

type hostTmpl struct {
	html *htmpl.Template
	text *ttmpl.Template
	done bool
}

func (h *hostTmpl) tree(name string) *parse.Tree {
	if h.html != nil {
		if !h.done {
			h.html.Execute(io.Discard, nil) // decides the escapers
			h.done = true
		}
		t := h.html
		if name != "" {
			t = t.Lookup(name)
		}
		if t == nil {
			return nil
		}
		return t.Tree
	}
	t := h.text
	if name != "" {
		t = t.Lookup(name)
	}
	if t == nil {
		return nil
	}
	return t.Tree
}

func templates(m map[string]intrinsic) {
	host := func(in *Interp, v Value) *hostTmpl {
		o, _ := v.R.(*Object)
		if o == nil {
			in.nilDeref()
		}
		h, _ := o.cells[0].R.(*hostTmpl)
		if h == nil {
			panic(in.unsup("a template of unknown origin"))
		}
		return h
	}
	for _, n := range []string{"html/template", "text/template"} {
		isHTML := n[0] == 'h'
		m[n+".New"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
			h := &hostTmpl{}
			if isHTML {
				h.html = htmpl.New(in.concStr(a[0]))
			} else {
				h.text = ttmpl.New(in.concStr(a[0]))
			}
			o := in.newObj(1, "template")
			o.cells[0] = Value{R: h}
			return Value{R: o}
		}
		m["(*"+n+".Template).Parse"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
			h := host(in, a[0])
			var err error
			if isHTML {
				_, err = h.html.Parse(in.concStr(a[1]))
			} else {
				_, err = h.text.Parse(in.concStr(a[1]))
			}
			if err != nil {
				return tuple(Value{}, in.errVal(vStr(err.Error())))
			}
			return tuple(a[0], Value{})
		}
		m[n+".Must"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
			if i, _ := a[1].R.(*Iface); i != nil {
				panic(in.unsup("template.Must panics"))
			}
			return a[0]
		}
		m["(*"+n+".Template).Execute"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
			h := host(in, a[0])
			return in.executeTmpl(h, h.tree(""), a[1], a[2])
		}
		m["(*"+n+".Template).ExecuteTemplate"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
			h := host(in, a[0])
			return in.executeTmpl(h, h.tree(in.concStr(a[2])), a[1], a[3])
		}
	}
}

type tmplExec struct {
	in   *Interp
	h    *hostTmpl
	w    Value
	data Value // *Iface
	vars []tmplVar
}

type tmplVar struct {
	name string
	v    Value
}

type tmplStop struct{ err Value }

func (in *Interp) executeTmpl(h *hostTmpl, t *parse.Tree, w, data Value) (r Value) {
	if t == nil || t.Root == nil {
		return in.errVal(vStr("template: incomplete or empty template"))
	}
	x := &tmplExec{in: in, h: h, w: w, data: data, vars: []tmplVar{{"$", data}}}
	defer func() {
		if e := recover(); e != nil {
			s, ok := e.(*tmplStop)
			if !ok {
				panic(e)
			}
			r = s.err
		}
	}()
	x.list(t.Root, data)
	return Value{}
}

func (x *tmplExec) fail(msg string) { panic(&tmplStop{x.in.errVal(vStr("template: " + msg))}) }

func (x *tmplExec) write(s Value) {
	err := x.in.writeTo(x.w, s).R.(*Tuple).v[1]
	if err.R != nil {
		panic(&tmplStop{err})
	}
}

func (x *tmplExec) list(l *parse.ListNode, dot Value) {
	if l == nil {
		return
	}
	for _, n := range l.Nodes {
		x.node(n, dot)
	}
}

func (x *tmplExec) node(n parse.Node, dot Value) {
	in := x.in
	switch n := n.(type) {
	case *parse.TextNode:
		x.write(vStr(string(n.Text)))
	case *parse.CommentNode:
	case *parse.ActionNode:
		v := x.pipe(n.Pipe, dot)
		if len(n.Pipe.Decl) == 0 {
			x.write(x.show(v))
		}
	case *parse.IfNode:
		save := len(x.vars)
		if in.truth(x.true(x.pipe(n.Pipe, dot))) {
			x.list(n.List, dot)
		} else {
			x.list(n.ElseList, dot)
		}
		x.vars = x.vars[:save]
	case *parse.WithNode:
		save := len(x.vars)
		if v := x.pipe(n.Pipe, dot); in.truth(x.true(v)) {
			x.list(n.List, v)
		} else {
			x.list(n.ElseList, dot)
		}
		x.vars = x.vars[:save]
	case *parse.RangeNode:
		save := len(x.vars)
		decl := n.Pipe.Decl
		p := *n.Pipe
		p.Decl = nil
		els := x.elems(x.pipe(&p, dot))
		for i, e := range els {
			switch len(decl) {
			case 1:
				x.vars = append(x.vars, tmplVar{decl[0].Ident[0], e})
			case 2:
				x.vars = append(x.vars, tmplVar{decl[0].Ident[0], x.intv(i)}, tmplVar{decl[1].Ident[0], e})
			}
			x.list(n.List, e)
			x.vars = x.vars[:save]
		}
		if len(els) == 0 {
			x.list(n.ElseList, dot)
		}
	case *parse.TemplateNode:
		t := x.h.tree(n.Name)
		if t == nil {
			x.fail("template " + n.Name + " not defined")
		}
		v := Value{}
		if n.Pipe != nil {
			v = x.pipe(n.Pipe, dot)
		}
		save := x.vars
		x.vars = []tmplVar{{"$", v}}
		x.list(t.Root, v)
		x.vars = save
	default:
		panic(in.unsup("template node " + n.String()))
	}
}

func (x *tmplExec) intv(i int) Value {
	return Value{R: &Iface{types.Typ[types.Int], vInt(i)}}
}

func (x *tmplExec) strv(v Value) Value { return Value{R: &Iface{types.Typ[types.String], v}} }

// strip follows pointers and interfaces.
func (x *tmplExec) strip(v Value) (types.Type, Value, bool) {
	i, _ := v.R.(*Iface)
	if i == nil {
		return nil, Value{}, false
	}
	t, w := i.t, i.v
	for {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			o, _ := w.R.(*Object)
			if o == nil {
				return t, w, true
			}
			l := x.in.layout(u.Elem())
			t, w = u.Elem(), x.in.load(w, l)
		case *types.Interface:
			j, _ := w.R.(*Iface)
			if j == nil {
				return nil, Value{}, false
			}
			t, w = j.t, j.v
		default:
			return t, w, true
		}
	}
}

func (x *tmplExec) true(v Value) Value {
	i, _ := v.R.(*Iface)
	if i == nil {
		return vBool(false)
	}
	in := x.in
	if _, ok := i.t.Underlying().(*types.Pointer); ok {
		return vBool(i.v.R != nil)
	}
	t, w, ok := x.strip(v)
	if !ok {
		return vBool(false)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch k := kindOf(t); k.kind {
		case kString:
			return vBool(in.strLen(w) > 0)
		case kBool:
			return w
		case kInt:
			return vBool(!in.truth(in.equal(t, w, Value{})))
		}
	case *types.Slice:
		s, _ := w.R.(*SliceV)
		return vBool(s != nil && s.len > 0)
	case *types.Struct:
		return vBool(true)
	case *types.Map:
		m, _ := w.R.(*MapV)
		return vBool(m != nil && m.n > 0)
	case *types.Array:
		return vBool(u.Len() > 0)
	}
	panic(in.unsup("template truth of " + t.String()))
}

func (x *tmplExec) elems(v Value) (r []Value) {
	t, w, ok := x.strip(v)
	if !ok {
		x.fail("range over nil")
	}
	in := x.in
	switch u := t.Underlying().(type) {
	case *types.Slice:
		s, _ := w.R.(*SliceV)
		if s == nil {
			return nil
		}
		l, cs := in.layout(u.Elem()), in.sliceCells(w)
		for i := 0; i < s.len; i++ {
			r = append(r, x.iface(u.Elem(), fromCells(l, cs[i*l.n:(i+1)*l.n])))
		}
		return r
	}
	panic(in.unsup("template range over " + t.String()))
}

// iface makes an interface value.
func (x *tmplExec) iface(t types.Type, v Value) Value {
	if types.IsInterface(t) {
		return v
	}
	return Value{R: &Iface{x.in.canonType(t), v}}
}

func (x *tmplExec) field(v Value, name string) Value {
	in := x.in
	i, _ := v.R.(*Iface)
	if i == nil {
		x.fail("nil data; no entry for key " + strconv.Quote(name))
	}
	if sel := in.p.prog.MethodSets.MethodSet(i.t).Lookup(nil, name); sel != nil {
		f := in.method(i.t, name, nil)
		sig := sel.Type().(*types.Signature)
		if sig.Params().Len() > 0 || sig.Results().Len() < 1 {
			panic(in.unsup("template method " + name))
		}
		r := in.call(f, []Value{i.v}, nil)
		if sig.Results().Len() == 2 {
			tu := r.R.(*Tuple)
			if tu.v[1].R != nil {
				panic(&tmplStop{tu.v[1]})
			}
			r = tu.v[0]
		}
		return x.iface(sig.Results().At(0).Type(), r)
	}
	t, w, ok := x.strip(v)
	if !ok {
		x.fail("nil pointer evaluating " + name)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		l, cs := in.layout(t), aggCells(w)
		for k := 0; k < u.NumFields(); k++ {
			if f := u.Field(k); f.Name() == name && f.Exported() {
				fl := in.layout(f.Type())
				return x.iface(f.Type(), fromCells(fl, cs[l.fields[k]:l.fields[k]+fl.n]))
			}
		}
		for k := 0; k < u.NumFields(); k++ {
			if f := u.Field(k); f.Embedded() {
				panic(in.unsup("template field of an embedded structure"))
			}
		}
	case *types.Map:
		m, _ := w.R.(*MapV)
		if m != nil {
			for k := range m.keys {
				if m.live[k] && in.truth(in.equal(u.Key(), m.keys[k], vStr(name))) {
					return x.iface(u.Elem(), m.vals[k])
				}
			}
		}
		return Value{}
	}
	x.fail("can't evaluate field " + name)
	return Value{}
}

func (x *tmplExec) variable(name string) Value {
	for i := len(x.vars) - 1; i >= 0; i-- {
		if x.vars[i].name == name {
			return x.vars[i].v
		}
	}
	x.fail("undefined variable: " + name)
	return Value{}
}

func (x *tmplExec) pipe(p *parse.PipeNode, dot Value) Value {
	var v Value
	for i, c := range p.Cmds {
		v = x.cmd(c, dot, v, i > 0)
	}
	for _, d := range p.Decl {
		if p.IsAssign {
			for i := len(x.vars) - 1; i >= 0; i-- {
				if x.vars[i].name == d.Ident[0] {
					x.vars[i].v = v
					break
				}
			}
		} else {
			x.vars = append(x.vars, tmplVar{d.Ident[0], v})
		}
	}
	return v
}

func (x *tmplExec) arg(n parse.Node, dot Value) Value {
	switch n := n.(type) {
	case *parse.DotNode:
		return dot
	case *parse.NilNode:
		return Value{}
	case *parse.FieldNode:
		v := dot
		for _, f := range n.Ident {
			v = x.field(v, f)
		}
		return v
	case *parse.VariableNode:
		v := x.variable(n.Ident[0])
		for _, f := range n.Ident[1:] {
			v = x.field(v, f)
		}
		return v
	case *parse.ChainNode:
		v := x.arg(n.Node, dot)
		for _, f := range n.Field {
			v = x.field(v, f)
		}
		return v
	case *parse.PipeNode:
		return x.pipe(n, dot)
	case *parse.StringNode:
		return x.strv(vStr(n.Text))
	case *parse.BoolNode:
		return Value{R: &Iface{types.Typ[types.Bool], vBool(n.True)}}
	case *parse.NumberNode:
		if n.IsInt {
			return x.intv(int(n.Int64))
		}
	case *parse.IdentifierNode:
		return x.fn(n.Ident, nil)
	}
	panic(x.in.unsup("template argument " + n.String()))
}

func (x *tmplExec) cmd(c *parse.CommandNode, dot, last Value, piped bool) Value {
	var args []Value
	for _, a := range c.Args[1:] {
		args = append(args, x.arg(a, dot))
	}
	if piped {
		args = append(args, last)
	}
	if id, ok := c.Args[0].(*parse.IdentifierNode); ok {
		return x.fn(id.Ident, args)
	}
	if len(args) > 0 {
		panic(x.in.unsup("template call " + c.String()))
	}
	return x.arg(c.Args[0], dot)
}

func (x *tmplExec) show(v Value) Value {
	i, _ := v.R.(*Iface)
	if i == nil {
		return vStr("<no value>")
	}
	if x.in.stringMethod(i.t, "String") == nil && x.in.stringMethod(i.t, "Error") == nil {
		t, w, ok := x.strip(v)
		if !ok {
			return vStr("<no value>")
		}
		v = x.iface(t, w)
	}
	return x.in.sprint([]Value{v}, false)
}

func (x *tmplExec) fn(name string, args []Value) Value {
	in := x.in
	esc := func(table int) Value {
		f := in.p.pkgs["kvh/symjson"].Func("Escape")
		return x.strv(in.call(f, []Value{x.text(args), vInt(table)}, nil))
	}
	html := len(args) == 1 && x.isHTML(args[0])
	switch name {
	case "_html_template_htmlescaper":
		if html {
			return x.strv(x.text(args))
		}
		return esc(0)
	case "_html_template_rcdataescaper":
		if html {
			return esc(1)
		}
		return esc(0)
	case "_html_template_attrescaper":
		if !html {
			return esc(0)
		}
	case "_html_template_nospaceescaper":
		if !html && in.strLen(x.text(args)) == 0 {
			return x.strv(vStr("ZgotmplZ"))
		}
	case "print":
		return x.strv(in.sprint(args, false))
	case "len":
		t, w, ok := x.strip(args[0])
		if ok && kindOf(t).kind == kString {
			return x.intv(in.strLen(w))
		}
		return x.intv(len(x.elems(args[0])))
	case "not":
		return Value{R: &Iface{types.Typ[types.Bool], vBool(!in.truth(x.true(args[0])))}}
	case "and", "or":
		for i, a := range args {
			if i == len(args)-1 || in.truth(x.true(a)) == (name == "or") {
				return a
			}
		}
	case "eq", "ne":
		t1, v1, ok1 := x.strip(args[0])
		if !ok1 {
			panic(in.unsup("template comparison with nil"))
		}
		any := false
		for _, a := range args[1:] {
			t2, v2, ok2 := x.strip(a)
			if !ok2 || kindOf(t1).kind != kindOf(t2).kind || kindOf(t1).kind != kString && kindOf(t1).kind != kBool && kindOf(t1).kind != kInt {
				x.fail("incompatible types for comparison")
			}
			if kindOf(t1).kind == kInt && kindOf(t1).w != kindOf(t2).w {
				panic(in.unsup("template comparison of integers"))
			}
			if in.truth(in.equal(t1, v1, v2)) {
				any = true
				break
			}
		}
		return Value{R: &Iface{types.Typ[types.Bool], vBool(any == (name == "eq"))}}
	case "index":
		if len(args) == 2 {
			els := x.elems(args[0])
			_, k, _ := x.strip(args[1])
			if i := int(in.concretize(k, 64)); i >= 0 && i < len(els) {
				return els[i]
			}
			x.fail("index out of range")
		}
	}
	panic(in.unsup("template function " + name))
}

func (x *tmplExec) isHTML(v Value) bool {
	t, _, ok := x.strip(v)
	if !ok {
		return false
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "html/template" {
		return false
	}
	if n.Obj().Name() != "HTML" {
		panic(x.in.unsup("template content " + t.String()))
	}
	return true
}

// text is what is escaped.
func (x *tmplExec) text(args []Value) Value {
	var as []Value
	for _, a := range args {
		i, _ := a.R.(*Iface)
		if i == nil {
			continue
		}
		if x.in.stringMethod(i.t, "String") == nil && x.in.stringMethod(i.t, "Error") == nil {
			if t, w, ok := x.strip(a); ok {
				if len(args) == 1 && kindOf(t).kind == kString {
					return w
				}
				a = x.iface(t, w)
			}
		}
		as = append(as, a)
	}
	return x.in.sprint(as, false)
}
