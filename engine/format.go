package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// sprintf models the fmt verbs for the value kinds it is used with.
func (in *Interp) sprintf(format string, args []Value) (Value, []Value) {
	var parts []Value
	var wrapped []Value
	n := 0
	i := 0
	lit := 0
	for i < len(format) {
		if format[i] != '%' {
			i++
			continue
		}
		if lit < i {
			parts = append(parts, vStr(format[lit:i]))
		}
		i++
		plus, sharp, minus, zero := false, false, false, false
		for i < len(format) && strings.IndexByte("+#- 0", format[i]) >= 0 {
			switch format[i] {
			case '+':
				plus = true
			case '#':
				sharp = true
			case '-':
				minus = true
			case '0':
				zero = true
			}
			i++
		}
		width := 0
		for i < len(format) && format[i] >= '0' && format[i] <= '9' {
			width = width*10 + int(format[i]-'0')
			i++
		}
		prec := -1
		if i < len(format) && format[i] == '.' {
			i++
			prec = 0
			for i < len(format) && format[i] >= '0' && format[i] <= '9' {
				prec = prec*10 + int(format[i]-'0')
				i++
			}
		}
		if i >= len(format) {
			parts = append(parts, vStr("%!(NOVERB)"))
			break
		}
		verb := format[i]
		i++
		lit = i
		if verb == '%' {
			parts = append(parts, vStr("%"))
			continue
		}
		if n >= len(args) {
			parts = append(parts, vStr("%!"+string(verb)+"(MISSING)"))
			continue
		}
		a := args[n]
		n++
		iv, _ := a.R.(*Iface)
		var s Value
		if iv == nil {
			if verb == 'v' || verb == 's' {
				s = vStr("<nil>")
				if verb == 's' {
					s = vStr("%!s(<nil>)")
				}
			} else {
				s = vStr("%!" + string(verb) + "(<nil>)")
			}
		} else {
			if verb == 'w' {
				wrapped = append(wrapped, a)
				verb = 'v'
			}
			if prec >= 0 && (verb == 's' || verb == 'v') {
				panic(in.unsup("fmt precision"))
			}
			s = in.format(iv.t, iv.v, verb, plus || sharp)
		}
		if pad := width - in.strLen(s); pad > 0 {
			ch := " "
			if zero && !minus {
				ch = "0"
			}
			p := vStr(strings.Repeat(ch, pad))
			if minus {
				s = in.concat(s, p)
			} else {
				s = in.concat(p, s)
			}
		}
		parts = append(parts, s)
	}
	if lit < len(format) && lit <= i {
		parts = append(parts, vStr(format[lit:]))
	}
	if n < len(args) {
		parts = append(parts, vStr("%!(EXTRA)"))
	}
	return in.concat(parts...), wrapped
}

func (in *Interp) format(t types.Type, v Value, verb byte, plus bool) Value {
	if verb != 'd' && verb != 'p' && verb != 'T' && verb != 'x' && verb != 'c' && verb != 'U' {
		for _, m := range []string{"Error", "String"} {
			if f := in.stringMethod(t, m); f != nil {
				s := in.call(f, []Value{v}, nil)
				if verb == 'q' {
					return in.quote(s)
				}
				return s
			}
		}
	}
	if verb == 'T' {
		return vStr(t.String())
	}
	k := kindOf(t)
	switch k.kind {
	case kString:
		switch verb {
		case 'q':
			return in.quote(v)
		case 's', 'v':
			if plus && verb == 'v' && false {
				return in.quote(v)
			}
			return v
		case 'x':
			s, ok := v.R.(string)
			if ok {
				return vStr(fmt.Sprintf("%x", s))
			}
		}
	case kInt:
		n := in.concretize(v, k.w)
		var x any = n
		if k.signed {
			x = sext(n, k.w)
		}
		switch verb {
		case 'v', 'd':
			return vStr(fmt.Sprintf("%d", x))
		case 'x', 'X', 'c', 'q', 'U', 'o', 'b':
			return vStr(fmt.Sprintf("%"+string(verb), x))
		case 's':
			return vStr(fmt.Sprintf("%%!s(%s=%d)", t.String(), x))
		}
	case kBool:
		if in.truth(v) {
			return vStr("true")
		}
		return vStr("false")
	case kFloat:
		return vStr(fmt.Sprintf("%"+string(verb), asFloat(v, k.w)))
	case kIface:
		i, _ := v.R.(*Iface)
		if i == nil {
			return vStr("<nil>")
		}
		return in.format(i.t, i.v, verb, plus)
	case kPtr:
		v = in.concPtr(v)
		o, _ := v.R.(*Object)
		if verb == 'p' {
			if o == nil {
				return vStr("0x0")
			}
			return vStr(fmt.Sprintf("0xc%09x", uint64(o.id)*256+v.N*8))
		}
		if o == nil {
			return vStr("<nil>")
		}
		if verb == 'v' {
			if e, ok := t.Underlying().(*types.Pointer); ok && kindOf(e.Elem()).kind == kAgg {
				l := in.layout(e.Elem())
				return in.concat(vStr("&"), in.format(e.Elem(), in.load(v, l), verb, plus))
			}
			return vStr(fmt.Sprintf("0xc%09x", uint64(o.id)*256+v.N*8))
		}
	case kSlice:
		et := t.Underlying().(*types.Slice).Elem()
		if ek := kindOf(et); ek.kind == kInt && ek.w == 8 && (verb == 's' || verb == 'q') {
			s := mkStr(append([]Value(nil), in.sliceCells(v)...))
			if verb == 'q' {
				return in.quote(s)
			}
			return s
		}
		parts := []Value{vStr("[")}
		s, _ := v.R.(*SliceV)
		if s != nil {
			el := in.layout(et)
			cs := in.sliceCells(v)
			for i := 0; i < s.len; i++ {
				if i > 0 {
					parts = append(parts, vStr(" "))
				}
				parts = append(parts, in.format(et, fromCells(el, cs[i*el.n:(i+1)*el.n]), verb, plus))
			}
		}
		return in.concat(append(parts, vStr("]"))...)
	case kAgg:
		if st, ok := t.Underlying().(*types.Struct); ok {
			parts := []Value{vStr("{")}
			l := in.layout(t)
			cs := aggCells(v)
			for i := 0; i < st.NumFields(); i++ {
				if i > 0 {
					parts = append(parts, vStr(" "))
				}
				if plus {
					parts = append(parts, vStr(st.Field(i).Name()+":"))
				}
				fl := in.layout(st.Field(i).Type())
				parts = append(parts, in.format(st.Field(i).Type(), fromCells(fl, cs[l.fields[i]:l.fields[i]+fl.n]), verb, plus))
			}
			return in.concat(append(parts, vStr("}"))...)
		}
	}
	panic(in.unsup(fmt.Sprintf("fmt %%%c of %s", verb, t)))
}

// stringMethod finds a niladic method returning string in t's method set.
func (in *Interp) stringMethod(t types.Type, name string) *ssa.Function {
	if types.IsInterface(t) {
		return nil
	}
	sel := in.p.prog.MethodSets.MethodSet(t).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	sig := sel.Type().(*types.Signature)
	if sig.Params().Len() != 0 || sig.Results().Len() != 1 || kindOf(sig.Results().At(0).Type()).kind != kString {
		return nil
	}
	return in.method(t, name, nil)
}

func (in *Interp) quote(v Value) Value {
	s, ok := v.R.(string)
	if !ok {
		b := make([]byte, in.strLen(v))
		for i := range b {
			b[i] = byte(in.concretize(in.strAt(v, i), 8))
		}
		s = string(b)
	}
	return vStr(strconv.Quote(s))
}
