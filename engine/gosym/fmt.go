package gosym

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"verif/sym"
)

// sprintf implements the verbs used by ordinary code; unusual flags fall back to concrete
// formatting of concrete operands.
func (m *Machine) sprintf(format sym.Str, args Slice) sym.Str {
	fs := format
	r := sym.Str{}
	ai := 0
	for i := 0; i < len(fs); i++ {
		c := fs[i]
		if !c.IsLit() {
			// a symbolic byte in a format string: '%' must be decided
			if c.IsByte() && m.Path.Branch(m.F.Eq(c.T, m.F.BV('%', 8))) {
				c = sym.Ch{B: '%'}
			} else {
				r = append(r, c)
				continue
			}
		}
		if c.B != '%' {
			r = append(r, c)
			continue
		}
		i++
		spec := "%"
		for i < len(fs) {
			k := fs[i]
			if !k.IsLit() {
				if k.IsByte() {
					k = sym.Ch{B: byte(m.Path.Concretize(k.T, 300))}
				} else {
					break
				}
			}
			spec += string(rune(k.B))
			if !strings.ContainsRune("+-# 0123456789.*[]", rune(k.B)) {
				break
			}
			i++
		}
		if spec == "%" {
			r = append(r, sym.Lit("%!(NOVERB)")...)
			continue
		}
		verb := spec[len(spec)-1]
		if verb == '%' {
			r = append(r, sym.Ch{B: '%'})
			continue
		}
		if strings.ContainsAny(spec, "*[]") {
			m.Path.Unsupported("format %s", spec)
		}
		if ai >= len(args) {
			r = append(r, sym.Lit("%!"+string(rune(verb))+"(MISSING)")...)
			continue
		}
		a := args[ai].(Iface)
		ai++
		r = append(r, m.fmtVerb(spec, verb, a)...)
	}
	if ai < len(args) {
		r = append(r, sym.Lit("%!(EXTRA ")...)
		for k, a := range args[ai:] {
			if k > 0 {
				r = append(r, sym.Lit(", ")...)
			}
			iv := a.(Iface)
			if iv.T == nil {
				r = append(r, sym.Lit("<nil>")...)
				continue
			}
			r = append(r, sym.Lit(iv.T.String()+"=")...)
			r = append(r, m.fmtVerb("%v", 'v', iv)...)
		}
		r = append(r, sym.Ch{B: ')'})
	}
	return r
}

func (m *Machine) fmtVerb(spec string, verb byte, a Iface) sym.Str {
	if verb == 'T' {
		if a.T == nil {
			return sym.Lit("<nil>")
		}
		return sym.Lit(types.TypeString(a.T, func(p *types.Package) string { return p.Name() }))
	}
	if a.T == nil {
		if verb == 'v' {
			return sym.Lit("<nil>")
		}
		return sym.Lit("%!" + string(rune(verb)) + "(<nil>)")
	}
	// Error / String methods
	if strings.IndexByte("vsxXq", verb) >= 0 && !strings.Contains(spec, "#") {
		if m.hasMethod(a.T, "Error") {
			if p, ok := a.V.(*Value); ok && p == nil {
				return sym.Lit("<nil>")
			}
			v, _ := m.CallMethod(a, "Error")
			return m.fmtVerb(spec, verb, Iface{types.Typ[types.String], v})
		}
		if m.hasMethod(a.T, "String") && !isOpaque(a.V) {
			if p, ok := a.V.(*Value); ok && p == nil {
				return sym.Lit("<nil>")
			}
			if fn := m.P.Prog.LookupMethod(a.T, nil, "String"); fn != nil && fn.Signature.Params().Len() == 0 {
				v, _ := m.CallMethod(a, "String")
				return m.fmtVerb(spec, verb, Iface{types.Typ[types.String], v})
			}
		}
	}
	switch v := a.V.(type) {
	case string:
		return sym.Lit(fmt.Sprintf(spec, v))
	case *RStr:
		if spec == "%s" || spec == "%v" {
			return v.S
		}
		if spec == "%q" || spec == "%x" || spec == "%X" {
			return sym.Lit(fmt.Sprintf(spec, m.concStr(v)))
		}
		return sym.Lit(fmt.Sprintf(spec, m.concStr(v)))
	case int64:
		b, _ := a.T.Underlying().(*types.Basic)
		if b != nil && b.Info()&types.IsUnsigned != 0 {
			if b.Kind() == types.Uint8 {
				return sym.Lit(fmt.Sprintf(spec, uint8(v)))
			}
			return sym.Lit(fmt.Sprintf(spec, uint64(v)))
		}
		if b != nil && b.Kind() == types.Int32 {
			return sym.Lit(fmt.Sprintf(spec, int32(v)))
		}
		return sym.Lit(fmt.Sprintf(spec, v))
	case bool:
		return sym.Lit(fmt.Sprintf(spec, v))
	case float64:
		return sym.Lit(fmt.Sprintf(spec, v))
	case *sym.Term:
		if v.W == 0 {
			if m.Path.Branch(v) {
				return sym.Lit("true")
			}
			return sym.Lit("false")
		}
		w, s, _ := intInfo(a.T)
		if spec == "%d" || spec == "%v" {
			t := v
			if w < 64 {
				if s {
					t = m.F.SExt(v, 64)
				} else {
					t = m.F.ZExt(v, 64)
				}
			} else if !s {
				m.Path.Assume(m.F.Sle(m.F.BV(0, 64), v))
			}
			return sym.Itoa(t)
		}
		if verb == 'c' {
			return toStr(m.runeToStr(v, w, s))
		}
		if spec == "%x" && w == 8 {
			return m.hexByte(v, false)
		}
		return sym.Lit(fmt.Sprintf(spec, m.concInt(v)))
	case Slice:
		return m.fmtSeq(spec, verb, a.T, v)
	case Array:
		return m.fmtSeq(spec, verb, a.T, v)
	case Struct:
		r := sym.Lit("{")
		st := a.T.Underlying().(*types.Struct)
		for i, x := range v {
			if i > 0 {
				r = append(r, sym.Ch{B: ' '})
			}
			r = append(r, m.fmtVerb(spec, verb, toIface(x, st.Field(i).Type()))...)
		}
		return append(r, sym.Ch{B: '}'})
	case *Value:
		if v == nil {
			return sym.Lit("<nil>")
		}
		if st, ok := (*v).(Struct); ok && verb == 'v' {
			return append(sym.Lit("&"), m.fmtVerb(spec, verb, Iface{a.T.Underlying().(*types.Pointer).Elem(), st})...)
		}
		return sym.Lit("0xc000012345")
	case *Map:
		r := sym.Lit("map[")
		if v != nil {
			mt := a.T.Underlying().(*types.Map)
			first := true
			// fmt prints maps in key order
			type kv struct{ k, v sym.Str }
			var kvs []kv
			for _, e := range v.ents {
				if e.dead {
					continue
				}
				kvs = append(kvs, kv{m.fmtVerb("%v", 'v', toIface(e.k, mt.Key())), m.fmtVerb("%v", 'v', toIface(e.v, mt.Elem()))})
			}
			for i := range kvs {
				for j := i + 1; j < len(kvs); j++ {
					if kvs[j].k.String() < kvs[i].k.String() {
						kvs[i], kvs[j] = kvs[j], kvs[i]
					}
				}
			}
			for _, e := range kvs {
				if !first {
					r = append(r, sym.Ch{B: ' '})
				}
				first = false
				r = append(append(append(r, e.k...), sym.Ch{B: ':'}), e.v...)
			}
		}
		return append(r, sym.Ch{B: ']'})
	case Iface:
		return m.fmtVerb(spec, verb, v)
	case *Func:
		return sym.Lit("0x47ab10")
	}
	m.Path.Unsupported("format %s of %T", spec, a.V)
	return nil
}

func isOpaque(v Value) bool { _, ok := v.(*Native); return ok }

func toIface(v Value, t types.Type) Iface {
	if i, ok := v.(Iface); ok {
		return i
	}
	return Iface{t, v}
}

func (m *Machine) hexByte(t *sym.Term, upper bool) sym.Str {
	f := m.F
	nib := func(n *sym.Term) *sym.Term {
		a := int64('a' - 10)
		if upper {
			a = 'A' - 10
		}
		return f.Ite(f.Ult(n, f.BV(10, 8)), f.Add(n, f.BV('0', 8)), f.Add(n, f.BV(a, 8)))
	}
	return sym.ByteStr(nib(f.Bin(sym.OLShr, t, f.BV(4, 8))), nib(f.Bin(sym.OBAnd, t, f.BV(15, 8))))
}

func (m *Machine) fmtSeq(spec string, verb byte, t types.Type, v []Value) sym.Str {
	var et types.Type
	switch u := t.Underlying().(type) {
	case *types.Slice:
		et = u.Elem()
	case *types.Array:
		et = u.Elem()
	}
	if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && strings.IndexByte("sxXq", verb) >= 0 {
		if (spec == "%x" || spec == "%X") && len(v) > 0 {
			r := sym.Str{}
			for _, x := range v {
				switch x := x.(type) {
				case int64:
					r = append(r, sym.Lit(fmt.Sprintf("%02"+string(rune(verb)), byte(x)))...)
				case *sym.Term:
					r = append(r, m.hexByte(x, verb == 'X')...)
				}
			}
			return r
		}
		return m.fmtVerb(spec, verb, Iface{types.Typ[types.String], bytesToStr(v)})
	}
	r := sym.Lit("[")
	for i, x := range v {
		if i > 0 {
			r = append(r, sym.Ch{B: ' '})
		}
		r = append(r, m.fmtVerb(spec, verb, toIface(x, et))...)
	}
	return append(r, sym.Ch{B: ']'})
}

func (m *Machine) sprint(args Slice, ln bool) sym.Str {
	r := sym.Str{}
	prevStr := true
	for i, a := range args {
		iv := a.(Iface)
		isS := iv.T != nil && isString(iv.T)
		if i > 0 && (ln || !isS && !prevStr) {
			r = append(r, sym.Ch{B: ' '})
		}
		r = append(r, m.fmtVerb("%v", 'v', iv)...)
		prevStr = isS
	}
	return r
}

var _ = strconv.Itoa
