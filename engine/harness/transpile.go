package harness

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/gosym"
	"verif/sym"
)

// StrOf extracts a symbolic string.
func StrOf(v gosym.Value) sym.Str {
	switch v := v.(type) {
	case string:
		return sym.Lit(v)
	case *gosym.RStr:
		return v.S
	}
	return nil
}

// newConverter calls the public constructor of a back end and wraps it as an interface value.
func newConverter(m *gosym.Machine, target string) gosym.Value {
	fn := m.P.Func("converters/"+target, "New")
	if fn == nil {
		m.Path.Unsupported("no constructor for %s", target)
	}
	v := m.Call(fn, nil)
	t := fn.Signature.Results().At(0).Type()
	if i, ok := v.(gosym.Iface); ok && types.IsInterface(t) {
		return i
	}
	return gosym.Iface{T: t, V: v}
}

// newTranspiler returns a pointer to a fresh transpiler object and its Transpile method.
func newTranspiler(m *gosym.Machine) (gosym.Value, *ssa.Function) {
	fn := m.P.Func("transpiler", "New")
	v := m.Call(fn, nil)
	t := fn.Signature.Results().At(0).Type()
	var recv gosym.Value = v
	if _, ok := t.Underlying().(*types.Pointer); !ok {
		c := new(gosym.Value)
		*c = v
		recv = c
		t = types.NewPointer(t)
	}
	meth := m.P.Prog.LookupMethod(t, nil, "Transpile")
	if meth == nil {
		m.Path.Unsupported("no Transpile method")
	}
	return recv, meth
}

// Transpile symbolically runs transpiler.New().Transpile(path, <target>.New()).
func Transpile(m *gosym.Machine, path, target string) gosym.Value {
	recv, meth := newTranspiler(m)
	return m.Call(meth, []gosym.Value{recv, path, newConverter(m, target)})
}

// Session is one transpiler object.
type Session struct {
	recv gosym.Value
	meth *ssa.Function
}

// NewSession creates a transpiler object.
func NewSession(m *gosym.Machine) *Session {
	r, f := newTranspiler(m)
	return &Session{r, f}
}

// Transpile runs the session's object with a new converter.
func (s *Session) Transpile(m *gosym.Machine, path, target string) gosym.Value {
	return m.Call(s.meth, []gosym.Value{s.recv, path, newConverter(m, target)})
}
