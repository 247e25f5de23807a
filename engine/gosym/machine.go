package gosym

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/sym"
)

// GoPanic is a panic of the interpreted program.
type GoPanic struct {
	V       Value // Iface
	Runtime string
}

// ExitPanic is os.Exit of the interpreted program.
type ExitPanic struct{ Code int64 }

// stepLimit / depthLimit are reported as non-termination / stack exhaustion suspects.
type LimitPanic struct{ Kind string }

// Machine executes the program on one path at a time.
type Machine struct {
	initNow *ssa.Package
	P       *Program
	Path    *sym.Path
	F       *sym.Factory
	globals []*Value // module globals of the current path
	lib     []*Value // library globals (kept across paths)
	libInit map[*ssa.Package]bool
	Steps   int64
	MaxStep int64
	depth   int
	MaxDep  int

	FS      *VFS
	Args    []string
	ExePath string
	Cwd     string
	Stdout  sym.Str
	Stderr  sym.Str
	// MapOrder chooses the iteration order of a map with n entries (nil: insertion order).
	MapOrder func(site ssa.Instruction, n int) []int
	// NDEnv makes what the environment supplies (variables, process id, random numbers) unknown values.
	NDEnv      bool
	LazyArg    func(i int) string
	IntHoles   map[string]*sym.Term
	OpaqueHash bool               // digests of symbolic texts are fixed values
	HashHoles  map[string]sym.Str // source text -> symbolic digest (hex nibbles chosen by the harness)
	Covered    map[*ssa.Function]bool
	seen       []bool
	stack      []Value // registers of the active calls
	sp         int
	ConvCalls  int                // calls of converter methods since Begin
	StrHoles   map[string]sym.Str // content of a string token -> symbolic content
	inLibInit  int
	Trace      bool
	curPanics  []*frame
}

func NewMachine(P *Program, f *sym.Factory) *Machine {
	return &Machine{P: P, F: f, MaxStep: 40_000_000, MaxDep: 30000, libInit: map[*ssa.Package]bool{}, Covered: map[*ssa.Function]bool{},
		FS: NewVFS(), Cwd: "/work", ExePath: "/opt/tsh/tsh"}
}

// Begin starts a fresh path: module globals are re-initialised.
func (m *Machine) Begin(p *sym.Path) {
	m.Path = p
	m.F = p.F
	m.Steps = 0
	m.ConvCalls = 0
	m.sp = 0
	clear(m.stack)
	m.depth = 0
	m.Stdout, m.Stderr = nil, nil
	m.globals = nil
	for _, sp := range m.P.initOrd {
		if fn := sp.Func("init"); fn != nil {
			m.Call(fn, nil)
		}
	}
}

func isLib(P *Program, pkg *ssa.Package) bool { return pkg == nil || !P.inModule(pkg.Pkg.Path()) }

func (m *Machine) global(g *ssa.Global, id int) *Value {
	lib := isLib(m.P, g.Pkg)
	tab := &m.globals
	if lib {
		tab = &m.lib
	}
	for len(*tab) <= id {
		*tab = append(*tab, make([]*Value, 64+len(*tab))...)
	}
	if c := (*tab)[id]; c != nil {
		return c
	}
	if lib {
		m.ensureLib(g.Pkg)
		if c := (*tab)[id]; c != nil {
			return c
		}
	}
	c := new(Value)
	*c = zero(g.Type().(*types.Pointer).Elem())
	if lib {
		if v, ok := m.libGlobalHook(g); ok {
			*c = v
		}
		switch g.RelString(nil) {
		case "os.Args":
			s := Slice{}
			for i, a := range m.Args {
				if m.LazyArg != nil {
					i := i
					s = append(s, &Lazy{func() Value { return m.LazyArg(i) }})
					continue
				}
				s = append(s, a)
			}
			*c = s
			return c // per path, not cached
		}
	}
	(*tab)[id] = c
	return c
}

// packages whose initialisers are never interpreted
var noInit = map[string]bool{"os": true, "syscall": true, "runtime": true, "reflect": true, "time": true, "sync": true,
	"internal/poll": true, "internal/cpu": true, "internal/godebug": true, "internal/bytealg": true, "crypto": true,
	"crypto/sha256": true, "internal/testlog": true, "unsafe": true, "internal/abi": true, "sync/atomic": true, "fmt": true, "regexp/syntax": true, "errors": true}

func (m *Machine) ensureLib(pkg *ssa.Package) {
	if m.libInit[pkg] {
		return
	}
	m.libInit[pkg] = true
	path := pkg.Pkg.Path()
	if noInit[path] || strings.HasPrefix(path, "runtime/") || strings.HasPrefix(path, "internal/runtime") || strings.HasPrefix(path, "crypto/internal") || strings.HasPrefix(path, "internal/syscall") {
		return
	}
	if fn := pkg.Func("init"); fn != nil {
		m.inLibInit++
		m.initNow = pkg
		m.Call(fn, nil)
		m.inLibInit--
	}
}

func (m *Machine) rtPanic(format string, a ...any) {
	msg := "runtime error: " + fmt.Sprintf(format, a...)
	panic(GoPanic{V: m.NewError(msg), Runtime: msg})
}

// NewError builds an error value.
func (m *Machine) NewError(msg string) Iface { return m.NewErrorStr(msg) }

func (m *Machine) NewErrorStr(msg Value) Iface {
	c := new(Value)
	*c = Struct{msg}
	return Iface{T: m.P.ErrT, V: c}
}

func (m *Machine) truth(v Value) bool {
	switch v := v.(type) {
	case bool:
		return v
	case *sym.Term:
		return m.Path.Branch(v)
	}
	panic(fmt.Sprintf("truth %T", v))
}

func (m *Machine) boolTerm(v Value) *sym.Term {
	switch v := v.(type) {
	case bool:
		return m.F.Bool(v)
	case *sym.Term:
		return v
	}
	panic(fmt.Sprintf("boolTerm %T", v))
}

func boolVal(t *sym.Term) Value {
	if t.IsConst() {
		return t.IsTrue()
	}
	return t
}

func (m *Machine) intTerm(v Value, w uint8) *sym.Term {
	switch v := v.(type) {
	case int64:
		return m.F.BV(v, w)
	case *sym.Term:
		if v.W != w {
			panic(fmt.Sprintf("intTerm width %d want %d", v.W, w))
		}
		return v
	}
	panic(fmt.Sprintf("intTerm %T", v))
}

func intVal(t *sym.Term, signed bool) Value {
	if t.IsConst() {
		if signed {
			return t.Int()
		}
		return int64(t.V)
	}
	return t
}

// concInt forces a concrete integer (forking).
func (m *Machine) concInt(v Value) int64 {
	switch v := v.(type) {
	case int64:
		return v
	case *sym.Term:
		u := m.Path.Concretize(v, 300)
		return m.F.BV(int64(u), v.W).Int()
	}
	panic(fmt.Sprintf("concInt %T", v))
}

// concStr forces a concrete string.
func (m *Machine) concStr(v Value) string {
	switch v := v.(type) {
	case *Lazy:
		return m.concStr(v.F())
	case string:
		return v
	case *RStr:
		s := m.Path.Digits(v.S)
		b := make([]byte, len(s))
		for i, c := range s {
			if c.T == nil {
				b[i] = c.B
			} else {
				b[i] = byte(m.Path.Concretize(c.T, 300))
			}
		}
		return string(b)
	}
	panic(fmt.Sprintf("concStr %T", v))
}

// equal compares two values of the same static type: bool or Term.
func (m *Machine) equal(a, b Value) Value {
	switch x := a.(type) {
	case bool:
		if y, ok := b.(bool); ok {
			return x == y
		}
		return boolVal(m.F.Eq(m.F.Bool(x), b.(*sym.Term)))
	case int64:
		switch y := b.(type) {
		case int64:
			return x == y
		case *sym.Term:
			return boolVal(m.F.Eq(m.F.BV(x, y.W), y))
		}
	case *sym.Term:
		if x.W == 0 {
			return boolVal(m.F.Eq(x, m.boolTerm(b)))
		}
		return boolVal(m.F.Eq(x, m.intTerm(b, x.W)))
	case float64:
		return x == b.(float64)
	case string:
		if y, ok := b.(string); ok {
			return x == y
		}
		return boolVal(m.Path.StrEq(toStr(a), toStr(b)))
	case *RStr:
		return boolVal(m.Path.StrEq(x.S, toStr(b)))
	case *Value:
		y, ok := b.(*Value)
		return ok && x == y
	case *SymPtr:
		return a == b
	case *Map:
		return x == b.(*Map)
	case *Func:
		return x == b.(*Func)
	case *Native:
		y, ok := b.(*Native)
		return ok && x == y
	case Slice:
		y := b.(Slice)
		return x == nil && y == nil
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			panic(fmt.Sprintf("iface eq %T", b))
		}
		if x.T == nil || y.T == nil {
			return x.T == nil && y.T == nil
		}
		if !types.Identical(x.T, y.T) {
			return false
		}
		return m.equal(x.V, y.V)
	case Struct:
		return m.equalSeq(x, b.(Struct))
	case Array:
		return m.equalSeq(x, b.(Array))
	case nil:
		return b == nil
	}
	panic(fmt.Sprintf("equal %T %T", a, b))
}

func (m *Machine) equalSeq(a, b []Value) Value {
	r := m.F.True
	for i := range a {
		r = m.F.And(r, m.boolTerm(m.equal(a[i], b[i])))
		if r.IsFalse() {
			return false
		}
	}
	return boolVal(r)
}

// strLess is a < b (bytewise).
func (m *Machine) strLess(a, b sym.Str) *sym.Term {
	a, b = m.Path.Digits(a), m.Path.Digits(b)
	f := m.F
	var rec func(i int) *sym.Term
	rec = func(i int) *sym.Term {
		if i >= len(b) {
			return f.False
		}
		if i >= len(a) {
			return f.True
		}
		x, y := f.ByteTerm(a[i]), f.ByteTerm(b[i])
		return f.Or(f.Ult(x, y), f.And(f.Eq(x, y), rec(i+1)))
	}
	return rec(0)
}

// strLen as Value (int).
func (m *Machine) strLen(v Value) Value {
	switch v := v.(type) {
	case string:
		return int64(len(v))
	case *RStr:
		if v.flat() {
			return int64(len(v.S))
		}
		return intVal(m.F.Len(v.S), true)
	}
	panic(fmt.Sprintf("strLen %T", v))
}

// Call invokes a function with already evaluated arguments.
func (m *Machine) Call(fn *ssa.Function, args []Value, env ...Value) Value {
	cf := m.P.compile(fn)
	if cf.intr != nil {
		if r, ok := cf.intr(m, fn, args); ok {
			return r
		}
	}
	if cf.noBody {
		m.Path.Unsupported("no body: %s", fn)
	}
	if !cf.lib {
		if cf.conv {
			m.ConvCalls++
		}
	} else if fn.Pkg != nil && !cf.isInit {
		m.ensureLib(fn.Pkg)
	} else if cf.isInit && fn.Pkg != nil {
		// package initialiser reached through an import edge: run lazily instead
		if m.initNow != fn.Pkg {
			return nil
		}
		m.initNow = nil
	}
	m.depth++
	if m.depth > m.MaxDep {
		m.depth = 0
		panic(LimitPanic{"depth"})
	}
	for len(m.seen) <= cf.id {
		m.seen = append(m.seen, make([]bool, 256+len(m.seen))...)
	}
	if !m.seen[cf.id] {
		m.seen[cf.id] = true
		m.Covered[fn] = true
	}
	sp := m.sp
	var regs []Value
	if e := sp + cf.nregs; e <= len(m.stack) {
		regs = m.stack[sp:e:e]
		m.sp = e
	} else if m.stack == nil {
		m.stack = make([]Value, 1<<16)
		regs = make([]Value, cf.nregs)
	} else {
		regs = make([]Value, cf.nregs)
	}
	fr := &frame{m: m, cf: cf, regs: regs}
	copy(fr.regs, args)
	copy(fr.regs[len(fn.Params):], env)
	if cf.hasDefer {
		d := m.depth
		fr.runDefer()
		m.depth = d - 1
	} else {
		fr.run(0)
		m.depth--
	}
	clear(regs)
	m.sp = sp
	if len(m.StrHoles) > 0 && cf.lexEntry {
		m.fillHoles(fr.result)
	}
	return fr.result
}

// fillHoles replaces marker contents in the token list by symbolic strings.
func (m *Machine) fillHoles(v Value) {
	var toks Slice
	switch v := v.(type) {
	case Tuple:
		toks, _ = v[0].(Slice)
	case Slice:
		toks = v
	}
	for _, t := range toks {
		st, ok := t.(Struct)
		if !ok {
			continue
		}
		for i, x := range st {
			if s, ok := x.(string); ok {
				if h, ok := m.StrHoles[s]; ok {
					st[i] = mkStr(h)
				}
			}
		}
	}
}

// CallFunc invokes a function value.
func (m *Machine) CallFunc(f *Func, args []Value) Value {
	if f == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	if f.Native != nil {
		return f.Native(m, args)
	}
	return m.Call(f.Fn, args, f.Env...)
}

// CallMethod invokes method name on an interface value.
func (m *Machine) CallMethod(v Iface, name string, args ...Value) (Value, bool) {
	fn := m.P.Prog.LookupMethod(v.T, nil, name)
	if fn == nil {
		return nil, false
	}
	return m.Call(fn, append([]Value{v.V}, args...)), true
}

func (m *Machine) hasMethod(t types.Type, name string) bool {
	ms := m.P.Prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return true
		}
	}
	return false
}

// Outcome of a protected call.
type Outcome struct {
	Ret   Value
	Panic *GoPanic
	Exit  *int64
	Limit string
}

// Protect runs f and classifies the way it ended (sym.Abort passes through).
func (m *Machine) Protect(f func() Value) (o Outcome) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case GoPanic:
				o.Panic = &r
			case ExitPanic:
				o.Exit = &r.Code
			case LimitPanic:
				o.Limit = r.Kind
			default:
				panic(r)
			}
			m.depth = 0
		}
	}()
	o.Ret = f()
	return
}

// ErrText is the text of an error value ("" and false for nil).
func (m *Machine) ErrText(v Value) (Value, bool) {
	e := v.(Iface)
	if e.T == nil {
		return "", false
	}
	r, ok := m.CallMethod(e, "Error")
	if !ok {
		return "", true
	}
	return r, true
}
