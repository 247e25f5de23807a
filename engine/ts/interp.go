package ts

import (
	"path"
	"strconv"

	"verif/sym"
)

// Value is a symbolic TypeShell value.
type Value struct {
	T   Type
	I   *sym.Term // int (64 bit) or bool
	S   sym.Str
	Ref *Slice
}

// Slice is a growable array with reference semantics.
type Slice struct{ Elems []Value }

// Options of a reference run.
type Options struct {
	IntHoles map[string]*sym.Term // literal text -> term
	StrHoles map[string]sym.Str   // literal content -> value
	Width    uint8                // integer width, 64 or 32
	Stdin    sym.Str
	MaxSteps int
	// App runs one external program.
	App   func(name string, args []sym.Str, stdin sym.Str) (out sym.Str, code *sym.Term)
	Files *Files
}

// Files is the reference line store.
type Files struct {
	Names []sym.Str
	Data  []sym.Str
	Dirs  []string
}

// Result of a reference run.
type Result struct {
	Out    sym.Str
	Status *sym.Term
	Files  *Files
	Steps  int
	In     sym.Str
	Calls  []string
}

type interp struct {
	p    *sym.Path
	f    *sym.Factory
	o    Options
	out  sym.Str
	vars map[*Var]*Value
	in   sym.Str
	res  *Result
	n    int
	fs   *Files
	done map[*Module]bool
	ret  []Value
}

type exitSig struct{ st *sym.Term }

type ctl int

const (
	cNext ctl = iota
	cBreak
	cContinue
	cReturn
)

// Run executes the Go meaning of prog on path p. Undefined situations (division by zero, indices out of
// range) are assumed away.
func Run(p *sym.Path, prog *Prog, o Options) *Result {
	if o.Width == 0 {
		o.Width = 64
	}
	if o.MaxSteps == 0 {
		o.MaxSteps = 20000
	}
	in := &interp{p: p, f: p.F, o: o, vars: map[*Var]*Value{}, in: o.Stdin, res: &Result{}, fs: o.Files, done: map[*Module]bool{}}
	if in.fs == nil {
		in.fs = &Files{}
	}
	st := in.f.BV(0, 64)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if e, ok := r.(exitSig); ok {
					st = e.st
					return
				}
				panic(r)
			}
		}()
		in.module(prog.Main)
	}()
	in.res.Out = in.out
	in.res.Status = st
	in.res.Files = in.fs
	in.res.Steps = in.n
	in.res.In = in.in
	return in.res
}

func (in *interp) module(m *Module) {
	if in.done[m] {
		return
	}
	in.done[m] = true
	for _, d := range m.Order {
		in.module(d)
	}
	in.block(m.Stmts)
}

func (in *interp) step() {
	in.n++
	if in.n > in.o.MaxSteps {
		in.p.Bound("reference step limit")
	}
}

func (in *interp) int(n int64) Value { return Value{T: TInt, I: in.f.BV(n, 64)} }

func (in *interp) wrap(t *sym.Term) *sym.Term {
	if in.o.Width == 64 {
		return t
	}
	return in.f.SExt(in.f.Trunc(t, in.o.Width), 64)
}

func (in *interp) zero(t Type) Value {
	if t.Slice {
		return Value{T: t, Ref: &Slice{}}
	}
	switch t.K {
	case "int":
		return in.int(0)
	case "bool":
		return Value{T: t, I: in.f.Bool(false)}
	}
	return Value{T: t}
}

func (in *interp) block(b []*Stmt) ctl {
	for _, s := range b {
		if c := in.stmt(s); c != cNext {
			return c
		}
	}
	return cNext
}

// vals evaluates a value list to n values.
func (in *interp) vals(es []*Expr) []Value {
	if len(es) == 1 && es[0].Multi != nil {
		return in.multi(es[0])
	}
	var out []Value
	for _, e := range es {
		out = append(out, in.eval(e))
	}
	return out
}

func (in *interp) set(v *Var, x Value) {
	c := in.vars[v]
	if c == nil {
		c = &Value{}
		in.vars[v] = c
	}
	*c = x
}

func (in *interp) print(s sym.Str) { in.out = append(in.out[:len(in.out):len(in.out)], s...) }

func (in *interp) str(v Value) sym.Str {
	if v.T.Slice {
		in.p.Unsupported("printing a slice")
	}
	switch v.T.K {
	case "int":
		return sym.Itoa(v.I)
	case "bool":
		return sym.Itoa(in.f.Ite(v.I, in.f.BV(1, 64), in.f.BV(0, 64)))
	}
	return v.S
}

func (in *interp) branch(v Value) bool { return in.p.Branch(v.I) }

func (in *interp) stmt(s *Stmt) ctl {
	in.step()
	switch s.K {
	case "def":
		if s.Vals == nil {
			for _, v := range s.Vars {
				in.set(v, in.zero(v.T))
			}
			return cNext
		}
		fallthrough
	case "assign":
		vs := in.vals(s.Vals)
		for i, v := range s.Vars {
			in.set(v, vs[i])
		}
	case "opassign":
		v := s.Vars[0]
		l := *in.vars[v]
		r := in.eval(s.Vals[0])
		in.set(v, in.bin(s.Op, l, r))
	case "index":
		base := *in.vars[s.Vars[0]]
		idx := in.eval(s.Idx)
		val := in.eval(s.Vals[0])
		i := in.index(idx.I, len(base.Ref.Elems)+6)
		for len(base.Ref.Elems) <= i {
			base.Ref.Elems = append(base.Ref.Elems, in.zero(s.Vars[0].T.Elem()))
		}
		base.Ref.Elems[i] = val
	case "if":
		var cs []Value
		for _, b := range s.Branches {
			cs = append(cs, in.eval(b.Cond))
		}
		for i, b := range s.Branches {
			if in.branch(cs[i]) {
				return in.block(b.Body)
			}
		}
		return in.block(s.Else)
	case "switch":
		tag := Value{T: TBool, I: in.f.Bool(true)}
		if s.Tag != nil {
			tag = in.eval(s.Tag)
		}
		var cs []Value
		for _, b := range s.Branches {
			cs = append(cs, in.cmp("==", tag, in.eval(b.Cond)))
		}
		body := s.Else
		for i, b := range s.Branches {
			if in.branch(cs[i]) {
				body = b.Body
				break
			}
		}
		c := in.block(body)
		if c == cBreak {
			return cNext
		}
		return c
	case "for":
		if s.Init != nil {
			in.stmt(s.Init)
		}
		for first := true; ; first = false {
			in.step()
			if !first && s.Post != nil {
				in.stmt(s.Post)
			}
			if s.Cond != nil && !in.branch(in.eval(s.Cond)) {
				return cNext
			}
			switch in.block(s.Body) {
			case cBreak:
				return cNext
			case cReturn:
				return cReturn
			}
		}
	case "range":
		it := in.eval(s.Vals[0])
		if !it.T.Slice {
			it.S = in.p.Digits(it.S)
		}
		for i := 0; ; i++ {
			in.step()
			var el Value
			if it.T.Slice {
				if i >= len(it.Ref.Elems) {
					return cNext
				}
				el = it.Ref.Elems[i]
			} else {
				if i >= len(it.S) {
					return cNext
				}
				el = Value{T: TStr, S: it.S[i : i+1 : i+1]}
			}
			in.set(s.Vars[0], in.int(int64(i)))
			if len(s.Vars) > 1 {
				in.set(s.Vars[1], el)
			}
			switch in.block(s.Body) {
			case cBreak:
				return cNext
			case cReturn:
				return cReturn
			}
			// The index variable is an ordinary variable in TypeShell; programs that assign it are
			// outside the fragment.
		}
	case "break":
		return cBreak
	case "continue":
		return cContinue
	case "return":
		in.ret = in.vals(s.Vals)
		return cReturn
	case "print":
		line := sym.Str{}
		for i, v := range in.vals(s.Vals) {
			if i > 0 {
				line = sym.Cat(line, sym.Lit(" "))
			}
			line = sym.Cat(line, in.str(v))
		}
		in.print(sym.Cat(line, sym.Lit("\n")))
	case "panic":
		v := in.eval(s.Vals[0])
		in.print(sym.Cat(sym.Lit("panic: "), in.str(v), sym.Lit("\n")))
		panic(exitSig{in.f.BV(1, 64)})
	case "write":
		name := in.eval(s.Vals[0])
		data := in.eval(s.Vals[1])
		app := false
		if len(s.Vals) > 2 {
			app = in.branch(in.eval(s.Vals[2]))
		}
		in.fs.write(in.p, name.S, data.S, app)
	case "expr":
		e := s.Vals[0]
		if e.K == "app" {
			in.app(e, false)
		} else if e.Multi != nil {
			in.multi(e)
		} else {
			in.eval(e)
		}
	default:
		panic("stmt " + s.K)
	}
	return cNext
}

// clean normalises a concrete path.
func clean(s sym.Str) sym.Str {
	if c, ok := s.Concrete(); ok && c != "" {
		return sym.Lit(path.Clean(c))
	}
	return s
}

// exists: a file or directory of that name exists.
// Exists tells whether a file or directory of that name exists.
func (fs *Files) Exists(p *sym.Path, name sym.Str) bool { return fs.exists(p, name) }

func (fs *Files) exists(p *sym.Path, name sym.Str) bool {
	if fs.find(p, name) >= 0 {
		return true
	}
	n := clean(name)
	for _, d := range append([]string{".", "..", "/", "/tmp", "/dev/null"}, fs.Dirs...) {
		if p.Branch(p.StrEq(sym.Lit(d), n)) {
			return true
		}
	}
	return false
}

func (fs *Files) find(p *sym.Path, name sym.Str) int {
	name = clean(name)
	for i := len(fs.Names) - 1; i >= 0; i-- {
		if p.Branch(p.StrEq(fs.Names[i], name)) {
			return i
		}
	}
	return -1
}

func (fs *Files) write(p *sym.Path, name, data sym.Str, app bool) {
	name = clean(name)
	i := fs.find(p, name)
	line := sym.Cat(data, sym.Lit("\n"))
	if i < 0 {
		fs.Names = append(fs.Names, name)
		fs.Data = append(fs.Data, line)
		return
	}
	if app {
		fs.Data[i] = sym.Cat(fs.Data[i], line)
	} else {
		fs.Data[i] = line
	}
}

// Put adds a file with the given content.
func (fs *Files) Put(name, data sym.Str) {
	if c, ok := name.Concrete(); ok {
		for d := path.Dir(c); d != "." && d != "/"; d = path.Dir(d) {
			fs.Dirs = append(fs.Dirs, d)
		}
	}
	fs.Names = append(fs.Names, name)
	fs.Data = append(fs.Data, data)
}

// index turns an index term into a concrete value in [0, max).
func (in *interp) index(t *sym.Term, max int) int {
	f := in.f
	in.p.Assume(f.And(f.Sle(f.BV(0, 64), t), f.Slt(t, f.BV(int64(max), 64))))
	return int(in.p.Concretize(t, max+1))
}

func (in *interp) multi(e *Expr) []Value {
	if e.K == "app" {
		out, code := in.app(e, true)
		return []Value{{T: TStr, S: out}, {T: TStr}, {T: TInt, I: code}}
	}
	return in.call(e)
}

func (in *interp) app(e *Expr, capture bool) (sym.Str, *sym.Term) {
	type inv struct {
		name string
		args []sym.Str
	}
	var is []inv
	for _, a := range e.Apps {
		x := inv{name: a.Name}
		for _, g := range a.Args {
			x.args = append(x.args, in.str(in.eval(g)))
		}
		is = append(is, x)
	}
	stdin := sym.Str{}
	var out sym.Str
	var code *sym.Term
	for _, x := range is {
		if in.o.App == nil {
			in.p.Unsupported("command call")
		}
		out, code = in.o.App(x.name, x.args, stdin)
		stdin = out
	}
	if !capture {
		in.print(out)
		return nil, code
	}
	if n := len(out); n > 0 && in.isNL(out[n-1]) {
		out = out[: n-1 : n-1]
	}
	return out, code
}

func (in *interp) call(e *Expr) []Value {
	in.step()
	var args []Value
	for _, a := range e.Args {
		args = append(args, in.eval(a))
	}
	// No recursion exists, so one static frame per function suffices; fresh values are stored anyway.
	for i, v := range e.F.Params {
		in.set(v, args[i])
	}
	in.ret = nil
	in.block(e.F.Body)
	r := in.ret
	in.ret = nil
	return r
}

func (in *interp) bin(op string, l, r Value) Value {
	f := in.f
	if l.T == TStr {
		return Value{T: TStr, S: sym.Cat(l.S, r.S)}
	}
	x, y := l.I, r.I
	if in.o.Width == 32 {
		x, y = f.Trunc(x, 32), f.Trunc(y, 32)
	}
	var t *sym.Term
	switch op {
	case "+":
		t = f.Add(x, y)
	case "-":
		t = f.Sub(x, y)
	case "*":
		t = f.Mul(x, y)
	case "/", "%":
		in.p.Assume(f.Ne(y, f.BV(0, y.W)))
		if in.o.Width == 32 {
			// Go gives MinInt32 for MinInt32 / -1; cmd.exe's behaviour is not documented: outside.
			in.p.Assume(f.Not(f.And(f.Eq(y, f.BV(-1, 32)), f.Eq(x, f.BV(-1<<31, 32)))))
		}
		if op == "/" {
			t = f.SDiv(x, y)
		} else {
			t = f.SRem(x, y)
		}
	default:
		panic("op " + op)
	}
	return Value{T: TInt, I: f.SExt(t, 64)}
}

func (in *interp) cmp(op string, l, r Value) Value {
	f := in.f
	var t *sym.Term
	switch l.T.K {
	case "int":
		switch op {
		case "==", "!=":
			t = f.Eq(l.I, r.I)
		case "<", ">=":
			t = f.Slt(l.I, r.I)
		case ">", "<=":
			t = f.Slt(r.I, l.I)
		}
	case "bool":
		t = f.Eq(l.I, r.I)
	default:
		switch op {
		case "==", "!=":
			t = in.p.StrEq(l.S, r.S)
		case "<", ">=":
			t = in.less(l.S, r.S)
		case ">", "<=":
			t = in.less(r.S, l.S)
		}
	}
	if op == "!=" || op == ">=" || op == "<=" {
		t = f.Not(t)
	}
	return Value{T: TBool, I: t}
}

func (in *interp) less(a, b sym.Str) *sym.Term {
	f := in.f
	a, b = in.p.Digits(a), in.p.Digits(b)
	res := f.Bool(len(a) < len(b))
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for i := n - 1; i >= 0; i-- {
		x, y := f.ByteTerm(a[i]), f.ByteTerm(b[i])
		res = f.Or(f.Ult(x, y), f.And(f.Eq(x, y), res))
	}
	return res
}

func (in *interp) eval(e *Expr) Value {
	in.step()
	f := in.f
	switch e.K {
	case "int":
		if t := in.o.IntHoles[e.S]; t != nil {
			return Value{T: TInt, I: t}
		}
		if len(e.S) > 1 && e.S[0] == '-' {
			if t := in.o.IntHoles[e.S[1:]]; t != nil {
				return Value{T: TInt, I: in.wrap(f.Neg(t))}
			}
		}
		n, err := strconv.ParseInt(e.S, 10, 64)
		if err != nil {
			in.p.Unsupported("integer %s", e.S)
		}
		return in.int(n)
	case "bool":
		return Value{T: TBool, I: f.Bool(e.B)}
	case "str":
		if h, ok := in.o.StrHoles[e.S]; ok {
			return Value{T: TStr, S: h}
		}
		return Value{T: TStr, S: sym.Lit(e.S)}
	case "var":
		v := in.vars[e.V]
		if v == nil {
			// A variable whose definition has not run (cannot happen in accepted programs).
			in.p.Unsupported("read before definition of %s", e.V.Name)
		}
		return *v
	case "group":
		return in.eval(e.Args[0])
	case "bin", "cmp", "and", "or":
		l := in.eval(e.Args[0])
		r := in.eval(e.Args[1])
		switch e.K {
		case "bin":
			return in.bin(e.Op, l, r)
		case "cmp":
			return in.cmp(e.Op, l, r)
		case "and":
			return Value{T: TBool, I: f.And(l.I, r.I)}
		}
		return Value{T: TBool, I: f.Or(l.I, r.I)}
	case "not":
		return Value{T: TBool, I: f.Not(in.eval(e.Args[0]).I)}
	case "list":
		s := &Slice{}
		for _, a := range e.Args {
			s.Elems = append(s.Elems, in.eval(a))
		}
		return Value{T: e.T, Ref: s}
	case "index", "substr":
		base := in.eval(e.Args[0])
		if base.T.Slice {
			idx := in.eval(e.Lo)
			n := len(base.Ref.Elems)
			if n == 0 {
				in.p.Assume(f.Bool(false))
			}
			return base.Ref.Elems[in.index(idx.I, n)]
		}
		s := in.p.Digits(base.S)
		lo, hi := 0, len(s)
		var lt, ht *sym.Term
		if e.Lo != nil {
			lt = in.eval(e.Lo).I
		}
		if e.Hi != nil {
			ht = in.eval(e.Hi).I
		}
		if e.K == "index" {
			if len(s) == 0 {
				in.p.Assume(f.Bool(false))
			}
			lo = in.index(lt, len(s))
			hi = lo + 1
		} else {
			if lt != nil {
				lo = in.index(lt, len(s)+1)
			}
			if ht != nil {
				hi = in.index(ht, len(s)+1)
			}
			if lo > hi {
				in.p.Assume(f.Bool(false))
			}
		}
		return Value{T: TStr, S: s[lo:hi:hi]}
	case "len":
		v := in.eval(e.Args[0])
		if v.T.Slice {
			return in.int(int64(len(v.Ref.Elems)))
		}
		return Value{T: TInt, I: f.Len(v.S)}
	case "itoa":
		return Value{T: TStr, S: sym.Itoa(in.eval(e.Args[0]).I)}
	case "copy":
		d := in.eval(e.Args[0])
		s := in.eval(e.Args[1])
		n := len(s.Ref.Elems)
		for i := 0; i < n; i++ {
			if i < len(d.Ref.Elems) {
				d.Ref.Elems[i] = s.Ref.Elems[i]
			} else {
				d.Ref.Elems = append(d.Ref.Elems, s.Ref.Elems[i])
			}
		}
		return in.int(int64(n))
	case "input":
		if len(e.Args) > 0 {
			in.eval(e.Args[0])
		}
		for i, c := range in.in {
			if in.isNL(c) {
				l := in.in[:i:i]
				in.in = in.in[i+1:]
				return Value{T: TStr, S: l}
			}
		}
		l := in.in
		in.in = nil
		return Value{T: TStr, S: l}
	case "exists":
		return Value{T: TBool, I: f.Bool(in.fs.exists(in.p, in.eval(e.Args[0]).S))}
	case "read":
		i := in.fs.find(in.p, in.eval(e.Args[0]).S)
		if i < 0 {
			in.p.Assume(f.Bool(false))
		}
		d := in.fs.Data[i]
		if n := len(d); n > 0 && in.isNL(d[n-1]) {
			d = d[: n-1 : n-1]
		}
		return Value{T: TStr, S: d}
	case "call":
		r := in.call(e)
		if e.T == TVoid {
			return Value{T: TVoid}
		}
		return r[0]
	}
	in.p.Unsupported("expression %s", e.K)
	return Value{}
}

func (in *interp) isNL(c sym.Ch) bool {
	if c.IsLit() {
		return c.B == '\n'
	}
	if c.IsItoa() {
		return false
	}
	return in.p.Branch(in.f.Eq(c.T, in.f.BV('\n', 8)))
}
