package ts

import (
	"fmt"
	"path"
	"strconv"
	"strings"
	"unicode"
)

type scope struct {
	vars   map[string]*Var
	parent *scope
	kind   string // program function if for switch
}

func (s *scope) find(n string) *Var {
	for ; s != nil; s = s.parent {
		if v := s.vars[n]; v != nil {
			return v
		}
	}
	return nil
}

type parser struct {
	prog  *Prog
	src   Sources
	mod   *Module
	toks  []Token
	i     int
	sc    *scope
	fn    *Func
	loops int
	sws   int
	stack []string
}

// Sources resolves files.
type Sources struct {
	Files map[string]string // absolute path -> content
	Std   map[string]string // std name (e.g. "strings") -> absolute path in Files
}

// Compile checks the program rooted at main.
func Compile(src Sources, main string) (prog *Prog, rej *Reject) {
	prog = &Prog{Mods: map[string]*Module{}, Uses: map[string]bool{}}
	defer func() {
		if r := recover(); r != nil {
			if x, ok := r.(*Reject); ok {
				rej = x
				return
			}
			panic(r)
		}
	}()
	prog.Main = parseModule(prog, src, main, nil)
	return prog, nil
}

// CompileString checks a single-file program.
func CompileString(s string) (*Prog, *Reject) {
	return Compile(Sources{Files: map[string]string{"/work/main.tsh": s}}, "/work/main.tsh")
}

func parseModule(prog *Prog, src Sources, file string, stack []string) *Module {
	if m := prog.Mods[file]; m != nil {
		return m
	}
	for _, s := range stack {
		if s == file {
			panic(&Reject{Msg: "import cycle"})
		}
	}
	text, ok := src.Files[file]
	if !ok {
		panic(&Reject{Msg: "no file " + file})
	}
	toks, err := Tokenize(text)
	if err != nil {
		panic(&Reject{Msg: err.Error(), Lex: true})
	}
	m := &Module{Path: file, Funcs: map[string]*Func{}, Imports: map[string]*Module{}}
	p := &parser{prog: prog, src: src, mod: m, toks: toks, stack: append(append([]string{}, stack...), file)}
	p.sc = &scope{vars: map[string]*Var{}, kind: "program"}
	p.imports()
	m.Stmts = p.stmts(func() bool { return p.peek().Kind == KEOF })
	prog.Mods[file] = m
	return m
}

func (p *parser) peek() Token { return p.toks[p.i] }
func (p *parser) peekN(n int) Token {
	if p.i+n >= len(p.toks) {
		return p.toks[len(p.toks)-1]
	}
	return p.toks[p.i+n]
}
func (p *parser) next() Token {
	t := p.toks[p.i]
	if p.i < len(p.toks)-1 {
		p.i++
	}
	return t
}
func (p *parser) is(text string) bool {
	t := p.peek()
	return (t.Kind == KOp || t.Kind == KKeyword) && t.Text == text
}
func (p *parser) accept(text string) bool {
	if p.is(text) {
		p.next()
		return true
	}
	return false
}
func (p *parser) syntax(f string, a ...any) {
	t := p.peek()
	panic(&Reject{Msg: fmt.Sprintf("%s:%d:%d: syntax: ", p.mod.Path, t.Row, t.Col) + fmt.Sprintf(f, a...), Syntax: true})
}
func (p *parser) reject(f string, a ...any) {
	t := p.peek()
	panic(&Reject{Msg: fmt.Sprintf("%s:%d:%d: ", p.mod.Path, t.Row, t.Col) + fmt.Sprintf(f, a...)})
}
func (p *parser) unsure(f string, a ...any) {
	p.prog.Unsure = append(p.prog.Unsure, fmt.Sprintf(f, a...))
}
func (p *parser) expect(text string) {
	if !p.accept(text) {
		p.syntax("expected %q, got %q", text, p.peek().Text)
	}
}
func (p *parser) ident() string {
	if p.peek().Kind != KIdent {
		p.syntax("expected identifier, got %q", p.peek().Text)
	}
	return p.next().Text
}
func (p *parser) skipNL() {
	for p.peek().Kind == KNewline {
		p.next()
	}
}
func (p *parser) newline() {
	if p.peek().Kind != KNewline {
		p.syntax("expected newline, got %q", p.peek().Text)
	}
	p.skipNL()
}

func (p *parser) imports() {
	p.skipNL()
	if !p.accept("import") {
		return
	}
	one := func() {
		alias := ""
		if p.peek().Kind == KIdent {
			alias = p.next().Text
		}
		if p.peek().Kind != KStr {
			p.syntax("import path")
		}
		file := p.next().Text
		abs := file
		if !path.IsAbs(abs) {
			abs = path.Join(path.Dir(p.mod.Path), file)
		}
		if _, ok := p.src.Files[abs]; !ok {
			name := strings.TrimSuffix(file, path.Ext(file))
			std, ok := p.src.Std[name]
			if !ok {
				p.reject("import %s not found", file)
			}
			abs = std
			if alias == "" {
				alias = path.Base(name)
			}
		} else if alias == "" {
			p.reject("alias required")
		}
		if p.mod.Imports[alias] != nil {
			p.reject("duplicate alias")
		}
		m := parseModule(p.prog, p.src, abs, p.stack)
		p.mod.Imports[alias] = m
		p.mod.Order = append(p.mod.Order, m)
		if p.peek().Kind != KNewline && p.peek().Kind != KEOF {
			p.syntax("newline after import")
		}
		p.skipNL()
	}
	if p.accept("(") {
		p.newline()
		for !p.accept(")") {
			one()
		}
		if p.peek().Kind != KNewline && p.peek().Kind != KEOF {
			p.syntax("newline after import")
		}
	} else {
		one()
	}
	if p.is("import") {
		p.syntax("second import")
	}
}

func (p *parser) push(kind string) func() {
	old := p.sc
	p.sc = &scope{vars: map[string]*Var{}, parent: old, kind: kind}
	return func() { p.sc = old }
}

func (p *parser) global() bool { return p.sc.kind == "program" }

func (p *parser) newVar(name string, t Type) *Var {
	v := &Var{Name: name, T: t, Global: p.global(), ID: p.prog.NVars}
	p.prog.NVars++
	return v
}
func (p *parser) declare(v *Var) { p.sc.vars[v.Name] = v }

func (p *parser) stmts(end func() bool) []*Stmt {
	var out []*Stmt
	for {
		p.skipNL()
		if end() {
			return out
		}
		if p.peek().Kind == KEOF {
			p.syntax("unexpected end")
		}
		if s := p.stmt(); s != nil {
			out = append(out, s)
		}
		if !end() && p.peek().Kind != KNewline {
			p.syntax("expected end of statement, got %q", p.peek().Text)
		}
	}
}

func (p *parser) block(kind string) []*Stmt {
	p.expect("{")
	if p.peek().Kind != KNewline {
		p.syntax("newline after {")
	}
	pop := p.push(kind)
	defer pop()
	b := p.stmts(func() bool { return p.is("}") })
	p.expect("}")
	return b
}

func (p *parser) typ() Type {
	t := Type{}
	if p.accept("[") {
		p.expect("]")
		t.Slice = true
	}
	k := p.peek()
	switch k.Text {
	case "int", "bool", "string":
		t.K = k.Text
	case "error":
		t.K = "string"
	default:
		p.syntax("type expected, got %q", k.Text)
	}
	p.next()
	return t
}

func (p *parser) isType() bool {
	if p.peek().Kind == KKeyword {
		switch p.peek().Text {
		case "int", "bool", "string", "error":
			return true
		}
	}
	return p.is("[") && p.peekN(1).Text == "]"
}

// names followed by the given operator?
func (p *parser) namesThen(op string) bool {
	j := p.i
	for {
		if j >= len(p.toks) || p.toks[j].Kind != KIdent {
			return false
		}
		j++
		if j >= len(p.toks) {
			return false
		}
		t := p.toks[j]
		if t.Kind == KOp && t.Text == op {
			return true
		}
		if t.Kind != KOp || t.Text != "," {
			return false
		}
		j++
	}
}

func (p *parser) names() []string {
	out := []string{p.ident()}
	for p.accept(",") {
		out = append(out, p.ident())
	}
	return out
}

// values parses an expression list and returns the types it provides.
func (p *parser) values() ([]*Expr, []Type) {
	vals := []*Expr{p.expr()}
	for p.accept(",") {
		vals = append(vals, p.expr())
	}
	if len(vals) == 1 && vals[0].Multi != nil {
		if len(vals[0].Multi) == 0 {
			p.reject("no value")
		}
		return vals, vals[0].Multi
	}
	var ts []Type
	for _, v := range vals {
		p.single(v)
		ts = append(ts, v.T)
	}
	return vals, ts
}

// single demands exactly one value.
func (p *parser) single(e *Expr) *Expr {
	if e.T == TVoid || e.T == TMulti {
		p.reject("%s used as a single value", e.T)
	}
	return e
}

func (p *parser) checkDup(names []string) {
	for i, a := range names {
		for _, b := range names[:i] {
			if a == b {
				if a == "_" {
					p.unsure("repeated _")
				} else {
					p.reject("%s repeated", a)
				}
			}
		}
	}
}

func (p *parser) varDef() *Stmt {
	p.next()
	names := p.names()
	p.checkDup(names)
	for _, n := range names {
		if p.sc.find(n) != nil {
			p.reject("%s redefined", n)
		}
	}
	var t Type
	typed := false
	if p.isType() {
		t = p.typ()
		typed = true
	}
	var vals []*Expr
	var ts []Type
	if p.accept("=") {
		vals, ts = p.values()
		if len(ts) != len(names) {
			p.reject("%d values for %d names", len(ts), len(names))
		}
		if typed {
			for _, u := range ts {
				if u != t {
					p.reject("%s for %s", u, t)
				}
			}
		}
	} else {
		if !typed {
			p.syntax("type or value expected")
		}
		for range names {
			ts = append(ts, t)
		}
	}
	s := &Stmt{K: "def", Vals: vals}
	for i, n := range names {
		v := p.newVar(n, ts[i])
		s.Vars = append(s.Vars, v)
		p.declare(v)
	}
	return s
}

func (p *parser) shortDef() *Stmt {
	names := p.names()
	p.checkDup(names)
	p.expect(":=")
	fresh := 0
	for _, n := range names {
		if p.sc.find(n) == nil {
			fresh++
		}
	}
	if fresh == 0 {
		p.reject("no new variable")
	}
	vals, ts := p.values()
	if len(ts) != len(names) {
		p.reject("%d values for %d names", len(ts), len(names))
	}
	s := &Stmt{K: "def", Vals: vals}
	for i, n := range names {
		v := p.sc.find(n)
		if v == nil {
			v = p.newVar(n, ts[i])
			defer p.declare(v)
		} else if v.T != ts[i] {
			p.reject("%s is %s, not %s", n, v.T, ts[i])
		}
		s.Vars = append(s.Vars, v)
	}
	sc := p.sc
	for _, v := range s.Vars {
		if sc.find(v.Name) == nil {
			sc.vars[v.Name] = v
		}
	}
	return s
}

func (p *parser) useVar(n string) *Var {
	v := p.sc.find(n)
	if v == nil {
		p.reject("%s undefined", n)
	}
	return v
}

func (p *parser) assign() *Stmt {
	names := p.names()
	p.expect("=")
	vals, ts := p.values()
	if len(ts) != len(names) {
		p.reject("%d values for %d names", len(ts), len(names))
	}
	s := &Stmt{K: "assign", Vals: vals}
	for i, n := range names {
		v := p.useVar(n)
		if v.T != ts[i] {
			p.reject("%s is %s, not %s", n, v.T, ts[i])
		}
		s.Vars = append(s.Vars, v)
	}
	return s
}

func (p *parser) simple() *Stmt {
	if p.namesThen(":=") {
		return p.shortDef()
	}
	if p.namesThen("=") {
		return p.assign()
	}
	if p.peek().Kind == KIdent {
		t := p.peekN(1)
		if t.Kind == KOp {
			switch t.Text {
			case "++", "--":
				v := p.useVar(p.ident())
				if v.T != TInt {
					p.reject("++ on %s", v.T)
				}
				p.next()
				return &Stmt{K: "opassign", Vars: []*Var{v}, Op: t.Text[:1], Vals: []*Expr{{K: "int", T: TInt, S: "1"}}}
			case "+=", "-=", "*=", "/=", "%=":
				v := p.useVar(p.ident())
				p.next()
				vals, ts := p.values()
				if len(ts) != 1 {
					p.reject("single value required")
				}
				if ts[0] != v.T {
					p.reject("%s %s %s", v.T, t.Text, ts[0])
				}
				if !(v.T == TInt || v.T == TStr && t.Text == "+=") {
					p.reject("%s on %s", t.Text, v.T)
				}
				return &Stmt{K: "opassign", Vars: []*Var{v}, Op: t.Text[:1], Vals: vals}
			case "[":
				// index assignment?
				depth, j := 0, p.i+1
				for ; j < len(p.toks); j++ {
					x := p.toks[j]
					if x.Kind == KNewline || x.Kind == KEOF {
						break
					}
					if x.Kind == KOp && x.Text == "[" {
						depth++
					}
					if x.Kind == KOp && x.Text == "]" {
						depth--
						if depth == 0 {
							break
						}
					}
				}
				if j+1 < len(p.toks) && p.toks[j+1].Kind == KOp && p.toks[j+1].Text == "=" {
					v := p.useVar(p.ident())
					if !v.T.Slice {
						p.reject("index assignment on %s", v.T)
					}
					p.expect("[")
					idx := p.single(p.expr())
					if idx.T != TInt {
						p.reject("index %s", idx.T)
					}
					p.expect("]")
					p.expect("=")
					val := p.single(p.expr())
					if val.T != v.T.Elem() {
						p.reject("element %s of %s", val.T, v.T)
					}
					return &Stmt{K: "index", Vars: []*Var{v}, Idx: idx, Vals: []*Expr{val}}
				}
			}
		}
	}
	e := p.expr()
	if e.K != "call" && e.K != "app" && e.K != "copy" && e.K != "input" && e.K != "read" {
		p.unsure("expression statement")
	}
	return &Stmt{K: "expr", Vals: []*Expr{e}}
}

func (p *parser) cond() *Expr {
	e := p.single(p.expr())
	if e.T != TBool {
		p.reject("condition %s", e.T)
	}
	return e
}

func (p *parser) stmt() *Stmt {
	t := p.peek()
	if t.Kind == KKeyword {
		switch t.Text {
		case "var":
			return p.varDef()
		case "func":
			p.funcDef()
			return nil
		case "return":
			p.next()
			if p.fn == nil {
				p.reject("return outside function")
			}
			s := &Stmt{K: "return"}
			if p.peek().Kind == KNewline || p.is("}") || p.peek().Kind == KEOF {
				if len(p.fn.Rets) > 0 {
					p.reject("missing return values")
				}
				p.unsure("bare return")
				return s
			}
			vals, ts := p.values()
			if len(ts) != len(p.fn.Rets) {
				p.reject("return arity")
			}
			for i, t := range ts {
				if t != p.fn.Rets[i] {
					p.reject("return type %s for %s", t, p.fn.Rets[i])
				}
			}
			if len(vals) == 1 && len(ts) > 1 {
				p.unsure("forwarding several values")
			}
			s.Vals = vals
			return s
		case "if":
			p.next()
			s := &Stmt{K: "if"}
			for {
				c := p.cond()
				s.Branches = append(s.Branches, Branch{c, p.block("if")})
				if !p.accept("else") {
					return s
				}
				if p.accept("if") {
					continue
				}
				s.Else = p.block("if")
				s.HasElse = true
				return s
			}
		case "switch":
			return p.switchStmt()
		case "for":
			return p.forStmt()
		case "break":
			p.next()
			if p.loops == 0 {
				p.reject("break outside loop")
			} else if p.sws > 0 {
				p.prog.Uses["switchbreak"] = true
			}
			return &Stmt{K: "break"}
		case "continue":
			p.next()
			if p.loops == 0 {
				p.reject("continue outside loop")
			}
			return &Stmt{K: "continue"}
		case "print", "panic", "write":
			p.next()
			args := p.args()
			switch t.Text {
			case "print":
				for _, a := range args {
					if a.T == TMulti && len(args) == 1 {
						p.unsure("print of several values")
						continue
					}
					p.single(a)
					if a.T.Slice {
						p.unsure("print of a slice")
					}
				}
			case "panic":
				if len(args) != 1 {
					p.reject("panic arity")
				}
				p.single(args[0])
				if args[0].T != TStr {
					p.unsure("panic of %s", args[0].T)
				}
			case "write":
				if len(args) < 2 || len(args) > 3 {
					p.reject("write arity")
				}
				for i, want := range []Type{TStr, TStr, TBool}[:len(args)] {
					if p.single(args[i]).T != want {
						p.reject("write argument %d is %s", i, args[i].T)
					}
				}
			}
			return &Stmt{K: t.Text, Vals: args}
		}
	}
	return p.simple()
}

func (p *parser) funcDef() {
	if !p.global() {
		p.reject("function below top level")
	}
	p.next()
	name := p.ident()
	if p.mod.Funcs[name] != nil {
		p.reject("function %s redefined", name)
	}
	if p.sc.find(name) != nil {
		p.unsure("function and variable share a name")
	}
	f := &Func{Name: name, Mod: p.mod}
	pop := p.push("function")
	oldLoops, oldSws := p.loops, p.sws
	p.loops, p.sws = 0, 0
	defer func() { p.loops, p.sws = oldLoops, oldSws }()
	if p.accept("(") {
		for !p.accept(")") {
			n := p.ident()
			t := p.typ()
			for _, v := range f.Params {
				if v.Name == n {
					p.reject("parameter %s repeated", n)
				}
			}
			if p.sc.find(n) != nil {
				p.reject("parameter %s redefines a variable", n)
			}
			v := p.newVar(n, t)
			v.Global = false
			f.Params = append(f.Params, v)
			if !p.is(")") {
				p.expect(",")
				if p.is(")") {
					p.unsure("trailing comma")
				}
			}
		}
	} else {
		p.unsure("function without parentheses")
		p.prog.Unsure = p.prog.Unsure[:len(p.prog.Unsure)-1] // documented
	}
	for _, v := range f.Params {
		p.declare(v)
	}
	if p.accept("(") {
		for !p.accept(")") {
			f.Rets = append(f.Rets, p.typ())
			if !p.is(")") {
				p.expect(",")
				if p.is(")") {
					p.unsure("trailing comma")
				}
			}
		}
		if len(f.Rets) == 0 {
			p.unsure("empty return list")
		}
	} else if p.isType() {
		f.Rets = append(f.Rets, p.typ())
	}
	p.fn = f
	f.Body = p.block("function")
	p.fn = nil
	pop()
	if len(f.Rets) > 0 {
		if len(f.Body) == 0 || !terminates(f.Body[len(f.Body)-1]) {
			p.reject("missing return")
		}
		if f.Body[len(f.Body)-1].K != "return" {
			p.unsure("terminating statement other than return")
		}
	}
	p.mod.Funcs[name] = f
}

// terminates implements Go's terminating-statement rule.
func terminates(s *Stmt) bool {
	last := func(b []*Stmt) bool { return len(b) > 0 && terminates(b[len(b)-1]) }
	switch s.K {
	case "return", "panic":
		return true
	case "if":
		if !s.HasElse || !last(s.Else) {
			return false
		}
		for _, b := range s.Branches {
			if !last(b.Body) {
				return false
			}
		}
		return true
	case "switch":
		if !s.HasElse || !last(s.Else) || hasBreak(s.Else) {
			return false
		}
		for _, b := range s.Branches {
			if !last(b.Body) || hasBreak(b.Body) {
				return false
			}
		}
		return true
	case "for":
		return s.Cond == nil && !hasBreak(s.Body)
	}
	return false
}

func hasBreak(b []*Stmt) bool {
	for _, s := range b {
		if s.K == "break" {
			return true
		}
		if s.K == "if" {
			for _, x := range s.Branches {
				if hasBreak(x.Body) {
					return true
				}
			}
			if hasBreak(s.Else) {
				return true
			}
		}
	}
	return false
}

func (p *parser) switchStmt() *Stmt {
	p.next()
	s := &Stmt{K: "switch"}
	tt := TBool
	if !p.is("{") {
		s.Tag = p.single(p.expr())
		tt = s.Tag.T
		if tt.Slice {
			p.reject("switch on slice")
		}
	}
	p.expect("{")
	if p.peek().Kind != KNewline {
		p.syntax("newline after {")
	}
	p.skipNL()
	p.sws++
	for !p.accept("}") {
		var c *Expr
		if p.accept("case") {
			c = p.single(p.expr())
			if p.is(",") {
				p.syntax("case list")
			}
			if c.T != tt {
				p.reject("case %s for %s", c.T, tt)
			}
		} else if p.accept("default") {
			if s.HasElse {
				p.reject("second default")
			}
		} else {
			p.syntax("case expected")
		}
		p.expect(":")
		if p.peek().Kind != KNewline {
			p.unsure("statement on case line")
		}
		pop := p.push("switch")
		b := p.stmts(func() bool { return p.is("case") || p.is("default") || p.is("}") })
		pop()
		if c == nil {
			s.HasElse = true
			s.Else = b
		} else {
			s.Branches = append(s.Branches, Branch{c, b})
		}
	}
	p.sws--
	return s
}

func (p *parser) forStmt() *Stmt {
	p.next()
	pop := p.push("for")
	defer pop()
	s := &Stmt{K: "for"}
	body := func() {
		p.loops++
		old := p.sws
		p.sws = 0
		s.Body = p.block("for")
		p.sws = old
		p.loops--
	}
	if p.is("{") {
		body()
		return s
	}
	// range?
	if p.peek().Kind == KIdent {
		j := 1
		if p.peekN(1).Text == "," && p.peekN(2).Kind == KIdent {
			j = 3
		}
		if p.peekN(j).Text == ":=" && p.peekN(j+1).Text == "range" {
			names := p.names()
			p.next()
			p.next()
			p.checkDup(names)
			for _, n := range names {
				if p.sc.find(n) != nil {
					p.reject("%s redefined", n)
				}
			}
			it := p.single(p.expr())
			if !it.T.Slice && it.T != TStr {
				p.reject("range over %s", it.T)
			}
			s.K = "range"
			s.Vals = []*Expr{it}
			v := p.newVar(names[0], TInt)
			s.Vars = []*Var{v}
			p.declare(v)
			if len(names) > 1 {
				v := p.newVar(names[1], it.T.Elem())
				s.Vars = append(s.Vars, v)
				p.declare(v)
			}
			body()
			return s
		}
	}
	// three part?
	semi := false
	for j := p.i; j < len(p.toks) && p.toks[j].Kind != KNewline; j++ {
		if p.toks[j].Kind == KOp && p.toks[j].Text == ";" {
			semi = true
		}
	}
	if semi {
		if !p.is(";") {
			s.Init = p.simple()
			switch s.Init.K {
			case "def", "assign", "opassign":
				if s.Init.K != "def" && len(s.Init.Vals) == 1 && len(s.Init.Vars) > 1 {
					p.unsure("init assigns several results")
				}
			default:
				p.unsure("for init")
			}
		}
		p.expect(";")
		if !p.is(";") {
			s.Cond = p.cond()
		}
		p.expect(";")
		if !p.is("{") {
			s.Post = p.simple()
			switch s.Post.K {
			case "assign", "opassign":
				if s.Post.K == "assign" && len(s.Post.Vals) == 1 && len(s.Post.Vars) > 1 {
					p.unsure("post assigns several results")
				}
			case "def":
				p.reject("post statement defines")
			default:
				p.unsure("for post")
			}
		}
	} else {
		s.Cond = p.cond()
	}
	body()
	return s
}

func (p *parser) args() []*Expr {
	p.expect("(")
	var out []*Expr
	for !p.accept(")") {
		out = append(out, p.expr())
		if !p.is(")") {
			p.expect(",")
			if p.is(")") {
				p.unsure("trailing comma")
			}
		}
	}
	return out
}

func (p *parser) expr() *Expr { return p.or() }

func (p *parser) logical(op string, k string, sub func() *Expr) *Expr {
	l := sub()
	for p.is(op) {
		p.next()
		r := sub()
		if p.single(l).T != TBool || p.single(r).T != TBool {
			p.reject("%s on %s and %s", op, l.T, r.T)
		}
		l = &Expr{K: k, T: TBool, Args: []*Expr{l, r}}
	}
	return l
}
func (p *parser) or() *Expr  { return p.logical("||", "or", p.and) }
func (p *parser) and() *Expr { return p.logical("&&", "and", p.cmp) }

func (p *parser) cmp() *Expr {
	l := p.add()
	for {
		t := p.peek()
		if t.Kind != KOp {
			return l
		}
		switch t.Text {
		case "==", "!=", "<", "<=", ">", ">=":
		default:
			return l
		}
		p.next()
		r := p.add()
		p.single(l)
		p.single(r)
		if l.T != r.T || l.T.Slice {
			if l.T.Slice && r.T.Slice {
				p.unsure("comparison of slices")
			}
			p.reject("%s %s %s", l.T, t.Text, r.T)
		}
		if l.T == TBool && t.Text != "==" && t.Text != "!=" {
			p.reject("%s on bool", t.Text)
		}
		if l.T == TStr && t.Text != "==" && t.Text != "!=" {
			p.unsure("ordering of strings")
		}
		l = &Expr{K: "cmp", Op: t.Text, T: TBool, Args: []*Expr{l, r}}
	}
}

func (p *parser) arith(opset string, sub func() *Expr) *Expr {
	l := sub()
	for {
		t := p.peek()
		if t.Kind != KOp || len(t.Text) != 1 || !strings.Contains(opset, t.Text) {
			return l
		}
		p.next()
		r := sub()
		p.single(l)
		p.single(r)
		if l.T != r.T || l.T != TInt && !(l.T == TStr && t.Text == "+") {
			p.reject("%s %s %s", l.T, t.Text, r.T)
		}
		l = &Expr{K: "bin", Op: t.Text, T: l.T, Args: []*Expr{l, r}}
	}
}
func (p *parser) add() *Expr { return p.arith("+-", p.mul) }
func (p *parser) mul() *Expr { return p.arith("*/%", p.unary) }

func (p *parser) unary() *Expr {
	if p.accept("!") {
		e := p.single(p.unary())
		if e.T != TBool {
			p.reject("! on %s", e.T)
		}
		return &Expr{K: "not", T: TBool, Args: []*Expr{e}}
	}
	return p.primary()
}

func (p *parser) builtin(k string, ret Type, lo, hi int) *Expr {
	p.next()
	args := p.args()
	if len(args) < lo || len(args) > hi {
		p.reject("%s arity", k)
	}
	for _, a := range args {
		p.single(a)
	}
	return &Expr{K: k, T: ret, Args: args}
}

func (p *parser) primary() *Expr {
	t := p.peek()
	switch t.Kind {
	case KInt:
		p.next()
		if _, err := strconv.ParseInt(t.Text, 10, 64); err != nil {
			p.unsure("integer literal out of range")
		}
		return &Expr{K: "int", T: TInt, S: t.Text}
	case KStr:
		p.next()
		if p.is("[") {
			p.syntax("subscript of a literal")
		}
		return &Expr{K: "str", T: TStr, S: t.Text}
	case KKeyword:
		switch t.Text {
		case "true", "false":
			p.next()
			return &Expr{K: "bool", T: TBool, B: t.Text == "true"}
		case "nil":
			p.next()
			return &Expr{K: "str", T: TStr}
		case "len":
			e := p.builtin("len", TInt, 1, 1)
			if a := e.Args[0].T; !a.Slice && a != TStr {
				p.reject("len of %s", a)
			}
			return e
		case "input":
			e := p.builtin("input", TStr, 0, 1)
			if len(e.Args) == 1 && e.Args[0].T != TStr {
				p.reject("input prompt %s", e.Args[0].T)
			}
			return e
		case "copy":
			e := p.builtin("copy", TInt, 2, 2)
			if !e.Args[0].T.Slice || !e.Args[1].T.Slice || e.Args[0].T != e.Args[1].T {
				p.reject("copy of %s to %s", e.Args[1].T, e.Args[0].T)
			}
			if e.Args[0].K != "var" {
				p.unsure("copy to a non-variable")
			}
			return e
		case "itoa":
			e := p.builtin("itoa", TStr, 1, 1)
			if e.Args[0].T != TInt {
				p.reject("itoa of %s", e.Args[0].T)
			}
			return e
		case "exists", "read":
			r := TStr
			if t.Text == "exists" {
				r = TBool
			}
			e := p.builtin(t.Text, r, 1, 1)
			if e.Args[0].T != TStr {
				p.reject("%s of %s", t.Text, e.Args[0].T)
			}
			return e
		}
		p.syntax("unexpected %q", t.Text)
	case KOp:
		switch t.Text {
		case "(":
			p.next()
			e := p.expr()
			p.expect(")")
			if e.T == TVoid || e.T == TMulti {
				p.reject("%s in parentheses", e.T)
			}
			return &Expr{K: "group", T: e.T, Args: []*Expr{e}}
		case "[":
			ty := p.typ()
			if !ty.Slice {
				p.syntax("slice type")
			}
			p.expect("{")
			e := &Expr{K: "list", T: ty}
			for !p.accept("}") {
				v := p.single(p.expr())
				if v.T != ty.Elem() {
					p.reject("%s in %s literal", v.T, ty)
				}
				e.Args = append(e.Args, v)
				if !p.is("}") {
					p.expect(",")
					if p.is("}") {
						p.unsure("trailing comma")
					}
				}
			}
			return e
		case "@":
			e := &Expr{K: "app", T: TMulti, Multi: []Type{TStr, TStr, TInt}}
			for {
				p.expect("@")
				a := &AppCall{}
				if k := p.peek().Kind; k != KIdent && k != KStr {
					p.syntax("program name")
				}
				a.Name = p.next().Text
				a.Args = p.args()
				for _, x := range a.Args {
					p.single(x)
					if x.T != TStr {
						p.unsure("command argument of type %s", x.T)
					}
				}
				e.Apps = append(e.Apps, a)
				if !p.accept("|") {
					return e
				}
			}
		}
	case KIdent:
		n := p.peekN(1)
		if n.Kind == KOp && n.Text == "(" {
			p.next()
			f := p.mod.Funcs[t.Text]
			if f == nil {
				p.reject("function %s undefined", t.Text)
			}
			return p.callArgs(f)
		}
		if n.Kind == KOp && n.Text == "." {
			p.next()
			p.next()
			m := p.mod.Imports[t.Text]
			if m == nil {
				p.reject("alias %s undefined", t.Text)
			}
			name := p.ident()
			if !p.is("(") {
				p.syntax("imported variable")
			}
			f := m.Funcs[name]
			if f == nil || !unicode.IsUpper(rune(name[0])) {
				p.reject("%s.%s undefined or private", t.Text, name)
			}
			return p.callArgs(f)
		}
		p.next()
		v := p.useVar(t.Text)
		e := &Expr{K: "var", T: v.T, V: v}
		if p.accept("[") {
			return p.subscript(e)
		}
		return e
	}
	p.syntax("unexpected %q", t.Text)
	return nil
}

func (p *parser) subscript(base *Expr) *Expr {
	if !base.T.Slice && base.T != TStr {
		p.reject("subscript of %s", base.T)
	}
	e := &Expr{K: "index", T: base.T.Elem(), Args: []*Expr{base}}
	num := func() *Expr {
		x := p.single(p.expr())
		if x.T != TInt {
			p.reject("index %s", x.T)
		}
		return x
	}
	if !p.is(":") {
		e.Lo = num()
	}
	if p.accept(":") {
		if base.T.Slice {
			p.unsure("slice of a slice")
			p.reject("slice of a slice") // README: subscript ranges are for strings only
		}
		e.K = "substr"
		if !p.is("]") {
			e.Hi = num()
		}
	}
	p.expect("]")
	if p.is("[") {
		p.syntax("chained subscript")
	}
	return e
}

func (p *parser) callArgs(f *Func) *Expr {
	args := p.args()
	if len(args) == 1 && args[0].Multi != nil && len(args[0].Multi) > 1 && len(f.Params) == len(args[0].Multi) {
		p.unsure("forwarding several values")
		p.syntax("forwarding several values")
	}
	if len(args) != len(f.Params) {
		p.reject("%s takes %d arguments, got %d", f.Name, len(f.Params), len(args))
	}
	for i, a := range args {
		if p.single(a).T != f.Params[i].T {
			p.reject("argument %d of %s is %s", i, f.Name, a.T)
		}
	}
	e := &Expr{K: "call", F: f, Args: args}
	switch len(f.Rets) {
	case 0:
		e.T = TVoid
		e.Multi = []Type{}
	case 1:
		e.T = f.Rets[0]
	default:
		e.T = TMulti
		e.Multi = f.Rets
	}
	return e
}
