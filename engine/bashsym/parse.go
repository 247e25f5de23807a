// Package bashsym interprets Bash scripts symbolically: script text, variable values, files and
// standard input are symbolic strings (package sym).
package bashsym

import (
	"fmt"

	"verif/sym"
)

// SyntaxError is raised (as a panic) by the parser.
type SyntaxError struct{ Msg string }

func (e SyntaxError) Error() string { return "syntax error: " + e.Msg }

type (
	// Node is a command.
	Node interface{}

	Assign struct {
		Name   string
		Sub    *Word // subscript
		Append bool
		Val    *Word
		Array  []*ArrElem // a=(…)
		IsArr  bool
	}
	ArrElem struct {
		Sub *Word
		Val *Word
	}
	Redir struct {
		Fd      int // -1 default
		Op      string
		Target  *Word
		Heredoc *Word
	}
	Simple struct {
		Assigns []*Assign
		Words   []*Word
		Redirs  []*Redir
		// declaration builtins take assignments as arguments
		Decl map[int]*Assign
	}
	Pipeline struct {
		Cmds []Node
		Bang bool
		Err  map[int]bool // commands whose errors go into the pipe (|&)
	}
	AndOr struct {
		L, R Node
		And  bool
	}
	List struct {
		Items []Node
	}
	If struct {
		Conds, Bodies []Node
		Else          Node
	}
	While struct {
		Cond, Body Node
		Until      bool
	}
	ForIn struct {
		Var   string
		HasIn bool
		Words []*Word
		Body  Node
	}
	ForC struct {
		Init, Cond, Step *Word
		Body             Node
	}
	CaseItem struct {
		Pats []*Word
		Body Node
		Term string
	}
	Case struct {
		Subj  *Word
		Items []*CaseItem
	}
	Group    struct{ Body Node }
	Subshell struct{ Body Node }
	FuncDef  struct {
		Name string
		Body Node
	}
	ArithCmd   struct{ Expr *Word }
	CondCmd    struct{ E *CondExpr }
	Redirected struct {
		Cmd    Node
		Redirs []*Redir
	}
	CondExpr struct {
		Op   string // "&&" "||" "!" "un" "bin" "word"
		Name string
		L, R *CondExpr
		A, B *Word
	}
)

// Word is a shell word.
type Word struct {
	Parts []Part
	Brace bool // has an unquoted '{'
}

type PartKind int

const (
	PLit PartKind = iota
	PParam
	PCmd
	PArith
)

type Part struct {
	Kind   PartKind
	Quoted bool
	S      sym.Str // PLit
	// PParam
	Name   string
	Sub    *Word // subscript; SubAll '@' or '*'
	SubAll byte
	Len    bool // ${#x}
	Ind    bool // ${!x}
	Op     string
	Arg    *Word
	Arg2   *Word
	Cmd    Node
	Expr   *Word
}

func litWord(s string) *Word { return &Word{Parts: []Part{{Kind: PLit, S: sym.Lit(s)}}} }

// Parser parses script text.
type Parser struct {
	P   *sym.Path
	F   *sym.Factory
	S   sym.Str
	Pos int
	// pending here-documents
	heredocs []*hd
}

type hd struct {
	r     *Redir
	delim string
	quote bool
	strip bool
}

func (ps *Parser) fail(f string, a ...any) {
	panic(SyntaxError{fmt.Sprintf(f, a...)})
}

func (ps *Parser) eof() bool { return ps.Pos >= len(ps.S) }

// is: the character at offset i from the position equals b (forks on symbolic bytes).
func (ps *Parser) is(i int, b byte) bool {
	k := ps.Pos + i
	if k >= len(ps.S) {
		return false
	}
	c := ps.S[k]
	if c.IsLit() {
		return c.B == b
	}
	if c.IsItoa() {
		if b == '-' || b >= '0' && b <= '9' {
			ps.P.Unsupported("digit of a decimal rendering inspected")
		}
		return false
	}
	if ps.P.Branch(ps.F.Eq(c.T, ps.F.BV(int64(b), 8))) {
		ps.S[k] = sym.Ch{B: b}
		return true
	}
	return false
}

func (ps *Parser) isStr(s string) bool {
	if ps.Pos+len(s) > len(ps.S) {
		return false
	}
	for i := 0; i < len(s); i++ {
		if !ps.is(i, s[i]) {
			return false
		}
	}
	return true
}

// lit returns the literal byte at offset i, or 0 when it is not literal / out of range.
func (ps *Parser) lit(i int) byte {
	k := ps.Pos + i
	if k >= len(ps.S) || k < 0 {
		return 0
	}
	c := ps.S[k]
	if c.IsLit() {
		return c.B
	}
	if c.IsByte() {
		ps.plain(k)
		if c := ps.S[k]; c.IsLit() {
			return c.B
		}
	}
	return 0
}

func plainByte(b byte) bool {
	return b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b >= '0' && b <= '9' || b == '_' || b == '.' || b == '/' || b == ',' || b == ':' || b == '+' || b == '%' || b == '@' || b == '-' || b >= 0x80
}

// plain: the symbolic byte at k is an ordinary word character; otherwise it is concretised.
func (ps *Parser) plain(k int) bool {
	c := ps.S[k]
	if !c.IsByte() {
		return true
	}
	f := ps.F
	cond := f.False
	rng := func(a, b byte) {
		cond = f.Or(cond, f.And(f.Ule(f.BV(int64(a), 8), c.T), f.Ule(c.T, f.BV(int64(b), 8))))
	}
	rng('a', 'z')
	rng('A', 'Z')
	rng('0', '9')
	rng(0x80, 0xff)
	for _, b := range "_./,:+%@-" {
		cond = f.Or(cond, f.Eq(c.T, f.BV(int64(b), 8)))
	}
	if ps.P.Branch(cond) {
		return true
	}
	v := ps.P.Concretize(c.T, 80)
	ps.S[k] = sym.Ch{B: byte(v)}
	return false
}

func isBlank(b byte) bool { return b == ' ' || b == '\t' }
func isMeta(b byte) bool {
	switch b {
	case ' ', '\t', '\n', ';', '&', '|', '<', '>', '(', ')':
		return true
	}
	return false
}
func isNameStart(b byte) bool {
	return b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b == '_' || private(b)
}

func isNameCh(b byte) bool { return isNameStart(b) || b >= '0' && b <= '9' }
func isDigit(b byte) bool  { return b >= '0' && b <= '9' }

// blanks skips blanks, comments and line continuations (not newlines).
func (ps *Parser) blanks() {
	for !ps.eof() {
		b := ps.lit(0)
		switch {
		case isBlank(b):
			ps.Pos++
		case b == '\\' && ps.lit(1) == '\n':
			ps.Pos += 2
		case b == '#':
			for !ps.eof() && !ps.is(0, '\n') {
				ps.Pos++
			}
		default:
			return
		}
	}
}

// newlines skips newlines and blanks.
func (ps *Parser) newlines() {
	for {
		ps.blanks()
		if ps.lit(0) != '\n' {
			return
		}
		ps.Pos++
		ps.readHeredocs()
	}
}

func (ps *Parser) readHeredocs() {
	for _, h := range ps.heredocs {
		var body sym.Str
		for {
			if ps.eof() {
				break
			}
			st := ps.Pos
			if h.strip {
				for ps.lit(0) == '\t' {
					ps.Pos++
				}
				st = ps.Pos
			}
			for !ps.eof() && !ps.is(0, '\n') {
				ps.Pos++
			}
			line := ps.S[st:ps.Pos]
			if !ps.eof() {
				ps.Pos++
			}
			if c, ok := line.Concrete(); ok && c == h.delim {
				break
			}
			body = append(append(body, line...), sym.Ch{B: '\n'})
		}
		if h.quote {
			h.r.Heredoc = &Word{Parts: []Part{{Kind: PLit, Quoted: true, S: body}}}
		} else {
			sub := &Parser{P: ps.P, F: ps.F, S: append(sym.Str{}, body...)}
			w := &Word{}
			sub.dquoted(w, func() bool { return sub.eof() }, true)
			h.r.Heredoc = w
		}
	}
	ps.heredocs = nil
}

// peekWord returns the literal unquoted word at the position ("" when it is not one).
func (ps *Parser) peekWord() string {
	i := 0
	var b []byte
	for {
		k := ps.Pos + i
		if k >= len(ps.S) {
			break
		}
		c := ps.S[k]
		if !c.IsLit() {
			return ""
		}
		if isMeta(c.B) {
			break
		}
		switch c.B {
		case '\'', '"', '\\', '$', '`':
			return ""
		}
		b = append(b, c.B)
		i++
		if i > 40 {
			return ""
		}
	}
	return string(b)
}

func (ps *Parser) acceptWord(w string) bool {
	if ps.peekWord() == w {
		ps.Pos += len(w)
		return true
	}
	return false
}

func (ps *Parser) expectWord(w string) {
	ps.newlines()
	if !ps.acceptWord(w) {
		ps.fail("expected %q near %q", w, ps.near())
	}
}

func (ps *Parser) near() string {
	e := min(ps.Pos+30, len(ps.S))
	if ps.Pos >= e {
		return "EOF"
	}
	return ps.S[ps.Pos:e].String()
}

// NextCommand parses the next complete top-level command (nil at the end of input).
func (ps *Parser) NextCommand() Node {
	ps.newlines()
	if ps.eof() {
		return nil
	}
	n := ps.list(false)
	ps.blanks()
	if ps.eof() {
		ps.readHeredocs()
		return n
	}
	if ps.lit(0) == '\n' {
		ps.Pos++
		ps.readHeredocs()
		return n
	}
	ps.fail("unexpected token near %q", ps.near())
	return nil
}

// ParseAll parses the whole text.
func (ps *Parser) ParseAll() []Node {
	var r []Node
	for {
		n := ps.NextCommand()
		if n == nil {
			return r
		}
		r = append(r, n)
	}
}

var closers = map[string]bool{"then": true, "else": true, "elif": true, "fi": true, "do": true, "done": true, "esac": true, "}": true, "in": false}

// list parses commands; multi: over several lines up to a closing word or ')'.
func (ps *Parser) list(multi bool) Node {
	l := &List{}
	for {
		if multi {
			ps.newlines()
		} else {
			ps.blanks()
		}
		if ps.eof() {
			break
		}
		b := ps.lit(0)
		if b == ')' || b == '\n' {
			break
		}
		if b == ';' && ps.lit(1) == ';' {
			break
		}
		if b == ';' && ps.lit(1) == '&' {
			break
		}
		if closers[ps.peekWord()] {
			break
		}
		l.Items = append(l.Items, ps.andOr())
		ps.blanks()
		if ps.eof() {
			break
		}
		b = ps.lit(0)
		if b == ';' && ps.lit(1) != ';' && ps.lit(1) != '&' {
			ps.Pos++
			continue
		}
		if b == '&' && ps.lit(1) != '&' {
			ps.P.Unsupported("background job")
		}
		if b == '\n' {
			if !multi {
				break
			}
			continue
		}
		break
	}
	if len(l.Items) == 0 {
		if ps.eof() {
			ps.fail("unexpected end of file")
		}
		ps.fail("unexpected token near %q", ps.near())
	}
	if len(l.Items) == 1 {
		return l.Items[0]
	}
	return l
}

func (ps *Parser) andOr() Node {
	n := ps.pipeline()
	for {
		ps.blanks()
		if ps.lit(0) == '&' && ps.lit(1) == '&' || ps.lit(0) == '|' && ps.lit(1) == '|' {
			and := ps.lit(0) == '&'
			ps.Pos += 2
			ps.newlines()
			n = &AndOr{n, ps.pipeline(), and}
			continue
		}
		return n
	}
}

func (ps *Parser) pipeline() Node {
	ps.blanks()
	p := &Pipeline{}
	for ps.peekWord() == "!" {
		ps.Pos++
		p.Bang = !p.Bang
		ps.blanks()
	}
	p.Cmds = append(p.Cmds, ps.command())
	for {
		ps.blanks()
		if ps.lit(0) == '|' && ps.lit(1) != '|' {
			both := ps.lit(1) == '&'
			ps.Pos++
			if both {
				ps.Pos++
				if s, ok := p.Cmds[len(p.Cmds)-1].(*Simple); !ok || len(s.Redirs) > 0 {
					ps.P.Unsupported("|&")
				}
				if p.Err == nil {
					p.Err = map[int]bool{}
				}
				p.Err[len(p.Cmds)-1] = true
			}
			ps.newlines()
			p.Cmds = append(p.Cmds, ps.command())
			continue
		}
		break
	}
	if len(p.Cmds) == 1 && !p.Bang {
		return p.Cmds[0]
	}
	return p
}

func (ps *Parser) command() Node {
	ps.blanks()
	if ps.eof() {
		ps.fail("unexpected end of file")
	}
	n := ps.compound()
	if n == nil {
		return ps.simple()
	}
	if _, ok := n.(*FuncDef); ok {
		return n
	}
	var rs []*Redir
	for {
		ps.blanks()
		r := ps.redir()
		if r == nil {
			break
		}
		rs = append(rs, r)
	}
	if len(rs) > 0 {
		return &Redirected{n, rs}
	}
	return n
}

func (ps *Parser) compound() Node {
	b := ps.lit(0)
	if b == '(' {
		if ps.lit(1) == '(' {
			save := ps.Pos
			ps.Pos += 2
			if w, ok := ps.arithUntil("))"); ok {
				return &ArithCmd{w}
			}
			ps.Pos = save
		}
		ps.Pos++
		l := ps.list(true)
		ps.newlines()
		if ps.lit(0) != ')' {
			ps.fail("expected ) near %q", ps.near())
		}
		ps.Pos++
		return &Subshell{l}
	}
	switch w := ps.peekWord(); w {
	case "{":
		ps.Pos++
		l := ps.list(true)
		ps.expectWord("}")
		return &Group{l}
	case "if":
		ps.Pos += 2
		n := &If{}
		for {
			n.Conds = append(n.Conds, ps.list(true))
			ps.expectWord("then")
			n.Bodies = append(n.Bodies, ps.list(true))
			ps.newlines()
			if ps.acceptWord("elif") {
				continue
			}
			if ps.acceptWord("else") {
				n.Else = ps.list(true)
			}
			ps.expectWord("fi")
			return n
		}
	case "while", "until":
		ps.Pos += 5
		c := ps.list(true)
		ps.expectWord("do")
		bd := ps.list(true)
		ps.expectWord("done")
		return &While{c, bd, w == "until"}
	case "for":
		ps.Pos += 3
		ps.blanks()
		if ps.lit(0) == '(' && ps.lit(1) == '(' {
			ps.Pos += 2
			n := &ForC{}
			var ok bool
			if n.Init, ok = ps.arithUntil(";"); !ok {
				ps.fail("for ((")
			}
			if n.Cond, ok = ps.arithUntil(";"); !ok {
				ps.fail("for ((")
			}
			if n.Step, ok = ps.arithUntil("))"); !ok {
				ps.fail("for ((")
			}
			ps.blanks()
			if ps.lit(0) == ';' {
				ps.Pos++
			}
			ps.newlines()
			if ps.acceptWord("{") {
				n.Body = ps.list(true)
				ps.expectWord("}")
				return n
			}
			ps.expectWord("do")
			n.Body = ps.list(true)
			ps.expectWord("done")
			return n
		}
		n := &ForIn{Var: ps.name()}
		ps.newlines()
		if ps.acceptWord("in") {
			n.HasIn = true
			for {
				ps.blanks()
				if ps.eof() || ps.lit(0) == '\n' || ps.lit(0) == ';' {
					break
				}
				w := ps.word()
				if w == nil {
					ps.fail("for: near %q", ps.near())
				}
				n.Words = append(n.Words, w)
			}
		}
		ps.blanks()
		if ps.lit(0) == ';' {
			ps.Pos++
		}
		ps.newlines()
		ps.expectWord("do")
		n.Body = ps.list(true)
		ps.expectWord("done")
		return n
	case "case":
		ps.Pos += 4
		ps.blanks()
		n := &Case{Subj: ps.word()}
		if n.Subj == nil {
			ps.fail("case near %q", ps.near())
		}
		ps.expectWord("in")
		for {
			ps.newlines()
			if ps.acceptWord("esac") {
				return n
			}
			it := &CaseItem{Term: ";;"}
			if ps.lit(0) == '(' {
				ps.Pos++
				ps.blanks()
			}
			for {
				ps.blanks()
				w := ps.word()
				if w == nil {
					ps.fail("case pattern near %q", ps.near())
				}
				it.Pats = append(it.Pats, w)
				ps.blanks()
				if ps.lit(0) == '|' {
					ps.Pos++
					continue
				}
				break
			}
			if ps.lit(0) != ')' {
				ps.fail("case pattern near %q", ps.near())
			}
			ps.Pos++
			ps.newlines()
			if !(ps.lit(0) == ';' && (ps.lit(1) == ';' || ps.lit(1) == '&')) && ps.peekWord() != "esac" {
				it.Body = ps.list(true)
			}
			n.Items = append(n.Items, it)
			ps.newlines()
			switch {
			case ps.lit(0) == ';' && ps.lit(1) == ';' && ps.lit(2) == '&':
				it.Term = ";;&"
				ps.Pos += 3
			case ps.lit(0) == ';' && ps.lit(1) == ';':
				ps.Pos += 2
			case ps.lit(0) == ';' && ps.lit(1) == '&':
				it.Term = ";&"
				ps.Pos += 2
			default:
				ps.expectWord("esac")
				return n
			}
		}
	case "[[":
		ps.Pos += 2
		e := ps.condOr()
		ps.newlines()
		if !ps.acceptWord("]]") {
			ps.fail("expected ]] near %q", ps.near())
		}
		return &CondCmd{e}
	case "function":
		ps.Pos += 8
		ps.blanks()
		nm := ps.name()
		ps.blanks()
		if ps.lit(0) == '(' && ps.lit(1) == ')' {
			ps.Pos += 2
		}
		ps.newlines()
		return &FuncDef{nm, ps.funcBody(nm)}
	case "then", "else", "elif", "fi", "do", "done", "esac", "}", "in":
		if w != "in" {
			ps.fail("unexpected %q", w)
		}
	case "select", "coproc", "time":
		ps.P.Unsupported("%s", w)
	}
	// name() {
	save := ps.Pos
	if w := ps.peekWord(); w != "" && indexByte(w, '=') < 0 {
		k := ps.Pos + len(w)
		j := k
		for j < len(ps.S) && ps.S[j].IsLit() && isBlank(ps.S[j].B) {
			j++
		}
		if j < len(ps.S) && ps.S[j].IsLit() && ps.S[j].B == '(' {
			j++
			for j < len(ps.S) && ps.S[j].IsLit() && isBlank(ps.S[j].B) {
				j++
			}
			if j < len(ps.S) && ps.S[j].IsLit() && ps.S[j].B == ')' {
				ps.Pos = j + 1
				ps.newlines()
				return &FuncDef{w, ps.funcBody(w)}
			}
		}
	}
	ps.Pos = save
	return nil
}

func (ps *Parser) funcBody(nm string) Node {
	for i := 0; i < len(nm); i++ {
		if nm[i] == '=' {
			ps.fail("function name %q", nm)
		}
	}
	n := ps.compound()
	switch n.(type) {
	case nil, *FuncDef:
		ps.fail("function body near %q", ps.near())
	}
	return n
}

func (ps *Parser) name() string {
	ps.blanks()
	st := ps.Pos
	for !ps.eof() && isNameCh(ps.lit(0)) {
		ps.Pos++
	}
	s, _ := ps.S[st:ps.Pos].Concrete()
	if s == "" || isDigit(s[0]) {
		ps.fail("name expected near %q", ps.near())
	}
	return s
}

// redir parses one redirection, or returns nil.
func (ps *Parser) redir() *Redir {
	save := ps.Pos
	fd := -1
	i := 0
	for isDigit(ps.lit(i)) {
		i++
	}
	if i > 0 {
		if b := ps.lit(i); b != '<' && b != '>' {
			return nil
		}
		fd = 0
		for j := 0; j < i; j++ {
			fd = fd*10 + int(ps.lit(j)-'0')
		}
		ps.Pos += i
	}
	both := false
	if i == 0 && ps.lit(0) == '&' && ps.lit(1) == '>' {
		both = true
		ps.Pos++
	}
	b := ps.lit(0)
	if b != '<' && b != '>' {
		ps.Pos = save
		return nil
	}
	ops := []string{"<<<", "<<-", "<<", "<&", "<>", ">>", ">&", ">|", "<", ">"}
	op := ""
	for _, o := range ops {
		ok := true
		for j := 0; j < len(o); j++ {
			if ps.lit(j) != o[j] {
				ok = false
				break
			}
		}
		if ok {
			op = o
			break
		}
	}
	if (op == "<" || op == ">") && ps.lit(1) == '(' {
		ps.P.Unsupported("process substitution")
	}
	ps.Pos += len(op)
	ps.blanks()
	w := ps.word()
	if w == nil {
		ps.fail("redirection target near %q", ps.near())
	}
	if both {
		if op == ">>" {
			op = "&>>"
		} else {
			op = "&>"
		}
	}
	r := &Redir{Fd: fd, Op: op, Target: w}
	if op == "<<" || op == "<<-" {
		h := &hd{r: r, strip: op == "<<-"}
		for _, p := range w.Parts {
			if p.Kind != PLit {
				ps.P.Unsupported("heredoc delimiter")
			}
			if p.Quoted {
				h.quote = true
			}
			c, ok := p.S.Concrete()
			if !ok {
				ps.P.Unsupported("heredoc delimiter")
			}
			h.delim += c
		}
		ps.heredocs = append(ps.heredocs, h)
	}
	return r
}

var declCmds = map[string]bool{"local": true, "declare": true, "typeset": true, "export": true, "readonly": true}

func (ps *Parser) simple() Node {
	s := &Simple{}
	decl := false
	for {
		ps.blanks()
		if ps.eof() {
			break
		}
		if r := ps.redir(); r != nil {
			s.Redirs = append(s.Redirs, r)
			continue
		}
		b := ps.lit(0)
		if isMeta(b) {
			break
		}
		if len(s.Words) == 0 || decl {
			if a := ps.assignment(); a != nil {
				if len(s.Words) == 0 {
					s.Assigns = append(s.Assigns, a)
				} else {
					if s.Decl == nil {
						s.Decl = map[int]*Assign{}
					}
					s.Decl[len(s.Words)] = a
					s.Words = append(s.Words, nil)
				}
				continue
			}
		}
		w := ps.word()
		if w == nil {
			break
		}
		if len(s.Words) == 0 {
			if len(w.Parts) == 1 && w.Parts[0].Kind == PLit && !w.Parts[0].Quoted {
				if c, ok := w.Parts[0].S.Concrete(); ok && declCmds[c] {
					decl = true
				}
			}
		}
		s.Words = append(s.Words, w)
	}
	if len(s.Words) == 0 && len(s.Assigns) == 0 && len(s.Redirs) == 0 {
		if ps.eof() {
			ps.fail("unexpected end of file")
		}
		ps.fail("unexpected token near %q", ps.near())
	}
	if ps.lit(0) == '(' {
		ps.fail("unexpected token near %q", ps.near())
	}
	return s
}

// assignment parses NAME[sub]?+?=value, or returns nil.
func (ps *Parser) assignment() *Assign {
	i := 0
	if !isNameStart(ps.lit(0)) {
		return nil
	}
	for isNameCh(ps.lit(i)) {
		i++
	}
	nm, ok := ps.S[ps.Pos : ps.Pos+i].Concrete()
	if !ok {
		return nil
	}
	a := &Assign{Name: nm}
	save := ps.Pos
	j := i
	if ps.lit(j) == '[' {
		// find the matching ]
		ps.Pos += j + 1
		w, ok := ps.arithUntil("]")
		if !ok {
			ps.Pos = save
			return nil
		}
		a.Sub = w
		j = ps.Pos - save
		ps.Pos = save
	}
	if ps.lit(j) == '+' && ps.lit(j+1) == '=' {
		a.Append = true
		j++
	}
	if ps.lit(j) != '=' {
		ps.Pos = save
		return nil
	}
	ps.Pos = save + j + 1
	if ps.lit(0) == '(' && a.Sub == nil {
		ps.Pos++
		a.IsArr = true
		for {
			ps.newlines()
			if ps.eof() {
				ps.fail("unexpected end of file in array")
			}
			if ps.lit(0) == ')' {
				ps.Pos++
				return a
			}
			e := &ArrElem{}
			if ps.lit(0) == '[' {
				sv := ps.Pos
				ps.Pos++
				if w, ok := ps.arithUntil("]"); ok && ps.lit(0) == '=' {
					ps.Pos++
					e.Sub = w
					e.Val = ps.word()
					if e.Val == nil {
						e.Val = &Word{}
					}
					a.Array = append(a.Array, e)
					continue
				}
				ps.Pos = sv
			}
			e.Val = ps.word()
			if e.Val == nil {
				ps.fail("array near %q", ps.near())
			}
			a.Array = append(a.Array, e)
		}
	}
	a.Val = ps.word()
	if a.Val == nil {
		a.Val = &Word{}
	}
	return a
}

// word parses one word (nil when none starts here).
func (ps *Parser) word() *Word {
	w := &Word{}
	any := false
	var cur sym.Str
	flush := func() {
		if len(cur) > 0 {
			w.Parts = append(w.Parts, Part{Kind: PLit, S: cur})
			cur = nil
		}
	}
	for !ps.eof() {
		c := ps.S[ps.Pos]
		if c.IsItoa() {
			cur = append(cur, c)
			ps.Pos++
			any = true
			continue
		}
		if c.IsByte() {
			if ps.plain(ps.Pos) {
				cur = append(cur, c)
				ps.Pos++
				any = true
				continue
			}
			c = ps.S[ps.Pos]
		}
		b := c.B
		if isMeta(b) {
			break
		}
		any = true
		switch b {
		case '\\':
			if ps.Pos+1 >= len(ps.S) {
				cur = append(cur, c)
				ps.Pos++
				continue
			}
			if ps.is(1, '\n') {
				ps.Pos += 2
				continue
			}
			flush()
			w.Parts = append(w.Parts, Part{Kind: PLit, Quoted: true, S: sym.Str{ps.S[ps.Pos+1]}})
			ps.Pos += 2
		case '\'':
			flush()
			ps.Pos++
			st := ps.Pos
			for {
				if ps.eof() {
					ps.fail("unterminated '")
				}
				if ps.is(0, '\'') {
					break
				}
				ps.Pos++
			}
			w.Parts = append(w.Parts, Part{Kind: PLit, Quoted: true, S: append(sym.Str{}, ps.S[st:ps.Pos]...)})
			ps.Pos++
		case '"':
			flush()
			ps.Pos++
			w.Parts = append(w.Parts, Part{Kind: PLit, Quoted: true})
			ps.dquoted(w, func() bool { return ps.is(0, '"') }, false)
			ps.Pos++
		case '$':
			if ps.lit(1) == '\'' {
				flush()
				ps.Pos += 2
				w.Parts = append(w.Parts, Part{Kind: PLit, Quoted: true, S: ps.ansiC()})
				continue
			}
			if ps.lit(1) == '"' {
				ps.Pos++
				continue
			}
			flush()
			if !ps.dollar(w, false) {
				cur = append(cur, c)
				ps.Pos++
			}
		case '`':
			flush()
			ps.backquote(w, false)
		case '{':
			w.Brace = true
			cur = append(cur, c)
			ps.Pos++
		default:
			cur = append(cur, c)
			ps.Pos++
		}
	}
	flush()
	if !any {
		return nil
	}
	return w
}

func (ps *Parser) ansiC() sym.Str {
	var r sym.Str
	for {
		if ps.eof() {
			ps.fail("unterminated $'")
		}
		if ps.is(0, '\'') {
			ps.Pos++
			return r
		}
		if ps.is(0, '\\') {
			n := ps.lit(1)
			if n == 0 {
				ps.P.Unsupported("$'' escape")
			}
			ps.Pos += 2
			m := map[byte]byte{'n': '\n', 't': '\t', 'r': '\r', 'a': 7, 'b': 8, 'f': 12, 'v': 11, '\\': '\\', '\'': '\'', '"': '"', '?': '?', 'e': 27, 'E': 27}
			if v, ok := m[n]; ok {
				r = append(r, sym.Ch{B: v})
				continue
			}
			switch {
			case n == 'x':
				v, k := 0, 0
				for k < 2 && hexVal(ps.lit(0)) >= 0 && ps.lit(0) != 0 {
					v = v*16 + hexVal(ps.lit(0))
					ps.Pos++
					k++
				}
				r = append(r, sym.Ch{B: byte(v)})
			case n >= '0' && n <= '7':
				v, k := int(n-'0'), 1
				for k < 3 && ps.lit(0) >= '0' && ps.lit(0) <= '7' {
					v = v*8 + int(ps.lit(0)-'0')
					ps.Pos++
					k++
				}
				r = append(r, sym.Ch{B: byte(v)})
			case n == 'u' || n == 'U' || n == 'c':
				ps.P.Unsupported("$'\\%c'", n)
			default:
				r = append(r, sym.Ch{B: '\\'}, sym.Ch{B: n})
			}
			continue
		}
		r = append(r, ps.S[ps.Pos])
		ps.Pos++
	}
}

func hexVal(b byte) int {
	switch {
	case b >= '0' && b <= '9':
		return int(b - '0')
	case b >= 'a' && b <= 'f':
		return int(b-'a') + 10
	case b >= 'A' && b <= 'F':
		return int(b-'A') + 10
	}
	return -1
}

// dquoted parses double-quoted content up to (not including) the terminator.
func (ps *Parser) dquoted(w *Word, end func() bool, heredoc bool) {
	var cur sym.Str
	flush := func() {
		if len(cur) > 0 {
			w.Parts = append(w.Parts, Part{Kind: PLit, Quoted: true, S: cur})
			cur = nil
		}
	}
	for {
		if ps.eof() {
			if heredoc {
				break
			}
			ps.fail("unterminated \"")
		}
		if end() {
			break
		}
		if ps.S[ps.Pos].IsItoa() {
			cur = append(cur, ps.S[ps.Pos])
			ps.Pos++
			continue
		}
		switch {
		case ps.is(0, '\\'):
			if ps.Pos+1 < len(ps.S) && ps.is(1, '\n') {
				ps.Pos += 2
				continue
			}
			if ps.Pos+1 < len(ps.S) && (ps.is(1, '$') || ps.is(1, '`') || ps.is(1, '\\') || !heredoc && ps.is(1, '"')) {
				cur = append(cur, ps.S[ps.Pos+1])
				ps.Pos += 2
				continue
			}
			cur = append(cur, sym.Ch{B: '\\'})
			ps.Pos++
		case ps.is(0, '$'):
			flush()
			if !ps.dollar(w, true) {
				cur = append(cur, sym.Ch{B: '$'})
				ps.Pos++
			}
		case ps.is(0, '`'):
			flush()
			ps.backquote(w, true)
		default:
			cur = append(cur, ps.S[ps.Pos])
			ps.Pos++
		}
	}
	flush()
}

func (ps *Parser) backquote(w *Word, quoted bool) {
	ps.Pos++
	var body sym.Str
	for {
		if ps.eof() {
			ps.fail("unterminated `")
		}
		if ps.is(0, '`') {
			ps.Pos++
			break
		}
		if ps.is(0, '\\') && ps.Pos+1 < len(ps.S) && (ps.is(1, '$') || ps.is(1, '`') || ps.is(1, '\\') || quoted && ps.is(1, '"')) {
			ps.Pos++
		}
		body = append(body, ps.S[ps.Pos])
		ps.Pos++
	}
	sub := &Parser{P: ps.P, F: ps.F, S: body}
	l := &List{}
	for _, n := range sub.ParseAll() {
		l.Items = append(l.Items, n)
	}
	w.Parts = append(w.Parts, Part{Kind: PCmd, Quoted: quoted, Cmd: l})
}

// dollar parses an expansion starting at '$'; false when the '$' is literal.
func (ps *Parser) dollar(w *Word, quoted bool) bool {
	if ps.Pos+1 >= len(ps.S) {
		return false
	}
	nx := ps.S[ps.Pos+1]
	if nx.IsItoa() {
		ps.P.Unsupported("$ before a decimal rendering")
	}
	if nx.IsByte() {
		// decide whether the byte makes this an expansion
		f := ps.F
		cond := f.False
		rng := func(a, b byte) {
			cond = f.Or(cond, f.And(f.Ule(f.BV(int64(a), 8), nx.T), f.Ule(nx.T, f.BV(int64(b), 8))))
		}
		rng('a', 'z')
		rng('A', 'Z')
		rng('0', '9')
		for _, b := range "_{(@*#?-$!" {
			cond = f.Or(cond, f.Eq(nx.T, f.BV(int64(b), 8)))
		}
		if !quoted {
			cond = f.Or(cond, f.Or(f.Eq(nx.T, f.BV('\'', 8)), f.Eq(nx.T, f.BV('"', 8))))
		}
		if !ps.P.Branch(cond) {
			return false
		}
		v := ps.P.Concretize(nx.T, 80)
		ps.S[ps.Pos+1] = sym.Ch{B: byte(v)}
	}
	b := ps.S[ps.Pos+1].B
	switch {
	case b == '(':
		if ps.lit(2) == '(' {
			save := ps.Pos
			ps.Pos += 3
			if e, ok := ps.arithUntil("))"); ok {
				w.Parts = append(w.Parts, Part{Kind: PArith, Quoted: quoted, Expr: e})
				return true
			}
			ps.Pos = save
		}
		ps.Pos += 2
		hs := ps.heredocs
		ps.heredocs = nil
		var l Node
		ps.newlines()
		if ps.lit(0) == ')' {
			l = &List{}
		} else {
			l = ps.list(true)
		}
		ps.newlines()
		if ps.lit(0) != ')' {
			ps.fail("expected ) near %q", ps.near())
		}
		ps.Pos++
		ps.heredocs = hs
		w.Parts = append(w.Parts, Part{Kind: PCmd, Quoted: quoted, Cmd: l})
		return true
	case b == '{':
		ps.Pos += 2
		w.Parts = append(w.Parts, ps.braceParam(quoted))
		return true
	case b == '[':
		save := ps.Pos
		ps.Pos += 2
		if e, ok := ps.arithUntil("]"); ok {
			w.Parts = append(w.Parts, Part{Kind: PArith, Quoted: quoted, Expr: e})
			return true
		}
		ps.Pos = save
		return false
	case isNameStart(b):
		ps.Pos++
		st := ps.Pos
		for !ps.eof() {
			c := ps.S[ps.Pos]
			if c.IsByte() {
				f := ps.F
				cond := f.Eq(c.T, f.BV('_', 8))
				for _, r := range []string{"az", "AZ", "09"} {
					cond = f.Or(cond, f.And(f.Ule(f.BV(int64(r[0]), 8), c.T), f.Ule(c.T, f.BV(int64(r[1]), 8))))
				}
				if !ps.P.Branch(cond) {
					break
				}
				ps.S[ps.Pos] = sym.Ch{B: byte(ps.P.Concretize(c.T, 70))}
				c = ps.S[ps.Pos]
			}
			if c.IsItoa() {
				ps.P.Unsupported("decimal rendering after a variable name")
			}
			if !isNameCh(c.B) {
				break
			}
			ps.Pos++
		}
		nm, _ := ps.S[st:ps.Pos].Concrete()
		w.Parts = append(w.Parts, Part{Kind: PParam, Quoted: quoted, Name: nm})
		return true
	case isDigit(b), b == '@', b == '*', b == '#', b == '?', b == '-', b == '$', b == '!':
		ps.Pos += 2
		w.Parts = append(w.Parts, Part{Kind: PParam, Quoted: quoted, Name: string(b)})
		return true
	}
	return false
}

// braceParam parses after "${".
func (ps *Parser) braceParam(quoted bool) Part {
	p := Part{Kind: PParam, Quoted: quoted}
	if ps.lit(0) == '#' && ps.lit(1) != '}' {
		p.Len = true
		ps.Pos++
	} else if ps.lit(0) == '!' && ps.lit(1) != '}' {
		p.Ind = true
		ps.Pos++
	}
	b := ps.lit(0)
	switch {
	case isNameStart(b):
		st := ps.Pos
		for !ps.eof() && isNameCh(ps.lit(0)) {
			if !ps.S[ps.Pos].IsLit() {
				ps.P.Unsupported("symbolic variable name")
			}
			ps.Pos++
		}
		p.Name, _ = ps.S[st:ps.Pos].Concrete()
	case isDigit(b):
		st := ps.Pos
		for isDigit(ps.lit(0)) {
			ps.Pos++
		}
		p.Name, _ = ps.S[st:ps.Pos].Concrete()
	case b == '@' || b == '*' || b == '#' || b == '?' || b == '-' || b == '$' || b == '!':
		p.Name = string(b)
		ps.Pos++
	default:
		ps.fail("bad substitution near %q", ps.near())
	}
	if ps.lit(0) == '[' {
		ps.Pos++
		if (ps.lit(0) == '@' || ps.lit(0) == '*') && ps.lit(1) == ']' {
			p.SubAll = ps.lit(0)
			ps.Pos += 2
		} else {
			e, ok := ps.arithUntil("]")
			if !ok {
				ps.fail("bad substitution near %q", ps.near())
			}
			p.Sub = e
		}
	}
	if ps.eof() {
		ps.fail("unterminated ${")
	}
	if ps.is(0, '}') {
		ps.Pos++
		return p
	}
	if p.Len {
		ps.fail("bad substitution near %q", ps.near())
	}
	b = ps.lit(0)
	n := ps.lit(1)
	switch {
	case b == ':' && (n == '-' || n == '=' || n == '?' || n == '+'):
		p.Op = ":" + string(n)
		ps.Pos += 2
		p.Arg = ps.paramWord(quoted, "}")
	case b == '-' || b == '=' || b == '?' || b == '+':
		p.Op = string(b)
		ps.Pos++
		p.Arg = ps.paramWord(quoted, "}")
	case b == ':':
		p.Op = ":"
		ps.Pos++
		e, t := ps.arithUntilAny(":", "}")
		p.Arg = e
		if t == ":" {
			e2, _ := ps.arithUntilAny("}", "}")
			p.Arg2 = e2
		}
		return p
	case b == '#' || b == '%':
		p.Op = string(b)
		ps.Pos++
		if ps.lit(0) == b {
			p.Op += string(b)
			ps.Pos++
		}
		p.Arg = ps.paramWord(false, "}")
	case b == '/':
		p.Op = "/"
		ps.Pos++
		if n == '/' || n == '#' || n == '%' {
			p.Op += string(n)
			ps.Pos++
		}
		var t byte
		p.Arg, t = ps.paramWordAny(false, "/}")
		if t == '/' {
			p.Arg2 = ps.paramWord(false, "}")
		}
		return p
	case b == '^' || b == ',':
		p.Op = string(b)
		ps.Pos++
		if ps.lit(0) == b {
			p.Op += string(b)
			ps.Pos++
		}
		if ps.lit(0) == '}' {
			ps.Pos++
			return p
		}
		ps.P.Unsupported("${x%s pattern}", p.Op)
	case b == '@':
		p.Op = "@" + string(n)
		ps.Pos += 2
		if ps.lit(0) != '}' {
			ps.fail("bad substitution near %q", ps.near())
		}
		ps.Pos++
	case p.Ind && b == '*':
		ps.P.Unsupported("${!prefix*}")
	default:
		ps.fail("bad substitution near %q", ps.near())
	}
	return p
}

func (ps *Parser) paramWord(quoted bool, end string) *Word {
	w, _ := ps.paramWordAny(quoted, end)
	return w
}

// paramWordAny parses the word of a parameter expansion up to one of the end characters.
func (ps *Parser) paramWordAny(quoted bool, end string) (*Word, byte) {
	w := &Word{}
	var cur sym.Str
	flush := func() {
		if len(cur) > 0 {
			w.Parts = append(w.Parts, Part{Kind: PLit, Quoted: quoted, S: cur})
			cur = nil
		}
	}
	for {
		if ps.eof() {
			ps.fail("unterminated ${")
		}
		for i := 0; i < len(end); i++ {
			if !ps.S[ps.Pos].IsItoa() && ps.is(0, end[i]) {
				flush()
				ps.Pos++
				return w, end[i]
			}
		}
		if ps.S[ps.Pos].IsItoa() {
			cur = append(cur, ps.S[ps.Pos])
			ps.Pos++
			continue
		}
		switch {
		case ps.is(0, '\\'):
			flush()
			if ps.Pos+1 >= len(ps.S) {
				ps.fail("unterminated ${")
			}
			if quoted && !(ps.is(1, '$') || ps.is(1, '`') || ps.is(1, '\\') || ps.is(1, '"') || ps.is(1, '}')) {
				cur = append(cur, ps.S[ps.Pos])
				ps.Pos++
				continue
			}
			w.Parts = append(w.Parts, Part{Kind: PLit, Quoted: true, S: sym.Str{ps.S[ps.Pos+1]}})
			ps.Pos += 2
		case !quoted && ps.is(0, '\''):
			flush()
			ps.Pos++
			st := ps.Pos
			for {
				if ps.eof() {
					ps.fail("unterminated '")
				}
				if ps.is(0, '\'') {
					break
				}
				ps.Pos++
			}
			w.Parts = append(w.Parts, Part{Kind: PLit, Quoted: true, S: append(sym.Str{}, ps.S[st:ps.Pos]...)})
			ps.Pos++
		case ps.is(0, '"'):
			flush()
			ps.Pos++
			w.Parts = append(w.Parts, Part{Kind: PLit, Quoted: true})
			ps.dquoted(w, func() bool { return ps.is(0, '"') }, false)
			ps.Pos++
		case ps.is(0, '$'):
			if !quoted && ps.lit(1) == '\'' {
				flush()
				ps.Pos += 2
				w.Parts = append(w.Parts, Part{Kind: PLit, Quoted: true, S: ps.ansiC()})
				continue
			}
			flush()
			if !ps.dollar(w, quoted) {
				cur = append(cur, sym.Ch{B: '$'})
				ps.Pos++
			}
		case ps.is(0, '`'):
			flush()
			ps.backquote(w, quoted)
		default:
			cur = append(cur, ps.S[ps.Pos])
			ps.Pos++
		}
	}
}

// arithUntil parses arithmetic text up to the terminator, as a double-quoted word.
func (ps *Parser) arithUntil(end string) (*Word, bool) {
	save := ps.Pos
	w := &Word{}
	depth, brk := 0, 0
	var cur sym.Str
	flush := func() {
		if len(cur) > 0 {
			w.Parts = append(w.Parts, Part{Kind: PLit, Quoted: true, S: cur})
			cur = nil
		}
	}
	for {
		if ps.eof() {
			ps.Pos = save
			return nil, false
		}
		c := ps.S[ps.Pos]
		if c.IsItoa() {
			cur = append(cur, c)
			ps.Pos++
			continue
		}
		b := ps.lit(0)
		if b == 0 { // plain symbolic
			cur = append(cur, c)
			ps.Pos++
			continue
		}
		if depth == 0 && brk == 0 && b == end[0] {
			if len(end) == 1 {
				flush()
				ps.Pos++
				return w, true
			}
			if ps.lit(1) == end[1] {
				flush()
				ps.Pos += 2
				return w, true
			}
			ps.Pos = save
			return nil, false
		}
		switch b {
		case '(':
			depth++
		case ')':
			depth--
			if depth < 0 {
				ps.Pos = save
				return nil, false
			}
		case '[':
			brk++
		case ']':
			if brk > 0 {
				brk--
			}
		case '\n':
			if end == "]" {
				ps.Pos = save
				return nil, false
			}
		case '"':
			ps.Pos++
			flush()
			ps.dquoted(w, func() bool { return ps.is(0, '"') }, false)
			ps.Pos++
			continue
		case '\'':
			ps.P.Unsupported("' in arithmetic")
		case '\\':
			if ps.lit(1) == '\n' {
				ps.Pos += 2
				continue
			}
			if n := ps.lit(1); n == '$' || n == '"' || n == '\\' || n == '`' {
				ps.P.Unsupported("\\ in arithmetic")
			}
		case '$':
			flush()
			if ps.dollar(w, true) {
				continue
			}
		case '`':
			flush()
			ps.backquote(w, true)
			continue
		}
		cur = append(cur, ps.S[ps.Pos])
		ps.Pos++
	}
}

// arithUntilAny stops at a or b (depth aware), for ${x:off:len}.
func (ps *Parser) arithUntilAny(a, b string) (*Word, string) {
	w := &Word{}
	depth, tern := 0, 0
	var cur sym.Str
	flush := func() {
		if len(cur) > 0 {
			w.Parts = append(w.Parts, Part{Kind: PLit, Quoted: true, S: cur})
			cur = nil
		}
	}
	for {
		if ps.eof() {
			ps.fail("unterminated ${")
		}
		c := ps.S[ps.Pos]
		if c.IsItoa() {
			cur = append(cur, c)
			ps.Pos++
			continue
		}
		k := ps.lit(0)
		if depth == 0 && k != 0 {
			if k == ':' && tern > 0 {
				tern--
			} else if string(k) == a || string(k) == b {
				flush()
				ps.Pos++
				return w, string(k)
			}
		}
		switch k {
		case '?':
			tern++
		case '(':
			depth++
		case ')':
			depth--
		case '"':
			ps.Pos++
			flush()
			ps.dquoted(w, func() bool { return ps.is(0, '"') }, false)
			ps.Pos++
			continue
		case '$':
			flush()
			if ps.dollar(w, true) {
				continue
			}
		case '`':
			flush()
			ps.backquote(w, true)
			continue
		}
		cur = append(cur, c)
		ps.Pos++
	}
}

// [[ ]] expressions.
func (ps *Parser) condOr() *CondExpr {
	l := ps.condAnd()
	for {
		ps.newlines()
		if ps.lit(0) == '|' && ps.lit(1) == '|' {
			ps.Pos += 2
			l = &CondExpr{Op: "||", L: l, R: ps.condAnd()}
			continue
		}
		return l
	}
}

func (ps *Parser) condAnd() *CondExpr {
	l := ps.condPrim()
	for {
		ps.newlines()
		if ps.lit(0) == '&' && ps.lit(1) == '&' {
			ps.Pos += 2
			l = &CondExpr{Op: "&&", L: l, R: ps.condPrim()}
			continue
		}
		return l
	}
}

func (ps *Parser) condPrim() *CondExpr {
	ps.newlines()
	if ps.lit(0) == '(' {
		ps.Pos++
		e := ps.condOr()
		ps.newlines()
		if ps.lit(0) != ')' {
			ps.fail("[[ near %q", ps.near())
		}
		ps.Pos++
		return e
	}
	pw := ps.peekWord()
	if pw == "!" {
		ps.Pos++
		return &CondExpr{Op: "!", L: ps.condPrim()}
	}
	if len(pw) == 2 && pw[0] == '-' && isNameStart(pw[1]) {
		save := ps.Pos
		ps.Pos += 2
		ps.blanks()
		if pk := ps.peekWord(); pk != "]]" && !ps.condOpAhead() {
			w := ps.word()
			if w == nil {
				ps.fail("[[ near %q", ps.near())
			}
			return &CondExpr{Op: "un", Name: pw, A: w}
		}
		ps.Pos = save
	}
	a := ps.word()
	if a == nil {
		ps.fail("[[ near %q", ps.near())
	}
	ps.blanks()
	op := ""
	if ps.lit(0) == '<' || ps.lit(0) == '>' {
		op = string(ps.lit(0))
		ps.Pos++
	} else {
		switch pw := ps.peekWord(); pw {
		case "==", "=", "!=", "=~", "-eq", "-ne", "-lt", "-le", "-gt", "-ge", "-nt", "-ot", "-ef":
			op = pw
			ps.Pos += len(pw)
		}
	}
	if op == "" {
		return &CondExpr{Op: "word", A: a}
	}
	ps.blanks()
	if op == "=~" {
		ps.P.Unsupported("=~")
	}
	b := ps.word()
	if b == nil {
		ps.fail("[[ near %q", ps.near())
	}
	return &CondExpr{Op: "bin", Name: op, A: a, B: b}
}

func (ps *Parser) condOpAhead() bool {
	switch ps.peekWord() {
	case "==", "=", "!=", "=~", "-eq", "-ne", "-lt", "-le", "-gt", "-ge":
		return true
	}
	return false
}
