// Package batsym interprets Batch scripts symbolically under cmd.exe's rules: script text and variable values are
// symbolic strings (package sym).
package batsym

import (
	"strings"

	"verif/sym"
)

// SyntaxError is raised (as a panic) by the parser.
type SyntaxError struct{ Msg string }

func (e SyntaxError) Error() string { return "syntax error: " + e.Msg }

type (
	// Node is a parsed command.
	Node interface{}

	// Simple is a command after phase 2: carets outside quotes are gone, redirections are taken out.
	Simple struct {
		Text   sym.Str
		Redirs []Redir
		Line   int
	}
	Redir struct {
		Fd     int
		Op     string // > >> < >& <&
		Target sym.Str
	}
	Block struct {
		Items  []Node
		Redirs []Redir
		Line   int // of the opening parenthesis
		End    int // of the closing parenthesis
	}
	// Label is a label line; inside a block it does nothing, at the top level it neither.
	Label struct {
		Text sym.Str
		Line int
	}
	If struct {
		Kind string // cmp, defined, exist, errorlevel
		Not  bool
		Fold bool
		A, B sym.Str
		Op   string
		Then Node
		Else Node
		Line int
	}
	For struct {
		Opt  string // f, or empty
		Args sym.Str
		Var  byte
		Set  sym.Str
		Do   Node
		Line int
	}
	Seq struct {
		Op   string // & && || |
		L, R Node
	}
	// Ignored is a line that begins with a closing parenthesis outside of any block, a remark or an empty line.
	Ignored struct{}
)

// Parser parses commands of a script. Lines are %-expanded when they are read.
type Parser struct {
	P      *sym.Path
	F      *sym.Factory
	Lines  []sym.Str
	Pos    int // next line
	Expand func(sym.Str) sym.Str
	buf    sym.Str
	i      int
	depth  int
	Quiet  bool // the command began with @
}

// SplitLines cuts a script into lines (carriage returns are dropped).
func SplitLines(p *sym.Path, s sym.Str) []sym.Str {
	f := p.F
	var out []sym.Str
	cur := sym.Str{}
	n := 0
	for _, c := range s {
		switch {
		case c.IsLit() && c.B == '\n', c.IsByte() && p.Branch(f.Eq(c.T, f.BV('\n', 8))):
			out = append(out, cur)
			cur = sym.Str{}
			n = 0
			continue
		case c.IsLit() && c.B == '\r', c.IsByte() && p.Branch(f.Eq(c.T, f.BV('\r', 8))):
			continue
		}
		n++
		cur = append(cur, c)
	}
	if n > 0 {
		out = append(out, cur)
	}
	return out
}

// isCh decides whether c is the byte b.
func isCh(p *sym.Path, c sym.Ch, b byte) bool {
	if c.IsLit() {
		return c.B == b
	}
	if c.IsItoa() {
		if b == '-' || b >= '0' && b <= '9' {
			p.Unsupported("digit of a decimal rendering inspected")
		}
		return false
	}
	return p.Branch(p.F.Eq(c.T, p.F.BV(int64(b), 8)))
}

func (ps *Parser) fail(msg string) { panic(SyntaxError{msg}) }

func (ps *Parser) nextLine() bool {
	if ps.Pos >= len(ps.Lines) {
		return false
	}
	l := ps.Lines[ps.Pos]
	ps.Pos++
	ps.buf = append(sym.Str{}, l...)
	if ps.Expand != nil {
		ps.buf = ps.Expand(l)
	}
	ps.i = 0
	return true
}

func (ps *Parser) eol() bool { return ps.i >= len(ps.buf) }

func (ps *Parser) is(b byte) bool { return ps.isAt(0, b) }

func (ps *Parser) isAt(k int, b byte) bool {
	if ps.i+k >= len(ps.buf) {
		return false
	}
	c := ps.buf[ps.i+k]
	if c.IsItoa() {
		if b == '-' || b >= '0' && b <= '9' {
			ps.P.Unsupported("digit of a decimal rendering inspected")
		}
		return false
	}
	if !isCh(ps.P, c, b) {
		return false
	}
	ps.buf[ps.i+k] = sym.Ch{B: b}
	return true
}

func (ps *Parser) oneOf(set string) bool {
	if ps.eol() {
		return false
	}
	c := ps.buf[ps.i]
	if c.IsLit() {
		return strings.IndexByte(set, c.B) >= 0
	}
	if c.IsItoa() {
		return false
	}
	for j := 0; j < len(set); j++ {
		if ps.is(set[j]) {
			return true
		}
	}
	return false
}

const delims = " \t,;=\v\f\xff"

func (ps *Parser) skipDelims() {
	for ps.oneOf(delims) {
		ps.i++
	}
}

// word reports whether the lower-case word w stands here, followed by something that ends a command word.
func (ps *Parser) word(w string, follow string) bool {
	for k := 0; k < len(w); k++ {
		if ps.i+k >= len(ps.buf) {
			return false
		}
		c := ps.buf[ps.i+k]
		if c.IsItoa() {
			return false
		}
		b := w[k]
		if c.IsLit() {
			x := c.B
			if x >= 'A' && x <= 'Z' {
				x += 32
			}
			if x != b {
				return false
			}
			continue
		}
		if !ps.isAt(k, b) && !(b >= 'a' && b <= 'z' && ps.isAt(k, b-32)) {
			return false
		}
	}
	k := ps.i + len(w)
	if k >= len(ps.buf) {
		return true
	}
	save := ps.i
	ps.i = k
	ok := ps.oneOf(delims + follow)
	ps.i = save
	return ok
}

// Next parses the next command, or returns nil at the end of the script.
func (ps *Parser) Next() Node {
	ps.depth = 0
	if !ps.nextLine() {
		return nil
	}
	ps.skipDelims()
	if ps.eol() {
		return Ignored{}
	}
	if ps.is(':') {
		l := &Label{Text: ps.buf[ps.i:], Line: ps.Pos - 1}
		return l
	}
	if ps.is(')') {
		return Ignored{}
	}
	ps.Quiet = ps.is('@')
	n := ps.amp()
	if !ps.eol() {
		ps.fail("unexpected text after a command")
	}
	return n
}

func (ps *Parser) amp() Node {
	l := ps.or()
	for !ps.eol() && ps.is('&') {
		ps.i++
		ps.skipDelims()
		if ps.eol() || ps.depth > 0 && ps.is(')') {
			return l
		}
		l = &Seq{Op: "&", L: l, R: ps.or()}
	}
	return l
}

func (ps *Parser) or() Node {
	l := ps.and()
	for ps.is('|') && ps.isAt(1, '|') {
		ps.i += 2
		l = &Seq{Op: "||", L: l, R: ps.and()}
	}
	return l
}

func (ps *Parser) and() Node {
	l := ps.pipe()
	for ps.is('&') && ps.isAt(1, '&') {
		ps.i += 2
		l = &Seq{Op: "&&", L: l, R: ps.pipe()}
	}
	return l
}

func (ps *Parser) pipe() Node {
	l := ps.cmd()
	for ps.is('|') && !ps.isAt(1, '|') {
		ps.i++
		l = &Seq{Op: "|", L: l, R: ps.cmd()}
	}
	return l
}

func (ps *Parser) cmd() Node {
	ps.skipDelims()
	for ps.is('@') {
		ps.i++
		ps.skipDelims()
	}
	line := ps.Pos - 1
	switch {
	case ps.eol():
		ps.fail("command expected")
	case ps.is('('):
		return ps.block()
	case ps.is(')'):
		ps.fail(") was unexpected at this time")
	case ps.is(':'):
		// a label that is not at the beginning of a line is no label
		l := &Label{Text: ps.buf[ps.i:], Line: -1}
		ps.i = len(ps.buf)
		return l
	case ps.word("if", "(\"/"):
		return ps.ifCmd()
	case ps.word("for", "(/"):
		return ps.forCmd()
	case ps.word("rem", "/"):
		ps.i = len(ps.buf)
		return Ignored{}
	}
	s := &Simple{Line: line}
	s.Text = ps.text(&s.Redirs)
	if len(s.Text) == 0 && len(s.Redirs) == 0 {
		ps.fail("command expected")
	}
	return s
}

// text reads to the end of a simple command.
func (ps *Parser) text(rd *[]Redir) sym.Str {
	out := sym.Str{}
	quoted := false
	for {
		if ps.eol() {
			return out
		}
		if ps.is('"') {
			quoted = !quoted
			out = append(out, ps.buf[ps.i])
			ps.i++
			continue
		}
		if quoted {
			out = append(out, ps.buf[ps.i])
			ps.i++
			continue
		}
		switch {
		case ps.is('^'):
			ps.i++
			if ps.eol() {
				if !ps.nextLine() {
					return out
				}
				if ps.eol() {
					out = append(out, sym.Ch{B: '\n'})
					if !ps.nextLine() {
						return out
					}
					continue
				}
			}
			out = append(out, ps.buf[ps.i])
			ps.i++
			continue
		case ps.is('&'), ps.is('|'):
			return out
		case ps.is(')') && ps.depth > 0:
			return out
		case ps.is('>'), ps.is('<'):
			*rd = append(*rd, ps.redir(&out))
			continue
		}
		out = append(out, ps.buf[ps.i])
		ps.i++
	}
}

func (ps *Parser) redir(before *sym.Str) Redir {
	r := Redir{Fd: 1}
	if ps.is('<') {
		r.Fd = 0
	}
	if b := *before; len(b) > 0 && b[len(b)-1].IsLit() && b[len(b)-1].B >= '0' && b[len(b)-1].B <= '9' && (len(b) == 1 || b[len(b)-2].IsLit() && strings.IndexByte(delims, b[len(b)-2].B) >= 0) {
		r.Fd = int(b[len(b)-1].B - '0')
		*before = b[:len(b)-1]
	}
	r.Op = string(ps.buf[ps.i].B)
	ps.i++
	if r.Op == ">" && ps.is('>') {
		r.Op = ">>"
		ps.i++
	}
	if ps.is('&') {
		r.Op += "&"
		ps.i++
	}
	ps.skipDelims()
	quoted := false
	for !ps.eol() {
		if ps.is('"') {
			quoted = !quoted
		} else if !quoted && (ps.oneOf(delims+"&|<>") || ps.depth > 0 && ps.is(')')) {
			break
		}
		r.Target = append(r.Target, ps.buf[ps.i])
		ps.i++
	}
	if len(r.Target) == 0 {
		ps.fail("redirection without a target")
	}
	return r
}

func (ps *Parser) block() Node {
	b := &Block{Line: ps.Pos - 1}
	ps.i++ // (
	ps.depth++
	label := false
	for {
		ps.skipDelims()
		if ps.eol() {
			if !ps.nextLine() {
				ps.fail("block without an end")
			}
			ps.skipDelims()
			if !ps.eol() && ps.is(':') {
				if label {
					ps.fail("two consecutive labels inside a block")
				}
				b.Items = append(b.Items, &Label{Text: ps.buf[ps.i:], Line: ps.Pos - 1})
				ps.i = len(ps.buf)
				label = true
			}
			continue
		}
		if ps.is(')') {
			if label {
				ps.fail(") was unexpected at this time (label at the end of a block)")
			}
			ps.i++
			ps.depth--
			break
		}
		if ps.is('&') || ps.is('|') {
			ps.fail(string(ps.buf[ps.i].B) + " was unexpected at this time")
		}
		label = false
		b.Items = append(b.Items, ps.amp())
		if !ps.eol() && !ps.is(')') {
			ps.fail("unexpected text in a block")
		}
	}
	b.End = ps.Pos - 1
	if len(b.Items) == 0 {
		ps.fail(") was unexpected at this time (empty block)")
	}
	for {
		save := ps.i
		ps.skipDelims()
		if ps.is('>') || ps.is('<') {
			var none sym.Str
			b.Redirs = append(b.Redirs, ps.redir(&none))
			continue
		}
		ps.i = save
		return b
	}
}

// token reads an IF operand.
func (ps *Parser) token() sym.Str {
	ps.skipDelims()
	out := sym.Str{}
	quoted := false
	for !ps.eol() {
		if ps.is('"') {
			quoted = !quoted
		} else if !quoted {
			if ps.oneOf(delims) {
				break
			}
			if ps.oneOf("&|<>") || ps.depth > 0 && ps.is(')') {
				ps.fail("unexpected character in a condition")
			}
			if ps.is('^') {
				ps.i++
				if ps.eol() {
					break
				}
			}
		}
		out = append(out, ps.buf[ps.i])
		ps.i++
	}
	if len(out) == 0 {
		ps.fail("incomplete condition")
	}
	return out
}

func (ps *Parser) ifCmd() Node {
	n := &If{Kind: "cmp", Line: ps.Pos - 1}
	ps.i += 2
	ps.skipDelims()
	for {
		switch {
		case ps.word("/i", ""):
			n.Fold = true
			ps.i += 2
			ps.skipDelims()
			continue
		case ps.word("not", ""):
			n.Not = true
			ps.i += 3
			ps.skipDelims()
			continue
		}
		break
	}
	switch {
	case ps.word("defined", ""):
		n.Kind = "defined"
		ps.i += 7
		n.A = ps.token()
	case ps.word("exist", "\""):
		n.Kind = "exist"
		ps.i += 5
		n.A = ps.token()
	case ps.word("errorlevel", ""):
		n.Kind = "errorlevel"
		ps.i += 10
		n.A = ps.token()
	case ps.word("cmdextversion", ""):
		ps.P.Unsupported("if cmdextversion")
	default:
		n.A = ps.token()
		for ps.oneOf(" \t,;") {
			ps.i++
		}
		if ps.is('=') && ps.isAt(1, '=') {
			n.Op = "=="
			ps.i += 2
		} else {
			ps.skipDelims()
			for _, o := range []string{"equ", "neq", "lss", "leq", "gtr", "geq"} {
				if ps.word(o, "") {
					n.Op = o
				}
			}
			if n.Op == "" {
				ps.fail("comparison operator expected")
			}
			ps.i += 3
		}
		n.B = ps.token()
	}
	ps.skipDelims()
	if ps.eol() {
		ps.fail("incomplete if")
	}
	if ps.is('(') {
		n.Then = ps.block()
	} else {
		n.Then = ps.amp()
	}
	if _, ok := n.Then.(*Block); ok {
		save := ps.i
		ps.skipDelims()
		if ps.word("else", "(") {
			ps.i += 4
			ps.skipDelims()
			if ps.is('(') {
				n.Else = ps.block()
			} else {
				n.Else = ps.amp()
			}
		} else {
			ps.i = save
			ps.trail()
		}
	}
	return n
}

// trail skips blanks before an operator or the end of the line.
func (ps *Parser) trail() {
	save := ps.i
	ps.skipDelims()
	if !ps.eol() && !ps.oneOf("&|)") {
		ps.i = save
		ps.fail("unexpected text after a block")
	}
}

func (ps *Parser) forCmd() Node {
	n := &For{Line: ps.Pos - 1}
	ps.i += 3
	ps.skipDelims()
	if ps.is('/') {
		ps.i++
		if ps.eol() || !ps.buf[ps.i].IsLit() {
			ps.fail("for option expected")
		}
		n.Opt = strings.ToLower(string(ps.buf[ps.i].B))
		ps.i++
		ps.skipDelims()
		if ps.is('"') {
			ps.i++
			for !ps.is('"') {
				if ps.eol() {
					ps.fail("unterminated for options")
				}
				n.Args = append(n.Args, ps.buf[ps.i])
				ps.i++
			}
			ps.i++
			ps.skipDelims()
		}
	}
	if !ps.is('%') || ps.i+1 >= len(ps.buf) || !ps.buf[ps.i+1].IsLit() {
		ps.fail("for variable expected")
	}
	n.Var = ps.buf[ps.i+1].B
	ps.i += 2
	ps.skipDelims()
	if !ps.word("in", "(") {
		ps.fail("in expected")
	}
	ps.i += 2
	ps.skipDelims()
	if !ps.is('(') {
		ps.fail("( expected")
	}
	ps.i++
	quoted := false
	for {
		if ps.eol() {
			if !ps.nextLine() {
				ps.fail("for set without an end")
			}
			quoted = false
			n.Set = append(n.Set, sym.Ch{B: ' '})
			continue
		}
		if ps.is('"') {
			quoted = !quoted
		} else if !quoted {
			if ps.is(')') {
				ps.i++
				break
			}
			if ps.is('^') {
				ps.i++
				if ps.eol() {
					ps.P.Unsupported("line continuation in a for set")
				}
			}
		}
		n.Set = append(n.Set, ps.buf[ps.i])
		ps.i++
	}
	ps.skipDelims()
	if !ps.word("do", "(") {
		ps.fail("do expected")
	}
	ps.i += 2
	ps.skipDelims()
	if ps.eol() {
		ps.fail("command expected after do")
	}
	if ps.is('(') {
		n.Do = ps.block()
		ps.trail()
	} else {
		n.Do = ps.amp()
	}
	return n
}
