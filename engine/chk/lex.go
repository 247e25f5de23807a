package chk

import (
	"fmt"
	"go/constant"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/gosym"
	"verif/harness"
	"verif/sym"
	"verif/ts"
)

// Tmpl is source text with symbolic bytes: ‹a› any byte, ‹p› printable, blank, tab, CR or newline, ‹l› letter, digit or _,
// ‹d› digit, ‹h› hexadecimal digit, ‹s› blank, tab, CR or newline, ‹b› blank or tab, ‹o› operator characters,
// ‹L› lower-case letter, ‹2› digit 0-3.
// The letters are written between the bytes 0x01 and 0x02 by S.
type Tmpl struct {
	ID, Fam, Text string
}

// S marks symbolic bytes: every character of kinds is one byte.
func S(kinds string) string {
	var sb strings.Builder
	for _, c := range kinds {
		sb.WriteString("\x01" + string(c))
	}
	return sb.String()
}

func kindTerm(f *sym.Factory, t *sym.Term, k byte) *sym.Term {
	set := func(s string) *sym.Term {
		r := f.False
		for i := 0; i < len(s); i++ {
			r = f.Or(r, f.Eq(t, f.BV(int64(s[i]), 8)))
		}
		return r
	}
	rng := func(lo, hi byte) *sym.Term {
		return f.And(f.Ule(f.BV(int64(lo), 8), t), f.Ule(t, f.BV(int64(hi), 8)))
	}
	switch k {
	case 'a':
		return f.True
	case 'p':
		return f.Or(rng(32, 126), set("\t\r\n"))
	case 'l':
		return f.Or(f.Or(rng('a', 'z'), rng('A', 'Z')), f.Or(rng('0', '9'), set("_")))
	case 'L':
		return rng('a', 'z')
	case 'd':
		return rng('0', '9')
	case '2':
		return rng('0', '3')
	case 'h':
		return f.Or(rng('0', '9'), f.Or(rng('a', 'f'), rng('A', 'F')))
	case 's':
		return set(" \t\r\n")
	case 'b':
		return set(" \t")
	case 'w':
		return set(" \t\n")
	case 'x':
		return f.Not(set("\n"))
	case 'y':
		return f.Not(set("*\n\r"))
	case 'n':
		return set("\r\n")
	case 'T':
		return set("ibsexyz")
	case 'F': // functions, see gen.typePrelude
		return set("pqruvwghm")
	case 'N':
		return set("abcd")
	case '3':
		return set("bcdn")
	case 'o':
		return set("()[]{}=!<>&|+-*/%:,;.@")
	case 'q':
		return set("\"\\`nx'a")
	case 'c':
		return set("/*\n x\"")
	}
	panic("kind " + string(k))
}

// altChars are the characters of the alternative selected by v, padded with blanks.
func altChars(f *sym.Factory, v *sym.Term, alts []string) (s sym.Str) {
	n := 0
	for _, a := range alts {
		n = max(n, len(a))
	}
	for k := 0; k < n; k++ {
		var t *sym.Term
		for x := len(alts) - 1; x >= 0; x-- {
			b := byte(' ')
			if k < len(alts[x]) {
				b = alts[x][k]
			}
			if t == nil {
				t = f.BV(int64(b), 8)
			} else {
				t = f.Ite(f.Eq(v, f.BV(int64(x), 8)), f.BV(int64(b), 8), t)
			}
		}
		if t.IsConst() {
			s = append(s, sym.Ch{B: byte(t.V)})
		} else {
			s = append(s, sym.Ch{T: t})
		}
	}
	return s
}

// Source builds the symbolic source of a template.
func (t Tmpl) Source(p *sym.Path) sym.Str {
	s, _ := t.SourceVars(p)
	return s
}

// SourceVars also returns the variables of the source.
func (t Tmpl) SourceVars(p *sym.Path) (s sym.Str, vars []*sym.Term) {
	n := 0
	for i := 0; i < len(t.Text); i++ {
		if t.Text[i] == 2 { // \x02alternative\x03alternative...\x04, chosen by a symbolic selector
			end := i + strings.IndexByte(t.Text[i:], 4)
			alts := strings.Split(t.Text[i+1:end], "\x03")
			i = end
			v := p.F.Var(fmt.Sprintf("c%d", n), 8)
			n++
			vars = append(vars, v)
			p.Assume(p.F.Ule(v, p.F.BV(int64(len(alts)-1), 8)))
			s = append(s, altChars(p.F, v, alts)...)
			continue
		}
		if t.Text[i] != 1 {
			s = append(s, sym.Ch{B: t.Text[i]})
			continue
		}
		i++
		v := p.F.Var(fmt.Sprintf("b%d", n), 8)
		n++
		vars = append(vars, v)
		p.Assume(kindTerm(p.F, v, t.Text[i]))
		s = append(s, sym.Ch{T: v})
	}
	return s, vars
}

var opConst = map[string]string{"(": "OPENING_ROUND_BRACKET", ")": "CLOSING_ROUND_BRACKET", "[": "OPENING_SQUARE_BRACKET", "]": "CLOSING_SQUARE_BRACKET",
	"{": "OPENING_CURLY_BRACKET", "}": "CLOSING_CURLY_BRACKET", "==": "COMPARE_OPERATOR", "!=": "COMPARE_OPERATOR", "<=": "COMPARE_OPERATOR", ">=": "COMPARE_OPERATOR",
	"<": "COMPARE_OPERATOR", ">": "COMPARE_OPERATOR", "&&": "LOGICAL_OPERATOR", "||": "LOGICAL_OPERATOR", "+=": "COMPOUND_ASSIGN_OPERATOR", "-=": "COMPOUND_ASSIGN_OPERATOR",
	"*=": "COMPOUND_ASSIGN_OPERATOR", "/=": "COMPOUND_ASSIGN_OPERATOR", "%=": "COMPOUND_ASSIGN_OPERATOR", "=": "ASSIGN_OPERATOR", ":=": "SHORT_INIT_OPERATOR",
	"++": "INCREMENT_OPERATOR", "--": "DECREMENT_OPERATOR", "!": "UNARY_OPERATOR", "+": "BINARY_OPERATOR", "-": "BINARY_OPERATOR", "*": "BINARY_OPERATOR", "/": "BINARY_OPERATOR",
	"%": "BINARY_OPERATOR", ",": "COMMA", ":": "COLON", ";": "SEMICOLON", ".": "DOT", "@": "AT", "|": "PIPE"}

var kwConst = map[string]string{"import": "IMPORT", "var": "VAR_DEFINITION", "func": "FUNCTION_DEFINITION", "return": "RETURN", "if": "IF", "else": "ELSE", "switch": "SWITCH",
	"case": "CASE", "default": "DEFAULT", "for": "FOR", "range": "RANGE", "break": "BREAK", "continue": "CONTINUE", "nil": "NIL_LITERAL", "len": "LEN", "print": "PRINT",
	"input": "INPUT", "copy": "COPY", "itoa": "ITOA", "exists": "EXISTS", "read": "READ", "write": "WRITE", "panic": "PANIC", "bool": "DATA_TYPE", "int": "DATA_TYPE",
	"string": "DATA_TYPE", "error": "DATA_TYPE", "true": "BOOL_LITERAL", "false": "BOOL_LITERAL"}

func constName(kind, text string) string {
	switch kind {
	case ts.KNewline:
		return "NEWLINE"
	case ts.KIdent:
		return "IDENTIFIER"
	case ts.KInt:
		return "NUMBER_LITERAL"
	case ts.KStr:
		return "STRING_LITERAL"
	case ts.KEOF:
		return "EOF"
	case ts.KKeyword:
		return kwConst[text]
	}
	return opConst[text]
}

// tokConsts maps the token type names of the code under check to their values.
func (r *Run) tokConsts() map[string]int64 {
	out := map[string]int64{}
	pkg := r.P.Pkgs[r.P.Module+"/lexer"]
	for n, m := range pkg.Members {
		if c, ok := m.(*ssa.NamedConst); ok && c.Value != nil && c.Value.Value != nil && c.Value.Value.Kind() == constant.Int {
			v, _ := constant.Int64Val(c.Value.Value)
			out[n] = v
		}
	}
	return out
}

// lexDiff compares the native token list with the reference on one concrete source.
func (w *Worker) lexDiff(src string, consts map[string]int64) string {
	var ref ts.SymTokens
	x := &sym.Explorer{F: w.F, S: w.S}
	x.Run(func(p *sym.Path) { ref = ts.SymTokenize(p, sym.Lit(src)) })
	w.R.Add("native_replays", 1)
	n := w.R.N.Tokenize(src)
	if n.Panic != "" {
		return "tokenisation did not return: " + n.Panic
	}
	if ref.Unspec != "" {
		return ""
	}
	if n.IsErr != (ref.Err != "") {
		if n.IsErr {
			return "rejected: " + n.Err
		}
		return "accepted, expected error: " + ref.Err
	}
	if n.IsErr {
		if n.Err == "" {
			return "empty error"
		}
		return ""
	}
	for i := 0; i < len(n.Toks) || i < len(ref.Toks); i++ {
		if i >= len(n.Toks) {
			return fmt.Sprintf("token %d missing, expected %s %q", i, ref.Toks[i].Kind, ref.Toks[i].Text.Eval(nil))
		}
		a := n.Toks[i]
		if i >= len(ref.Toks) {
			return fmt.Sprintf("extra token %q", a.V)
		}
		b := ref.Toks[i]
		txt := b.Text.Eval(nil)
		if string(a.V) != txt {
			return fmt.Sprintf("token %d is %q, expected %s %q", i, a.V, b.Kind, txt)
		}
		if a.R != b.Row || a.C != b.Col {
			return fmt.Sprintf("token %d %q is reported at %d:%d, expected %d:%d", i, txt, a.R, a.C, b.Row, b.Col)
		}
		if c, ok := consts[constName(b.Kind, txt)]; ok && c != int64(a.T) {
			return fmt.Sprintf("token %d %q has type %d, expected %s (%d)", i, txt, a.T, constName(b.Kind, txt), c)
		}
	}
	return ""
}

// Lex decides one template: for every value of the symbolic bytes Tokenize equals the reference scanner.
func (w *Worker) Lex(t Tmpl, maxPaths int) {
	consts := w.R.tokConsts()
	fn := w.R.P.Func("lexer", "Tokenize")
	if fn == nil {
		w.R.Note("no lexer.Tokenize", t.ID)
		return
	}
	sampled := 0
	x := &sym.Explorer{F: w.F, S: w.S, MaxPaths: maxPaths}
	x.Run(func(p *sym.Path) {
		if w.R.Stopped() || w.jobBad {
			return
		}
		src := t.Source(p)
		replay := func(m sym.Model, why string) {
			s := src.Eval(m)
			if d := w.lexDiff(s, consts); d != "" {
				w.jobBad = true
				w.R.Violate(t.ID, fmt.Sprintf("source %q: %s", s, d), map[string]string{"source.tsh": s})
			} else if why != "" {
				w.R.Note("model mismatch", fmt.Sprintf("%s: %s does not reproduce on %q", t.ID, why, s))
			}
		}
		defer func() {
			if e := recover(); e != nil {
				a, ok := e.(sym.Abort)
				if !ok || a.Kind == "infeasible" {
					panic(e)
				}
				w.R.Note("inconclusive: "+head(a.Error(), 90), t.ID)
				w.R.Add("inconclusive_paths", 1)
				if m, ok := p.Model(); ok && w.replays < 40 {
					w.replays++
					replay(m, "")
				}
				panic(e)
			}
		}()
		m := w.M
		m.IntHoles, m.StrHoles = nil, nil
		m.FS = gosym.NewVFS()
		m.Begin(p)
		var arg gosym.Value = gosym.FromStr(src)
		o := m.Protect(func() gosym.Value { return m.Call(fn, []gosym.Value{arg}) })
		w.R.Add("tokenisations", 1)
		if o.Panic != nil || o.Limit != "" {
			if mm, ok := p.Model(); ok {
				replay(mm, "crash")
			}
			return
		}
		tup := o.Ret.(gosym.Tuple)
		e, isErr := m.ErrText(tup[1])
		ref := ts.SymTokenize(p, src)
		w.R.Add("paths", 1)
		if ref.Unspec != "" {
			w.R.Add("unspecified", 1)
			return
		}
		f := w.F
		ok := f.True
		switch {
		case isErr != (ref.Err != ""):
			ok = f.False
		case isErr:
			if len(harness.StrOf(e)) == 0 {
				ok = f.False
			}
		default:
			toks := tup[0].(gosym.Slice)
			if len(toks) != len(ref.Toks) {
				ok = f.False
				break
			}
			rt := fn.Signature.Results().At(0).Type()
			for i, tv := range toks {
				get := func(name string) gosym.Value { return m.CallOn(gosym.ElemType(rt), tv, name) }
				b := ref.Toks[i]
				ok = f.And(ok, p.StrEq(harness.StrOf(get("Value")), b.Text))
				ok = f.And(ok, f.Eq(m.IntTerm64(get("Row")), f.BV(int64(b.Row), 64)))
				ok = f.And(ok, f.Eq(m.IntTerm64(get("Column")), f.BV(int64(b.Col), 64)))
				txt := ""
				if b.Kind == ts.KOp || b.Kind == ts.KKeyword {
					txt, _ = b.Text.Concrete()
				}
				if c, known := consts[constName(b.Kind, txt)]; known {
					ok = f.And(ok, f.Eq(m.IntTerm64(get("Type")), f.BV(c, 64)))
				}
			}
		}
		res, mm := p.Check(ok)
		switch res {
		case sym.Unsat:
			w.R.Add("discharged", 1)
			if sampled < 2 {
				sampled++
				if mm, ok := p.Model(); ok {
					w.R.Add("native_samples", 1)
					s := src.Eval(mm)
					replay(mm, "")
					w.R.Sample(map[string]any{"template": t.ID, "source": s, "tokens": len(ref.Toks), "error": ref.Err})
				}
			}
		case sym.Sat:
			replay(mm, "counterexample")
		default:
			if mm, ok := p.Model(); ok {
				replay(mm, "")
			}
			w.R.Add("inconclusive_paths", 1)
		}
	})
	w.finishExplorer(t.ID, x)
}
