package ts

import (
	"fmt"

	"verif/sym"
)

// SymTok is a token of a symbolic source.
type SymTok struct {
	Kind     string
	Text     sym.Str
	Row, Col int
}

// SymTokens is the outcome of scanning a symbolic source.
type SymTokens struct {
	Toks   []SymTok
	Err    string // the text is not a token sequence
	Unspec string // the grammar leaves the outcome open
}

type symLex struct {
	p   *sym.Path
	f   *sym.Factory
	s   sym.Str
	i   int
	row int
	ls  int // index of the first byte of the line
}

// is decides whether byte k is one of the characters of set.
func (l *symLex) is(k int, set string) bool {
	if k >= len(l.s) {
		return false
	}
	c := l.s[k]
	if c.IsLit() {
		for i := 0; i < len(set); i++ {
			if set[i] == c.B {
				return true
			}
		}
		return false
	}
	t := l.f.False
	for i := 0; i < len(set); i++ {
		t = l.f.Or(t, l.f.Eq(c.T, l.f.BV(int64(set[i]), 8)))
	}
	return l.p.Branch(t)
}

func (l *symLex) has(k int, lit string) bool {
	if k+len(lit) > len(l.s) {
		return false
	}
	for i := 0; i < len(lit); i++ {
		if !l.is(k+i, lit[i:i+1]) {
			return false
		}
	}
	return true
}

const (
	digits  = "0123456789"
	letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
)

// adv moves to index to, counting lines.
func (l *symLex) adv(to int) {
	for ; l.i < to; l.i++ {
		if l.is(l.i, "\n") {
			l.row++
			l.ls = l.i + 1
		}
	}
}

func (l *symLex) hex(k int) (*sym.Term, bool) {
	if k >= len(l.s) {
		return nil, false
	}
	t := l.f.ZExt(l.f.ByteTerm(l.s[k]), 32)
	switch {
	case l.is(k, digits):
		return l.f.Sub(t, l.f.BV('0', 32)), true
	case l.is(k, "abcdef"):
		return l.f.Sub(t, l.f.BV('a'-10, 32)), true
	case l.is(k, "ABCDEF"):
		return l.f.Sub(t, l.f.BV('A'-10, 32)), true
	}
	return nil, false
}

// utf8 encodes a code point; ok is false for surrogates and values beyond Unicode.
func (l *symLex) utf8(v *sym.Term) (sym.Str, bool) {
	f, p := l.f, l.p
	c := func(n int64) *sym.Term { return f.BV(n, 32) }
	b := func(t *sym.Term) *sym.Term { return f.Trunc(t, 8) }
	sh := func(n int64) *sym.Term { return f.Bin(sym.OLShr, v, c(n)) }
	cont := func(n int64) *sym.Term { return b(f.BOr(c(0x80), f.BAnd(sh(n), c(0x3f)))) }
	switch {
	case p.Branch(f.Ult(v, c(0x80))):
		return sym.ByteStr(b(v)), true
	case p.Branch(f.Ult(v, c(0x800))):
		return sym.ByteStr(b(f.BOr(c(0xC0), sh(6))), cont(0)), true
	case p.Branch(f.Ult(v, c(0x10000))):
		if p.Branch(f.And(f.Ule(c(0xD800), v), f.Ult(v, c(0xE000)))) {
			return nil, false
		}
		return sym.ByteStr(b(f.BOr(c(0xE0), sh(12))), cont(6), cont(0)), true
	case p.Branch(f.Ule(v, c(0x10FFFF))):
		return sym.ByteStr(b(f.BOr(c(0xF0), sh(18))), cont(12), cont(6), cont(0)), true
	}
	return nil, false
}

// quoted scans an interpreted string whose opening quote is at l.i; it returns the value and the index after it.
func (l *symLex) quoted() (v sym.Str, end int, err string) {
	k := l.i + 1
	bad := ""
	for {
		if k >= len(l.s) {
			return nil, 0, "string not terminated"
		}
		if l.is(k, `"`) {
			return v, k + 1, bad
		}
		if !l.is(k, `\`) {
			v = append(v, l.s[k])
			k++
			continue
		}
		k++
		if k >= len(l.s) {
			return nil, 0, "string not terminated"
		}
		if l.is(k, "\n") {
			return nil, 0, "open"
		}
		simple := func(e string, c byte) bool {
			if l.is(k, e) {
				v = append(v, sym.Ch{B: c})
				k++
				return true
			}
			return false
		}
		if simple("n", '\n') || simple("t", '\t') || simple(`\`, '\\') || simple(`"`, '"') || simple("r", '\r') || simple("a", 7) || simple("b", 8) || simple("f", 12) || simple("v", 11) {
			continue
		}
		num := func(n int) (*sym.Term, bool) {
			t := l.f.BV(0, 32)
			for i := 0; i < n; i++ {
				h, ok := l.hex(k + 1 + i)
				if !ok {
					return nil, false
				}
				t = l.f.BOr(l.f.Bin(sym.OShl, t, l.f.BV(4, 32)), h)
			}
			k += 1 + n
			return t, true
		}
		switch {
		case l.is(k, "x"):
			t, ok := num(2)
			if !ok {
				return nil, 0, "bad escape"
			}
			v = append(v, sym.ByteCh(l.f.Trunc(t, 8)))
		case l.is(k, "u"), l.is(k, "U"):
			n := 4
			if l.is(k, "U") {
				n = 8
			}
			t, ok := num(n)
			if !ok {
				return nil, 0, "bad escape"
			}
			e, ok := l.utf8(t)
			if !ok {
				return nil, 0, "bad escape"
			}
			v = append(v, e...)
		case l.is(k, "01234567"):
			if !l.is(k+1, "01234567") || !l.is(k+2, "01234567") || !l.is(k, "0123") {
				return nil, 0, "bad escape"
			}
			d := func(i int) *sym.Term { return l.f.BAnd(l.f.ByteTerm(l.s[k+i]), l.f.BV(7, 8)) }
			s3 := func(t *sym.Term, n int64) *sym.Term { return l.f.Bin(sym.OShl, t, l.f.BV(n, 8)) }
			v = append(v, sym.ByteCh(l.f.BOr(l.f.BOr(s3(d(0), 6), s3(d(1), 3)), d(2))))
			k += 3
		default:
			return nil, 0, "bad escape"
		}
	}
}

// SymTokenize scans a symbolic source along the token grammar, forking p as needed.
func SymTokenize(p *sym.Path, src sym.Str) (res SymTokens) {
	l := &symLex{p: p, f: p.F, row: 1}
	// \r\n counts as \n
	for k := 0; k < len(src); k++ {
		l.s = src
		if l.has(k, "\r\n") {
			out := append(sym.Str{}, src[:k]...)
			src = append(out, src[k+1:]...)
		}
	}
	l.s = src
	operand := false
	for l.i < len(l.s) {
		i, row, col := l.i, l.row, l.i-l.ls+1
		emit := func(kind string, text sym.Str) {
			res.Toks = append(res.Toks, SymTok{kind, text, row, col})
			operand = kind == KIdent || kind == KInt || kind == KStr
		}
		fail := func(m string) SymTokens {
			res.Err = fmt.Sprintf("%d:%d: %s", row, col, m)
			return res
		}
		switch {
		case l.is(i, letters):
			j := i + 1
			for l.is(j, letters+digits) {
				j++
			}
			t := l.s[i:j]
			l.i = j
			kw := ""
			for _, k := range sortedKeywords {
				if len(k) == len(t) && l.has(i, k) {
					kw = k
				}
			}
			if kw != "" {
				emit(KKeyword, sym.Lit(kw))
				operand = kw == "true" || kw == "false" || kw == "nil"
			} else {
				emit(KIdent, t)
			}
		case l.is(i, " \t"):
			l.i++
		case l.is(i, "\n"):
			l.adv(i + 1)
			emit(KNewline, sym.Lit("\n"))
		case l.is(i, digits), !operand && l.is(i, "-") && l.is(i+1, digits):
			j := i + 1
			for l.is(j, digits) {
				j++
			}
			if l.is(j, ".") && l.is(j+1, digits) {
				res.Unspec = "fraction"
				return
			}
			t := l.s[i:j]
			l.i = j
			emit(KInt, t)
		case l.has(i, "//"):
			j := i + 2
			for j < len(l.s) && !l.is(j, "\n") {
				j++
			}
			l.i = j
		case l.has(i, "/*"):
			j := i + 2
			for j < len(l.s) && !l.has(j, "*/") {
				j++
			}
			if j >= len(l.s) {
				res.Unspec = "comment without an end"
				return
			}
			l.adv(j + 2)
		case l.is(i, "`"):
			j := i + 1
			for j < len(l.s) && !l.is(j, "`") {
				j++
			}
			if j >= len(l.s) {
				return fail("string not terminated")
			}
			v := l.s[i+1 : j]
			l.adv(j + 1)
			emit(KStr, v)
		case l.is(i, `"`):
			v, end, e := l.quoted()
			if e == "open" {
				res.Unspec = "backslash before a line break"
				return
			}
			if e != "" {
				return fail(e)
			}
			l.adv(end)
			emit(KStr, v)
		default:
			ok := false
			for _, o := range ops {
				if l.has(i, o) {
					l.i += len(o)
					emit(KOp, sym.Lit(o))
					operand = o == ")" || o == "]" || o == "}"
					ok = true
					break
				}
			}
			if !ok {
				return fail("unknown character")
			}
		}
	}
	res.Toks = append(res.Toks, SymTok{KEOF, nil, l.row, l.i - l.ls + 1})
	return
}
