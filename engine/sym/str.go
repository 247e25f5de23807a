package sym

import (
	"fmt"
	"strconv"
	"strings"
)

// Ch is one element of a symbolic string: a concrete byte (T==nil), a symbolic byte
// (T of width 8) or the decimal rendering of a symbolic 64-bit integer (T of width 64).
type Ch struct {
	B byte
	T *Term
}

func (c Ch) IsLit() bool  { return c.T == nil }
func (c Ch) IsByte() bool { return c.T != nil && c.T.W == 8 }
func (c Ch) IsItoa() bool { return c.T != nil && c.T.W == 64 }

// Str is a symbolic string.
type Str []Ch

func Lit(s string) Str {
	r := make(Str, len(s))
	for i := 0; i < len(s); i++ {
		r[i].B = s[i]
	}
	return r
}

// Itoa renders an integer term.
func Itoa(t *Term) Str {
	if t.W != 64 {
		panic("itoa width")
	}
	if t.IsConst() {
		return Lit(strconv.FormatInt(t.Int(), 10))
	}
	return Str{{T: t}}
}

func ByteStr(ts ...*Term) Str {
	r := make(Str, len(ts))
	for i, t := range ts {
		r[i] = ByteCh(t)
	}
	return r
}

func ByteCh(t *Term) Ch {
	if t.W != 8 {
		panic("byte width")
	}
	if t.IsConst() {
		return Ch{B: byte(t.V)}
	}
	return Ch{T: t}
}

func Cat(parts ...Str) Str {
	n := 0
	for _, p := range parts {
		n += len(p)
	}
	if n > 1<<19 {
		panic(Abort{"bound", "string length"})
	}
	r := make(Str, 0, n)
	for _, p := range parts {
		r = append(r, p...)
	}
	return r
}

// Concrete returns the string when no symbolic element is present.
func (s Str) Concrete() (string, bool) {
	b := make([]byte, len(s))
	for i, c := range s {
		if c.T != nil {
			return "", false
		}
		b[i] = c.B
	}
	return string(b), true
}

// MustConcrete or a diagnostic form.
func (s Str) String() string {
	var sb strings.Builder
	for _, c := range s {
		switch {
		case c.T == nil:
			sb.WriteByte(c.B)
		case c.T.W == 8:
			sb.WriteString("«" + c.T.String() + "»")
		default:
			sb.WriteString("‹" + c.T.String() + "›")
		}
	}
	return sb.String()
}

// Eval instantiates s under a model.
func (s Str) Eval(m Model) string {
	var sb strings.Builder
	for _, c := range s {
		switch {
		case c.T == nil:
			sb.WriteByte(c.B)
		case c.T.W == 8:
			sb.WriteByte(byte(Eval(c.T, m, nil)))
		default:
			sb.WriteString(strconv.FormatInt(int64(Eval(c.T, m, nil)), 10))
		}
	}
	return sb.String()
}

func (s Str) HasItoa() bool {
	for _, c := range s {
		if c.T != nil && c.T.W == 64 {
			return true
		}
	}
	return false
}

// ByteTerm returns the byte term of a non-itoa element.
func (f *Factory) ByteTerm(c Ch) *Term {
	if c.T == nil {
		return f.BV(int64(c.B), 8)
	}
	return c.T
}

var pow10 [20]uint64

func init() {
	pow10[0] = 1
	for i := 1; i < 20; i++ {
		pow10[i] = pow10[i-1] * 10
	}
}

// ItoaLen is the number of characters of the decimal rendering of t (64-bit term).
func (f *Factory) ItoaLen(t *Term) *Term {
	if t.IsConst() {
		return f.BV(int64(len(strconv.FormatInt(t.Int(), 10))), 64)
	}
	neg := f.Slt(t, f.BV(0, 64))
	a := f.Ite(neg, f.Neg(t), t) // as unsigned
	n := f.BV(20, 64)
	for i := 19; i >= 1; i-- {
		n = f.Ite(f.Ult(a, f.BV(int64(pow10[i]), 64)), f.BV(int64(i), 64), n)
	}
	return f.Add(n, f.Ite(neg, f.BV(1, 64), f.BV(0, 64)))
}

// Len is the length of s as a 64-bit term.
func (f *Factory) Len(s Str) *Term {
	n := 0
	r := f.BV(0, 64)
	for _, c := range s {
		if c.IsItoa() {
			r = f.Add(r, f.ItoaLen(c.T))
		} else {
			n++
		}
	}
	return f.Add(r, f.BV(int64(n), 64))
}

// Digits expands every itoa element of s into symbolic digit bytes, forking on sign and
// number of digits.
func (p *Path) Digits(s Str) Str {
	if !s.HasItoa() {
		return s
	}
	r := Str{}
	for _, c := range s {
		if !c.IsItoa() {
			r = append(r, c)
			continue
		}
		r = append(r, p.digits(c.T)...)
	}
	return r
}

func (p *Path) digits(t *Term) Str {
	f := p.F
	if t.IsConst() {
		return Lit(strconv.FormatInt(t.Int(), 10))
	}
	r := Str{}
	a := t
	if p.Branch(f.Slt(t, f.BV(0, 64))) {
		r = append(r, Ch{B: '-'})
		a = f.Neg(t)
	}
	n := 1
	for n < 19 && !p.Branch(f.Ult(a, f.BV(int64(pow10[n]), 64))) {
		n++
	}
	if n == 1 {
		return append(r, ByteCh(f.Add(f.Trunc(a, 8), f.BV('0', 8))))
	}
	// fresh digits with their defining equation
	sum := f.BV(0, 64)
	ds := make([]*Term, n)
	for i := 0; i < n; i++ {
		d := f.Var(fmt.Sprintf("dig!%d!%d!%d", t.ID, n, i), 8)
		ds[i] = d
		p.addRaw(f.Ule(d, f.BV(9, 8)))
		sum = f.Add(sum, f.Mul(f.BV(int64(pow10[n-1-i]), 64), f.ZExt(d, 64)))
	}
	p.addRaw(f.Eq(sum, a))
	p.setModel(nil)
	for _, d := range ds {
		r = append(r, ByteCh(f.Add(d, f.BV('0', 8))))
	}
	return r
}

// canonInt: s is the canonical decimal rendering of a constant or one itoa element.
func (f *Factory) canonInt(s Str) (*Term, bool) {
	if len(s) == 1 && s[0].IsItoa() {
		return s[0].T, true
	}
	if c, ok := s.Concrete(); ok {
		if v, err := strconv.ParseInt(c, 10, 64); err == nil && strconv.FormatInt(v, 10) == c {
			return f.BV(v, 64), true
		}
	}
	return nil, false
}

func sameCh(a, b Ch) bool { return a == b }

// StrEq is the condition that a and b are equal (may fork when decimal renderings must be
// compared with other text).
func (p *Path) StrEq(a, b Str) *Term {
	f := p.F
	if !a.HasItoa() && !b.HasItoa() {
		if len(a) != len(b) {
			return f.False
		}
		r := f.True
		for i := range a {
			if a[i] == b[i] {
				continue
			}
			r = f.And(r, f.Eq(f.ByteTerm(a[i]), f.ByteTerm(b[i])))
			if r.IsFalse() {
				return r
			}
		}
		return r
	}
	// strip common prefix / suffix (sound: cancellation in a free monoid)
	for len(a) > 0 && len(b) > 0 && sameCh(a[0], b[0]) {
		a, b = a[1:], b[1:]
	}
	for len(a) > 0 && len(b) > 0 && sameCh(a[len(a)-1], b[len(b)-1]) {
		a, b = a[:len(a)-1], b[:len(b)-1]
	}
	if len(a) == 0 && len(b) == 0 {
		return f.True
	}
	if len(a) == 0 || len(b) == 0 {
		return f.False // an itoa or a byte is never empty
	}
	ta, oka := f.canonInt(a)
	tb, okb := f.canonInt(b)
	if oka && okb {
		return f.Eq(ta, tb)
	}
	if oka && !okb {
		if _, conc := b.Concrete(); conc {
			return f.False
		}
	}
	if okb && !oka {
		if _, conc := a.Concrete(); conc {
			return f.False
		}
	}
	// split both at literal blanks/newlines: decimal renderings never contain them
	if r, ok := p.eqBySeparators(a, b); ok {
		return r
	}
	return p.StrEq(p.Digits(a), p.Digits(b))
}

// eqBySeparators splits at literal non-digit, non-'-' bytes provided no symbolic byte occurs.
func (p *Path) eqBySeparators(a, b Str) (*Term, bool) {
	split := func(s Str) (toks []Str, seps []byte, ok bool) {
		cur := Str{}
		for _, c := range s {
			if c.IsByte() {
				return nil, nil, false
			}
			if c.IsLit() && c.B != '-' && (c.B < '0' || c.B > '9') {
				toks = append(toks, cur)
				seps = append(seps, c.B)
				cur = Str{}
				continue
			}
			cur = append(cur, c)
		}
		return append(toks, cur), seps, true
	}
	ta, sa, ok1 := split(a)
	tb, sb, ok2 := split(b)
	if !ok1 || !ok2 || len(sa) == 0 && len(sb) == 0 {
		return nil, false
	}
	if len(sa) != len(sb) {
		return p.F.False, true
	}
	for i := range sa {
		if sa[i] != sb[i] {
			return p.F.False, true
		}
	}
	r := p.F.True
	for i := range ta {
		r = p.F.And(r, p.StrEq(ta[i], tb[i]))
		if r.IsFalse() {
			return r, true
		}
	}
	return r, true
}

// LastDigit is the last character of the decimal rendering of t (known to be a digit only).
func (p *Path) LastDigit(t *Term) *Term {
	f := p.F
	d := f.Var(fmt.Sprintf("ldig!%d", t.ID), 8)
	p.addRaw(f.Ule(f.BV('0', 8), d))
	p.addRaw(f.Ule(d, f.BV('9', 8)))
	p.fixDigit(d, '7')
	return d
}

// FirstDigit is the first character of the decimal rendering of t: '-' exactly when negative.
func (p *Path) FirstDigit(t *Term) *Term {
	f := p.F
	d := f.Var(fmt.Sprintf("fdig!%d", t.ID), 8)
	neg := f.Slt(t, f.BV(0, 64))
	p.addRaw(f.Ule(f.BV('0', 8), d))
	p.addRaw(f.Ule(d, f.BV('9', 8)))
	p.fixDigit(d, '7')
	return f.Ite(neg, f.BV('-', 8), d)
}

// fixDigit extends a known model to a digit variable introduced with a range only.
func (p *Path) fixDigit(d *Term, v byte) {
	if p.M == nil {
		return
	}
	if _, ok := p.M[d]; ok {
		return
	}
	m := make(Model, len(p.M)+1)
	for k, x := range p.M {
		m[k] = x
	}
	m[d] = uint64(v)
	p.setModel(m)
}
