package bashsym

import (
	"strconv"

	"verif/sym"
)

// arithWord expands and evaluates an arithmetic word.
func (in *Interp) arithWord(w *Word) *sym.Term {
	return in.arithStr(in.expandString(w))
}

func (in *Interp) arithWordOpt(w *Word) *sym.Term {
	s := in.expandString(w)
	blank := true
	for _, c := range s {
		if !(c.IsLit() && (isBlank(c.B) || c.B == '\n')) {
			blank = false
		}
	}
	if blank {
		return nil
	}
	return in.arithStr(s)
}

type arith struct {
	in    *Interp
	f     *sym.Factory
	s     sym.Str
	pos   int
	noev  int // >0: parse only
	depth int
}

func (in *Interp) arithStr(s sym.Str) *sym.Term { return in.arithDepth(s, 0) }

func (in *Interp) arithDepth(s sym.Str, depth int) *sym.Term {
	if depth > 20 {
		in.P.Bound("arithmetic recursion")
	}
	if len(s) == 1 && s[0].IsItoa() {
		return s[0].T
	}
	// symbolic bytes must be decided to be tokenised
	t := make(sym.Str, len(s))
	copy(t, s)
	a := &arith{in: in, f: in.F, s: t, depth: depth}
	a.ws()
	if a.end() {
		return in.F.BV(0, 64)
	}
	v := a.comma()
	a.ws()
	if !a.end() {
		a.err("syntax error in expression")
	}
	return v
}

func (a *arith) err(msg string) {
	a.in.err(sym.Cat(a.s, sym.Lit(": "+msg)))
	panic(discard{})
}

func (a *arith) end() bool { return a.pos >= len(a.s) }

func (a *arith) at(i int) byte {
	k := a.pos + i
	if k >= len(a.s) {
		return 0
	}
	c := a.s[k]
	if c.IsLit() {
		return c.B
	}
	if c.IsItoa() {
		return 1 // atom marker
	}
	b := byte(a.in.P.Concretize(c.T, 256))
	a.s[k] = sym.Ch{B: b}
	return b
}

func (a *arith) ws() {
	for !a.end() {
		switch a.at(0) {
		case ' ', '\t', '\n', '\r':
			a.pos++
			continue
		}
		return
	}
}

func (a *arith) op(s string) bool {
	a.ws()
	for i := 0; i < len(s); i++ {
		if a.at(i) != s[i] {
			return false
		}
	}
	a.pos += len(s)
	return true
}

func (a *arith) peekOp(s string, notAfter string) bool {
	a.ws()
	for i := 0; i < len(s); i++ {
		if a.at(i) != s[i] {
			return false
		}
	}
	n := a.at(len(s))
	for i := 0; i < len(notAfter); i++ {
		if n == notAfter[i] {
			return false
		}
	}
	return true
}

func (a *arith) comma() *sym.Term {
	v := a.assign()
	for a.op(",") {
		v = a.assign()
	}
	return v
}

func (a *arith) b2i(c *sym.Term) *sym.Term {
	return a.f.Ite(c, a.f.BV(1, 64), a.f.BV(0, 64))
}

func (a *arith) truth(t *sym.Term) *sym.Term { return a.f.Ne(t, a.f.BV(0, 64)) }

type lv struct {
	name string
	sub  *sym.Term
}

func (a *arith) load(l lv) *sym.Term {
	if a.noev > 0 {
		return a.f.BV(0, 64)
	}
	if l.sub != nil {
		v := a.in.lookup(l.name)
		i := int64(a.in.P.Concretize(l.sub, 64))
		var s sym.Str
		if v != nil {
			if v.IsArr {
				s = v.Arr[i]
			} else if i == 0 {
				s = v.S
			}
		}
		return a.in.arithDepth(s, a.depth+1)
	}
	s, _ := a.in.get(l.name)
	return a.in.arithDepth(s, a.depth+1)
}

func (a *arith) store(l lv, t *sym.Term) {
	if a.noev > 0 {
		return
	}
	if l.sub != nil {
		i := int64(a.in.P.Concretize(l.sub, 64))
		v := a.in.lvalue(l.name)
		a.in.toArray(v)
		v.Arr[i] = sym.Itoa(t)
		v.Set = true
		return
	}
	a.in.setVar(l.name, sym.Itoa(t))
}

// lval tries to parse a variable reference.
func (a *arith) lval() (lv, bool) {
	a.ws()
	if !isNameStart(a.at(0)) {
		return lv{}, false
	}
	st := a.pos
	for isNameCh(a.at(0)) {
		a.pos++
	}
	if a.at(0) == 1 {
		a.in.P.Unsupported("name followed by a decimal rendering")
	}
	n, _ := a.s[st:a.pos].Concrete()
	l := lv{name: n}
	if a.at(0) == '[' {
		a.pos++
		if v := a.in.lookup(n); v != nil && v.Assoc != nil {
			a.in.P.Unsupported("associative subscript in arithmetic")
		}
		l.sub = a.comma()
		if !a.op("]") {
			a.err("bad array subscript")
		}
	}
	return l, true
}

func (a *arith) assign() *sym.Term {
	a.ws()
	save := a.pos
	if isNameStart(a.at(0)) {
		l, _ := a.lval()
		a.ws()
		for _, o := range []string{"<<=", ">>=", "*=", "/=", "%=", "+=", "-=", "&=", "^=", "|="} {
			if a.op(o) {
				r := a.assign()
				v := a.binop(o[:len(o)-1], a.load(l), r)
				a.store(l, v)
				return v
			}
		}
		if a.peekOp("=", "=") {
			a.pos++
			v := a.assign()
			a.store(l, v)
			return v
		}
		a.pos = save
	}
	return a.ternary()
}

func (a *arith) ternary() *sym.Term {
	c := a.lor()
	if !a.op("?") {
		return c
	}
	cond := a.truth(c)
	if cond.IsConst() {
		if cond.IsTrue() {
			v := a.assign()
			if !a.op(":") {
				a.err("':' expected for conditional expression")
			}
			a.noev++
			a.ternary()
			a.noev--
			return v
		}
		a.noev++
		a.assign()
		a.noev--
		if !a.op(":") {
			a.err("':' expected for conditional expression")
		}
		return a.ternary()
	}
	if a.noev == 0 && a.hasEffect() {
		if a.in.P.Branch(cond) {
			v := a.assign()
			if !a.op(":") {
				a.err("':' expected")
			}
			a.noev++
			a.ternary()
			a.noev--
			return v
		}
		a.noev++
		a.assign()
		a.noev--
		if !a.op(":") {
			a.err("':' expected")
		}
		return a.ternary()
	}
	v := a.assign()
	if !a.op(":") {
		a.err("':' expected for conditional expression")
	}
	w := a.ternary()
	return a.f.Ite(cond, v, w)
}

// hasEffect: the remaining text may assign or divide.
func (a *arith) hasEffect() bool {
	for _, c := range a.s[a.pos:] {
		if c.IsLit() {
			switch c.B {
			case '=', '/', '%':
				return true
			case '+', '-':
				return true
			}
		}
	}
	return false
}

func (a *arith) lor() *sym.Term {
	l := a.land()
	for a.op("||") {
		c := a.truth(l)
		l = a.b2i(a.shortc(c, true, a.land))
	}
	return l
}

func (a *arith) land() *sym.Term {
	l := a.bor()
	for a.op("&&") {
		c := a.truth(l)
		l = a.b2i(a.shortc(c, false, a.bor))
	}
	return l
}

// shortc evaluates the right operand of a short-circuit operator.
func (a *arith) shortc(c *sym.Term, or bool, rhs func() *sym.Term) *sym.Term {
	skip := func() *sym.Term {
		a.noev++
		rhs()
		a.noev--
		return a.f.Bool(or)
	}
	if c.IsConst() {
		if c.IsTrue() == or {
			return skip()
		}
		return a.truth(rhs())
	}
	if a.noev == 0 && a.hasEffect() {
		if a.in.P.Branch(c) == or {
			return skip()
		}
		return a.truth(rhs())
	}
	r := a.truth(rhs())
	if or {
		return a.f.Or(c, r)
	}
	return a.f.And(c, r)
}

func (a *arith) bor() *sym.Term {
	l := a.bxor()
	for a.peekOp("|", "|=") {
		a.pos++
		l = a.f.BOr(l, a.bxor())
	}
	return l
}

func (a *arith) bxor() *sym.Term {
	l := a.band()
	for a.peekOp("^", "=") {
		a.pos++
		l = a.f.BXor(l, a.band())
	}
	return l
}

func (a *arith) band() *sym.Term {
	l := a.eq()
	for a.peekOp("&", "&=") {
		a.pos++
		l = a.f.BAnd(l, a.eq())
	}
	return l
}

func (a *arith) eq() *sym.Term {
	l := a.rel()
	for {
		switch {
		case a.op("=="):
			l = a.b2i(a.f.Eq(l, a.rel()))
		case a.op("!="):
			l = a.b2i(a.f.Ne(l, a.rel()))
		default:
			return l
		}
	}
}

func (a *arith) rel() *sym.Term {
	l := a.shift()
	for {
		switch {
		case a.op("<="):
			l = a.b2i(a.f.Sle(l, a.shift()))
		case a.op(">="):
			r := a.shift()
			l = a.b2i(a.f.Sle(r, l))
		case a.peekOp("<", "<="):
			a.pos++
			l = a.b2i(a.f.Slt(l, a.shift()))
		case a.peekOp(">", ">="):
			a.pos++
			r := a.shift()
			l = a.b2i(a.f.Slt(r, l))
		default:
			return l
		}
	}
}

func (a *arith) shift() *sym.Term {
	l := a.add()
	for {
		switch {
		case a.peekOp("<<", "="):
			a.pos += 2
			l = a.binop("<<", l, a.add())
		case a.peekOp(">>", "="):
			a.pos += 2
			l = a.binop(">>", l, a.add())
		default:
			return l
		}
	}
}

func (a *arith) add() *sym.Term {
	l := a.mul()
	for {
		switch {
		case a.peekOp("+", "="):
			a.pos++
			l = a.f.Add(l, a.mul())
		case a.peekOp("-", "="):
			a.pos++
			l = a.f.Sub(l, a.mul())
		default:
			return l
		}
	}
}

func (a *arith) mul() *sym.Term {
	l := a.pow()
	for {
		switch {
		case a.peekOp("*", "=*"):
			a.pos++
			l = a.f.Mul(l, a.pow())
		case a.peekOp("/", "="):
			a.pos++
			l = a.binop("/", l, a.pow())
		case a.peekOp("%", "="):
			a.pos++
			l = a.binop("%", l, a.pow())
		default:
			return l
		}
	}
}

func (a *arith) pow() *sym.Term {
	l := a.unary()
	if a.op("**") {
		r := a.pow()
		if a.noev > 0 {
			return a.f.BV(0, 64)
		}
		n := int64(a.in.P.Concretize(r, 70))
		if n < 0 {
			a.err("exponent less than 0")
		}
		if n > 64 {
			a.in.P.Bound("exponent")
		}
		v := a.f.BV(1, 64)
		for i := int64(0); i < n; i++ {
			v = a.f.Mul(v, l)
		}
		return v
	}
	return l
}

func (a *arith) binop(o string, l, r *sym.Term) *sym.Term {
	f := a.f
	switch o {
	case "+":
		return f.Add(l, r)
	case "-":
		return f.Sub(l, r)
	case "*":
		return f.Mul(l, r)
	case "/", "%":
		if a.noev > 0 {
			return f.BV(0, 64)
		}
		if a.in.P.Branch(f.Eq(r, f.BV(0, 64))) {
			a.err("division by 0")
		}
		if o == "/" {
			return f.SDiv(l, r)
		}
		return f.SRem(l, r)
	case "&":
		return f.BAnd(l, r)
	case "|":
		return f.BOr(l, r)
	case "^":
		return f.BXor(l, r)
	case "<<", ">>":
		if a.noev > 0 {
			return f.BV(0, 64)
		}
		n := a.in.P.Concretize(r, 70) & 63
		if o == "<<" {
			return f.Mul(l, f.BV(int64(uint64(1)<<n), 64))
		}
		return f.AShr(l, f.BV(int64(n), 64))
	}
	panic("binop " + o)
}

func (a *arith) unary() *sym.Term {
	a.ws()
	switch b := a.at(0); b {
	case '!':
		if a.at(1) != '=' {
			a.pos++
			return a.b2i(a.f.Eq(a.unary(), a.f.BV(0, 64)))
		}
	case '~':
		a.pos++
		return a.f.Sub(a.f.Neg(a.unary()), a.f.BV(1, 64))
	case '-', '+':
		if a.at(1) == b {
			// prefix increment only before a name
			save := a.pos
			a.pos += 2
			if l, ok := a.lval(); ok {
				v := a.f.Add(a.load(l), a.f.BV(1, 64))
				if b == '-' {
					v = a.f.Sub(a.load(l), a.f.BV(1, 64))
				}
				a.store(l, v)
				return v
			}
			a.pos = save
		}
		a.pos++
		v := a.unary()
		if b == '-' {
			return a.f.Neg(v)
		}
		return v
	}
	return a.primary()
}

func (a *arith) primary() *sym.Term {
	a.ws()
	if a.end() {
		a.err("syntax error: operand expected")
	}
	b := a.at(0)
	switch {
	case b == 1 && a.s[a.pos].IsItoa():
		t := a.s[a.pos].T
		a.pos++
		if n := a.at(0); n == 1 || isNameCh(n) {
			a.in.P.Unsupported("text glued to a decimal rendering")
		}
		return t
	case b == '(':
		a.pos++
		v := a.comma()
		if !a.op(")") {
			a.err("missing `)'")
		}
		return v
	case isDigit(b):
		st := a.pos
		for isNameCh(a.at(0)) || a.at(0) == '#' || a.at(0) == '@' {
			a.pos++
		}
		if a.at(0) == 1 {
			a.in.P.Unsupported("digit glued to a decimal rendering")
		}
		c, _ := a.s[st:a.pos].Concrete()
		v, ok := parseBashInt(c)
		if !ok {
			a.err("value too great for base")
		}
		return a.f.BV(v, 64)
	case isNameStart(b):
		l, _ := a.lval()
		if a.peekOp("++", "") || a.peekOp("--", "") {
			inc := a.at(0) == '+'
			a.pos += 2
			v := a.load(l)
			if inc {
				a.store(l, a.f.Add(v, a.f.BV(1, 64)))
			} else {
				a.store(l, a.f.Sub(v, a.f.BV(1, 64)))
			}
			return v
		}
		return a.load(l)
	}
	a.err("syntax error: operand expected")
	return nil
}

// parseBashInt parses a bash integer constant (decimal wraps around).
func parseBashInt(c string) (int64, bool) {
	base := uint64(10)
	if len(c) > 1 && c[0] == '0' {
		if c[1] == 'x' || c[1] == 'X' {
			base = 16
			c = c[2:]
		} else {
			base = 8
			c = c[1:]
		}
	}
	for i := 0; i < len(c); i++ {
		if c[i] == '#' {
			n, err := strconv.Atoi(c[:i])
			if err != nil || n < 2 || n > 36 {
				return 0, false
			}
			base = uint64(n)
			c = c[i+1:]
			break
		}
	}
	v := uint64(0)
	for i := 0; i < len(c); i++ {
		var d uint64
		switch b := c[i]; {
		case isDigit(b):
			d = uint64(b - '0')
		case b >= 'a' && b <= 'z':
			d = uint64(b-'a') + 10
		case b >= 'A' && b <= 'Z':
			d = uint64(b-'A') + 10
		default:
			return 0, false
		}
		if d >= base {
			return 0, false
		}
		v = v*base + d
	}
	return int64(v), true
}
