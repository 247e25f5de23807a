// Package sym: hash-consed bit-vector/boolean terms, an SMT-LIB2 back end (z3 -in) and the
// path explorer used by every symbolic interpreter of this framework.
package sym

import (
	"fmt"
	"strconv"
	"strings"
)

// Op is a term operator.
type Op uint8

const (
	OConst Op = iota // bit-vector or bool constant
	OVar
	ONot
	OAnd
	OOr
	OEq  // any sort
	OIte // any sort
	OAdd
	OSub
	OMul
	OSDiv
	OSRem
	OUDiv
	OURem
	ONeg
	OBNot
	OBAnd
	OBOr
	OBXor
	OShl
	OLShr
	OAShr
	OSlt
	OSle
	OUlt
	OUle
	OSExt // to width W
	OZExt
	OTrunc // low W bits
)

// Term is an immutable hash-consed node. W==0 means Bool.
type Term struct {
	Op   Op
	W    uint8
	V    uint64 // const value (masked)
	Name string // var
	A    [3]*Term
	NA   uint8
	ID   int
	size int32
	uv   *Term // the only variable of the term, if there is exactly one
	mv   bool  // more than one variable
}

type key struct {
	op      Op
	w       uint8
	v       uint64
	name    string
	a, b, c int
}

// Factory owns a term table; not safe for concurrent use.
type Factory struct {
	tab   map[key]*Term
	next  int
	True  *Term
	False *Term
	Vars  []*Term
	tt    map[*Term]dom
	vl    map[*Term][]*Term
	Stop  func() bool // polled now and then; true ends the current job
}

func NewFactory() *Factory {
	f := &Factory{tab: map[key]*Term{}, tt: map[*Term]dom{}, vl: map[*Term][]*Term{}}
	f.True = f.mk(OConst, 0, 1, "")
	f.False = f.mk(OConst, 0, 0, "")
	return f
}

func (f *Factory) mk(op Op, w uint8, v uint64, name string, a ...*Term) *Term {
	k := key{op: op, w: w, v: v, name: name, a: -1, b: -1, c: -1}
	if len(a) > 0 {
		k.a = a[0].ID
	}
	if len(a) > 1 {
		k.b = a[1].ID
	}
	if len(a) > 2 {
		k.c = a[2].ID
	}
	if t, ok := f.tab[k]; ok {
		return t
	}
	t := &Term{Op: op, W: w, V: v, Name: name, NA: uint8(len(a)), ID: f.next, size: 1}
	if op == OVar {
		t.uv = t
	}
	for i, x := range a {
		switch {
		case x.mv || t.uv != nil && x.uv != nil && x.uv != t.uv:
			t.mv = true
		case x.uv != nil:
			t.uv = x.uv
		}
		t.A[i] = x
		t.size += x.size
		if t.size < 0 || t.size > 1<<28 {
			t.size = 1 << 28
		}
	}
	if t.mv {
		t.uv = nil
	}
	f.next++
	f.tab[k] = t
	if f.next&0x7ff == 0 && f.Stop != nil && f.Stop() {
		panic(Abort{"bound", "budget of the job"})
	}
	if op == OVar {
		f.Vars = append(f.Vars, t)
	}
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

// Signed value of a constant.
func (t *Term) Int() int64    { return sx(t.V, t.W) }
func (t *Term) IsConst() bool { return t.Op == OConst }
func (t *Term) IsTrue() bool  { return t.Op == OConst && t.W == 0 && t.V == 1 }
func (t *Term) IsFalse() bool { return t.Op == OConst && t.W == 0 && t.V == 0 }

func (f *Factory) BV(v int64, w uint8) *Term { return f.mk(OConst, w, uint64(v)&mask(w), "") }
func (f *Factory) Bool(b bool) *Term {
	if b {
		return f.True
	}
	return f.False
}

// Var creates (or returns) a variable; w==0 is Bool.
func (f *Factory) Var(name string, w uint8) *Term { return f.mk(OVar, w, 0, name) }

func (f *Factory) Not(a *Term) *Term {
	switch {
	case a.IsTrue():
		return f.False
	case a.IsFalse():
		return f.True
	case a.Op == ONot:
		return a.A[0]
	}
	return f.mk(ONot, 0, 0, "", a)
}

func (f *Factory) And(a, b *Term) *Term {
	if a.IsFalse() || b.IsFalse() {
		return f.False
	}
	if a.IsTrue() {
		return b
	}
	if b.IsTrue() || a == b {
		return a
	}
	if f.Not(a) == b {
		return f.False
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return f.mk(OAnd, 0, 0, "", a, b)
}

func (f *Factory) Or(a, b *Term) *Term {
	if a.IsTrue() || b.IsTrue() {
		return f.True
	}
	if a.IsFalse() {
		return b
	}
	if b.IsFalse() || a == b {
		return a
	}
	if f.Not(a) == b {
		return f.True
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return f.mk(OOr, 0, 0, "", a, b)
}

func (f *Factory) Implies(a, b *Term) *Term { return f.Or(f.Not(a), b) }

func (f *Factory) AndAll(ts ...*Term) *Term {
	r := f.True
	for _, t := range ts {
		r = f.And(r, t)
	}
	return r
}

func (f *Factory) Eq(a, b *Term) *Term {
	if a == b {
		return f.True
	}
	if a.W != b.W {
		panic(fmt.Sprintf("eq width %d %d", a.W, b.W))
	}
	if a.IsConst() && b.IsConst() {
		return f.False // hash-consed, distinct
	}
	if a.W == 0 {
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsTrue() {
			return a
		}
		if b.IsFalse() {
			return f.Not(a)
		}
		if f.Not(a) == b {
			return f.False
		}
	}
	if b.IsConst() {
		a, b = b, a
	}
	if a.IsConst() { // const on the left
		switch b.Op {
		case OIte:
			// ite(c,k1,k2) == k with constant arms
			if b.A[1].IsConst() || b.A[2].IsConst() {
				l, r := f.Eq(a, b.A[1]), f.Eq(a, b.A[2])
				if l.IsConst() || r.IsConst() {
					return f.Ite(b.A[0], l, r)
				}
			}
		case OZExt:
			x := b.A[0]
			if a.V&^mask(x.W) != 0 {
				return f.False
			}
			return f.Eq(f.BV(int64(a.V), x.W), x)
		case OSExt:
			x := b.A[0]
			v := sx(a.V, a.W)
			if sx(uint64(v)&mask(x.W), x.W) != v {
				return f.False
			}
			return f.Eq(f.BV(v, x.W), x)
		case OAdd:
			if b.A[0].IsConst() {
				return f.Eq(f.BV(int64(a.V-b.A[0].V), a.W), b.A[1])
			}
		}
	}
	if a.Op == OZExt && b.Op == OZExt && a.A[0].W == b.A[0].W || a.Op == OSExt && b.Op == OSExt && a.A[0].W == b.A[0].W {
		return f.Eq(a.A[0], b.A[0])
	}
	if a.ID > b.ID && !a.IsConst() {
		a, b = b, a
	}
	return f.mk(OEq, 0, 0, "", a, b)
}

func (f *Factory) Ite(c, a, b *Term) *Term {
	if c.IsTrue() || a == b {
		return a
	}
	if c.IsFalse() {
		return b
	}
	if c.Op == ONot {
		return f.Ite(c.A[0], b, a)
	}
	if a.W == 0 {
		if a.IsTrue() && b.IsFalse() {
			return c
		}
		if a.IsFalse() && b.IsTrue() {
			return f.Not(c)
		}
		if a.IsTrue() {
			return f.Or(c, b)
		}
		if a.IsFalse() {
			return f.And(f.Not(c), b)
		}
		if b.IsTrue() {
			return f.Or(f.Not(c), a)
		}
		if b.IsFalse() {
			return f.And(c, a)
		}
	}
	return f.mk(OIte, a.W, 0, "", c, a, b)
}

func (f *Factory) bin(op Op, a, b *Term) *Term {
	if a.W != b.W {
		panic(fmt.Sprintf("bin %d width %d %d", op, a.W, b.W))
	}
	w := a.W
	if a.IsConst() && b.IsConst() {
		return f.BV(int64(evalBin(op, a.V, b.V, w)), w)
	}
	zero := func(t *Term) bool { return t.IsConst() && t.V == 0 }
	one := func(t *Term) bool { return t.IsConst() && t.V == 1 }
	switch op {
	case OAdd:
		if zero(a) {
			return b
		}
		if zero(b) {
			return a
		}
		if b.IsConst() {
			a, b = b, a
		}
		if a.IsConst() {
			if b.Op == OAdd && b.A[0].IsConst() {
				return f.bin(OAdd, f.BV(int64(a.V+b.A[0].V), w), b.A[1])
			}
		} else {
			// pull constants out
			if a.Op == OAdd && a.A[0].IsConst() {
				return f.bin(OAdd, a.A[0], f.bin(OAdd, a.A[1], b))
			}
			if b.Op == OAdd && b.A[0].IsConst() {
				return f.bin(OAdd, b.A[0], f.bin(OAdd, a, b.A[1]))
			}
			if a.ID > b.ID {
				a, b = b, a
			}
		}
	case OSub:
		if zero(b) {
			return a
		}
		if a == b {
			return f.BV(0, w)
		}
		if b.IsConst() {
			return f.bin(OAdd, f.BV(-int64(b.V), w), a)
		}
		if zero(a) {
			return f.Neg(b)
		}
		// (a - x) with shared constants: (c+x) - x = c
		if a.Op == OAdd && a.A[1] == b {
			return a.A[0]
		}
		if a.Op == OAdd && a.A[0] == b {
			return a.A[1]
		}
		if b.Op == ONeg {
			return f.bin(OAdd, a, b.A[0])
		}
	case OMul:
		if zero(a) || zero(b) {
			return f.BV(0, w)
		}
		if one(a) {
			return b
		}
		if one(b) {
			return a
		}
		if b.IsConst() {
			a, b = b, a
		}
		if !a.IsConst() && a.ID > b.ID {
			a, b = b, a
		}
	case OSDiv, OUDiv:
		if one(b) {
			return a
		}
	case OBAnd:
		if zero(a) || zero(b) {
			return f.BV(0, w)
		}
		if a == b {
			return a
		}
	case OBOr:
		if zero(a) {
			return b
		}
		if zero(b) || a == b {
			return a
		}
	case OShl, OLShr, OAShr:
		if zero(b) {
			return a
		}
	}
	return f.mk(op, w, 0, "", a, b)
}

func (f *Factory) Bin(op Op, a, b *Term) *Term { return f.bin(op, a, b) }
func (f *Factory) Add(a, b *Term) *Term        { return f.bin(OAdd, a, b) }
func (f *Factory) Sub(a, b *Term) *Term        { return f.bin(OSub, a, b) }
func (f *Factory) Mul(a, b *Term) *Term        { return f.bin(OMul, a, b) }

func (f *Factory) Neg(a *Term) *Term {
	if a.IsConst() {
		return f.BV(-int64(a.V), a.W)
	}
	if a.Op == ONeg {
		return a.A[0]
	}
	return f.mk(ONeg, a.W, 0, "", a)
}

func (f *Factory) BNot(a *Term) *Term {
	if a.IsConst() {
		return f.BV(int64(^a.V), a.W)
	}
	return f.mk(OBNot, a.W, 0, "", a)
}

func (f *Factory) cmp(op Op, a, b *Term) *Term {
	if a.W != b.W {
		panic("cmp width")
	}
	if a.IsConst() && b.IsConst() {
		return f.Bool(evalCmp(op, a.V, b.V, a.W))
	}
	if a == b {
		return f.Bool(op == OSle || op == OUle)
	}
	// byte-range simplifications through zero extension
	if a.Op == OZExt && b.Op == OZExt && a.A[0].W == b.A[0].W {
		switch op {
		case OSlt, OUlt:
			return f.cmp(OUlt, a.A[0], b.A[0])
		default:
			return f.cmp(OUle, a.A[0], b.A[0])
		}
	}
	if a.Op == OZExt && b.IsConst() {
		x := a.A[0]
		signed := op == OSlt || op == OSle
		if signed && sx(b.V, b.W) < 0 {
			return f.False
		}
		if b.V > mask(x.W) {
			return f.True
		}
		nop := OUlt
		if op == OSle || op == OUle {
			nop = OUle
		}
		return f.cmp(nop, x, f.BV(int64(b.V), x.W))
	}
	if b.Op == OZExt && a.IsConst() {
		x := b.A[0]
		signed := op == OSlt || op == OSle
		if signed && sx(a.V, a.W) < 0 {
			return f.True
		}
		if a.V > mask(x.W) {
			return f.False
		}
		nop := OUlt
		if op == OSle || op == OUle {
			nop = OUle
		}
		return f.cmp(nop, f.BV(int64(a.V), x.W), x)
	}
	if op == OSlt || op == OSle {
		if a.Op == OSExt && b.Op == OSExt && a.A[0].W == b.A[0].W {
			return f.cmp(op, a.A[0], b.A[0])
		}
		if a.Op == OSExt && b.IsConst() {
			x := a.A[0]
			v := sx(b.V, b.W)
			if sx(uint64(v)&mask(x.W), x.W) == v {
				return f.cmp(op, x, f.BV(v, x.W))
			}
			return f.Bool(v > 0)
		}
		if b.Op == OSExt && a.IsConst() {
			x := b.A[0]
			v := sx(a.V, a.W)
			if sx(uint64(v)&mask(x.W), x.W) == v {
				return f.cmp(op, f.BV(v, x.W), x)
			}
			return f.Bool(v < 0)
		}
	}
	if a.Op == OIte && b.IsConst() && (a.A[1].IsConst() || a.A[2].IsConst()) && a.size < 200 {
		l, r := f.cmp(op, a.A[1], b), f.cmp(op, a.A[2], b)
		if l.IsConst() || r.IsConst() {
			return f.Ite(a.A[0], l, r)
		}
	}
	if b.Op == OIte && a.IsConst() && (b.A[1].IsConst() || b.A[2].IsConst()) && b.size < 200 {
		l, r := f.cmp(op, a, b.A[1]), f.cmp(op, a, b.A[2])
		if l.IsConst() || r.IsConst() {
			return f.Ite(b.A[0], l, r)
		}
	}
	// canonicalise a<=b as !(b<a)
	switch op {
	case OSle:
		return f.Not(f.cmp(OSlt, b, a))
	case OUle:
		return f.Not(f.cmp(OUlt, b, a))
	}
	if op == OUlt {
		if b.IsConst() && b.V == 0 {
			return f.False
		}
		if a.IsConst() && a.V == mask(a.W) {
			return f.False
		}
	}
	return f.mk(op, 0, 0, "", a, b)
}

func (f *Factory) Cmp(op Op, a, b *Term) *Term { return f.cmp(op, a, b) }
func (f *Factory) Slt(a, b *Term) *Term        { return f.cmp(OSlt, a, b) }
func (f *Factory) Sle(a, b *Term) *Term        { return f.cmp(OSle, a, b) }
func (f *Factory) Ult(a, b *Term) *Term        { return f.cmp(OUlt, a, b) }
func (f *Factory) Ule(a, b *Term) *Term        { return f.cmp(OUle, a, b) }

func (f *Factory) SExt(a *Term, w uint8) *Term {
	if a.W == w {
		return a
	}
	if a.IsConst() {
		return f.BV(sx(a.V, a.W), w)
	}
	if a.Op == OIte && a.A[1].IsConst() && a.A[2].IsConst() {
		return f.Ite(a.A[0], f.SExt(a.A[1], w), f.SExt(a.A[2], w))
	}
	if a.Op == OSExt {
		a = a.A[0]
	}
	return f.mk(OSExt, w, 0, "", a)
}

func (f *Factory) ZExt(a *Term, w uint8) *Term {
	if a.W == w {
		return a
	}
	if a.IsConst() {
		return f.BV(int64(a.V), w)
	}
	if a.Op == OIte && a.A[1].IsConst() && a.A[2].IsConst() {
		return f.Ite(a.A[0], f.ZExt(a.A[1], w), f.ZExt(a.A[2], w))
	}
	if a.Op == OZExt {
		return f.ZExt(a.A[0], w)
	}
	return f.mk(OZExt, w, 0, "", a)
}

func (f *Factory) Trunc(a *Term, w uint8) *Term {
	if a.W == w {
		return a
	}
	if a.IsConst() {
		return f.BV(int64(a.V), w)
	}
	if a.Op == OZExt || a.Op == OSExt {
		x := a.A[0]
		if x.W == w {
			return x
		}
		if x.W > w {
			return f.Trunc(x, w)
		}
		if a.Op == OZExt {
			return f.ZExt(x, w)
		}
		return f.SExt(x, w)
	}
	if a.Op == OIte && a.A[1].IsConst() && a.A[2].IsConst() {
		return f.Ite(a.A[0], f.Trunc(a.A[1], w), f.Trunc(a.A[2], w))
	}
	return f.mk(OTrunc, w, 0, "", a)
}

func evalBin(op Op, a, b uint64, w uint8) uint64 {
	m := mask(w)
	var r uint64
	switch op {
	case OAdd:
		r = a + b
	case OSub:
		r = a - b
	case OMul:
		r = a * b
	case OSDiv:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			if x < 0 {
				r = 1
			} else {
				r = ^uint64(0)
			}
		} else if y == -1 {
			r = uint64(-x)
		} else {
			r = uint64(x / y)
		}
	case OSRem:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			r = a
		} else if y == -1 {
			r = 0
		} else {
			r = uint64(x % y)
		}
	case OUDiv:
		if b == 0 {
			r = ^uint64(0)
		} else {
			r = a / b
		}
	case OURem:
		if b == 0 {
			r = a
		} else {
			r = a % b
		}
	case OBAnd:
		r = a & b
	case OBOr:
		r = a | b
	case OBXor:
		r = a ^ b
	case OShl:
		if b >= uint64(w) {
			r = 0
		} else {
			r = a << b
		}
	case OLShr:
		if b >= uint64(w) {
			r = 0
		} else {
			r = a >> b
		}
	case OAShr:
		s := b
		if s >= uint64(w) {
			s = uint64(w) - 1
		}
		r = uint64(sx(a, w) >> s)
	}
	return r & m
}

func evalCmp(op Op, a, b uint64, w uint8) bool {
	switch op {
	case OSlt:
		return sx(a, w) < sx(b, w)
	case OSle:
		return sx(a, w) <= sx(b, w)
	case OUlt:
		return a < b
	case OUle:
		return a <= b
	}
	panic("cmp")
}

// Model assigns constants to variables (missing = 0).
type Model map[*Term]uint64

// Eval evaluates t under m, memoising in cache (may be nil).
func Eval(t *Term, m Model, cache map[*Term]uint64) uint64 {
	switch t.Op {
	case OConst:
		return t.V
	case OVar:
		return m[t]
	}
	if cache != nil {
		if v, ok := cache[t]; ok {
			return v
		}
	} else if t.size > 50 {
		cache = map[*Term]uint64{}
	}
	var r uint64
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.Op {
	case ONot:
		r = 1 - Eval(t.A[0], m, cache)
	case OAnd:
		r = Eval(t.A[0], m, cache)
		if r != 0 {
			r = Eval(t.A[1], m, cache)
		}
	case OOr:
		r = Eval(t.A[0], m, cache)
		if r == 0 {
			r = Eval(t.A[1], m, cache)
		}
	case OEq:
		r = b2u(Eval(t.A[0], m, cache) == Eval(t.A[1], m, cache))
	case OIte:
		if Eval(t.A[0], m, cache) != 0 {
			r = Eval(t.A[1], m, cache)
		} else {
			r = Eval(t.A[2], m, cache)
		}
	case OSlt, OSle, OUlt, OUle:
		r = b2u(evalCmp(t.Op, Eval(t.A[0], m, cache), Eval(t.A[1], m, cache), t.A[0].W))
	case ONeg:
		r = -Eval(t.A[0], m, cache) & mask(t.W)
	case OBNot:
		r = ^Eval(t.A[0], m, cache) & mask(t.W)
	case OSExt:
		r = uint64(sx(Eval(t.A[0], m, cache), t.A[0].W)) & mask(t.W)
	case OZExt:
		r = Eval(t.A[0], m, cache)
	case OTrunc:
		r = Eval(t.A[0], m, cache) & mask(t.W)
	default:
		r = evalBin(t.Op, Eval(t.A[0], m, cache), Eval(t.A[1], m, cache), t.W)
	}
	if cache != nil {
		cache[t] = r
	}
	return r
}

var smtOp = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OAdd: "bvadd", OSub: "bvsub",
	OMul: "bvmul", OSDiv: "bvsdiv", OSRem: "bvsrem", OUDiv: "bvudiv", OURem: "bvurem",
	ONeg: "bvneg", OBNot: "bvnot", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor",
	OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OSlt: "bvslt", OSle: "bvsle", OUlt: "bvult", OUle: "bvule",
}

func smtName(n string) string { return "|" + n + "|" }

func smtSort(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func smtConst(t *Term) string {
	if t.W == 0 {
		if t.V == 1 {
			return "true"
		}
		return "false"
	}
	return "(_ bv" + strconv.FormatUint(t.V, 10) + " " + strconv.Itoa(int(t.W)) + ")"
}

// smtHead renders the operator application given rendered children.
func smtApp(t *Term, kids []string) string {
	var sb strings.Builder
	sb.WriteByte('(')
	switch t.Op {
	case OSExt:
		fmt.Fprintf(&sb, "(_ sign_extend %d)", t.W-t.A[0].W)
	case OZExt:
		fmt.Fprintf(&sb, "(_ zero_extend %d)", t.W-t.A[0].W)
	case OTrunc:
		fmt.Fprintf(&sb, "(_ extract %d 0)", t.W-1)
	default:
		sb.WriteString(smtOp[t.Op])
	}
	for _, k := range kids {
		sb.WriteByte(' ')
		sb.WriteString(k)
	}
	sb.WriteByte(')')
	return sb.String()
}

// String renders small terms for diagnostics.
func (t *Term) String() string {
	switch t.Op {
	case OConst:
		if t.W == 0 {
			return smtConst(t)
		}
		return strconv.FormatInt(t.Int(), 10)
	case OVar:
		return t.Name
	}
	if t.size > 60 {
		return fmt.Sprintf("<%s#%d>", smtOp[t.Op], t.ID)
	}
	kids := []string{}
	for i := 0; i < int(t.NA); i++ {
		kids = append(kids, t.A[i].String())
	}
	return smtApp(t, kids)
}

// Convenience constructors.
func (f *Factory) Ne(a, b *Term) *Term   { return f.Not(f.Eq(a, b)) }
func (f *Factory) BAnd(a, b *Term) *Term { return f.bin(OBAnd, a, b) }
func (f *Factory) BOr(a, b *Term) *Term  { return f.bin(OBOr, a, b) }
func (f *Factory) BXor(a, b *Term) *Term { return f.bin(OBXor, a, b) }
func (f *Factory) SDiv(a, b *Term) *Term { return f.bin(OSDiv, a, b) }
func (f *Factory) SRem(a, b *Term) *Term { return f.bin(OSRem, a, b) }
func (f *Factory) AShr(a, b *Term) *Term { return f.bin(OAShr, a, b) }

// StrKey is a text that identifies s among the strings of this factory.
func (f *Factory) StrKey(s Str) string {
	b := make([]byte, 0, len(s))
	for _, c := range s {
		b = append(b, c.B)
		if c.T != nil {
			b = append(b, fmt.Sprintf("\x00#%d#%d", c.T.ID, c.T.W)...)
		}
	}
	return string(b)
}
