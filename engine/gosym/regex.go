package gosym

import (
	"regexp"
	"regexp/syntax"
	"sync"

	"golang.org/x/tools/go/ssa"

	"verif/sym"
)

type reObj struct {
	re  *regexp.Regexp
	src string
	ast *syntax.Regexp
}

var reCache sync.Map

func getRe(s string) (*reObj, error) {
	if r, ok := reCache.Load(s); ok {
		return r.(*reObj), nil
	}
	re, err := regexp.Compile(s)
	if err != nil {
		return nil, err
	}
	ast, err := syntax.Parse(s, syntax.Perl)
	if err != nil {
		return nil, err
	}
	o := &reObj{re, s, ast.Simplify()}
	reCache.Store(s, o)
	return o, nil
}

func reOf(v Value) *reObj { return (*v.(*Value)).(*Native).V.(*reObj) }

// rmatch is a backtracking matcher over symbolic bytes (leftmost-first semantics, ASCII
// classes; every test on a symbolic byte is a path branch).
type rmatch struct {
	m     *Machine
	s     sym.Str
	cap   []int
	steps int
	wide  bool // inside a repetition over a class with every non-ASCII character: advance by bytes
}

func (r *rmatch) width(i int) int {
	if r.s[i].T == nil && r.s[i].B >= 0x80 {
		_, n := r.m.decodeRune(r.s[i:])
		return n
	}
	return 1
}

// run matches re at i and calls k with the end position.
func (r *rmatch) run(re *syntax.Regexp, i int, k func(i int) bool) bool {
	r.steps++
	if r.steps > 2_000_000 {
		r.m.Path.Bound("regexp steps")
	}
	m := r.m
	switch re.Op {
	case syntax.OpNoMatch:
		return false
	case syntax.OpEmptyMatch:
		return k(i)
	case syntax.OpLiteral:
		for _, c := range re.Rune {
			for _, b := range []byte(string(c)) {
				if i >= len(r.s) {
					return false
				}
				t := m.F.Eq(m.F.ByteTerm(r.s[i]), m.F.BV(int64(b), 8))
				if re.Flags&syntax.FoldCase != 0 && (b|32) >= 'a' && (b|32) <= 'z' {
					t = m.F.Or(t, m.F.Eq(m.F.ByteTerm(r.s[i]), m.F.BV(int64(b^32), 8)))
				}
				if !m.Path.Branch(t) {
					return false
				}
				i++
			}
		}
		return k(i)
	case syntax.OpCharClass, syntax.OpAnyCharNotNL, syntax.OpAnyChar:
		if i >= len(r.s) {
			return false
		}
		ranges := re.Rune
		if re.Op == syntax.OpAnyChar {
			ranges = []rune{0, 0x10FFFF}
		} else if re.Op == syntax.OpAnyCharNotNL {
			ranges = []rune{0, 9, 11, 0x10FFFF}
		}
		c := r.s[i]
		if c.T == nil {
			v, n := m.decodeRune(r.s[i:])
			rv, ok := v.(int64)
			if !ok {
				rv = m.concInt(v)
			}
			for j := 0; j < len(ranges); j += 2 {
				if rune(rv) >= ranges[j] && rune(rv) <= ranges[j+1] {
					return k(i + n)
				}
			}
			return false
		}
		t := m.F.False
		high, all := false, false // the class reaches beyond ASCII; it contains everything beyond ASCII
		for j := 0; j < len(ranges); j += 2 {
			lo, hi := ranges[j], ranges[j+1]
			if hi >= 0x80 {
				high = true
				all = all || lo <= 0x80 && hi == 0x10FFFF
				hi = 0x7f
			}
			if lo <= hi {
				t = m.F.Or(t, m.F.And(m.F.Ule(m.F.BV(int64(lo), 8), c.T), m.F.Ule(c.T, m.F.BV(int64(hi), 8))))
			}
		}
		if all && r.wide {
			if !m.Path.Branch(m.F.Or(t, m.F.Ule(m.F.BV(0x80, 8), c.T))) {
				return false
			}
			return k(i + 1)
		}
		if high && m.Path.Branch(m.F.Ule(m.F.BV(0x80, 8), c.T)) {
			v, n := m.decodeRune(r.s[i:])
			if all {
				return k(i + n)
			}
			rv := m.concInt(v)
			for j := 0; j < len(ranges); j += 2 {
				if rune(rv) >= ranges[j] && rune(rv) <= ranges[j+1] {
					return k(i + n)
				}
			}
			return false
		}
		if !m.Path.Branch(t) {
			return false
		}
		return k(i + 1)
	case syntax.OpBeginText:
		return i == 0 && k(i)
	case syntax.OpEndText:
		return i == len(r.s) && k(i)
	case syntax.OpBeginLine:
		return (i == 0 || m.Path.Branch(m.F.Eq(m.F.ByteTerm(r.s[i-1]), m.F.BV('\n', 8)))) && k(i)
	case syntax.OpEndLine:
		return (i == len(r.s) || m.Path.Branch(m.F.Eq(m.F.ByteTerm(r.s[i]), m.F.BV('\n', 8)))) && k(i)
	case syntax.OpWordBoundary, syntax.OpNoWordBoundary:
		w := func(j int) bool {
			if j < 0 || j >= len(r.s) {
				return false
			}
			t := m.F.ByteTerm(r.s[j])
			rg := func(a, b byte) *sym.Term {
				return m.F.And(m.F.Ule(m.F.BV(int64(a), 8), t), m.F.Ule(t, m.F.BV(int64(b), 8)))
			}
			return m.Path.Branch(m.F.Or(m.F.Or(rg('a', 'z'), rg('A', 'Z')), m.F.Or(rg('0', '9'), m.F.Eq(t, m.F.BV('_', 8)))))
		}
		if (w(i-1) != w(i)) == (re.Op == syntax.OpWordBoundary) {
			return k(i)
		}
		return false
	case syntax.OpCapture:
		o0, o1 := r.cap[2*re.Cap], r.cap[2*re.Cap+1]
		st := i
		if r.run(re.Sub[0], i, func(j int) bool {
			p0, p1 := r.cap[2*re.Cap], r.cap[2*re.Cap+1]
			r.cap[2*re.Cap], r.cap[2*re.Cap+1] = st, j
			if k(j) {
				return true
			}
			r.cap[2*re.Cap], r.cap[2*re.Cap+1] = p0, p1
			return false
		}) {
			return true
		}
		r.cap[2*re.Cap], r.cap[2*re.Cap+1] = o0, o1
		return false
	case syntax.OpConcat:
		var seq func(n, i int) bool
		seq = func(n, i int) bool {
			if n == len(re.Sub) {
				return k(i)
			}
			return r.run(re.Sub[n], i, func(j int) bool { return seq(n+1, j) })
		}
		return seq(0, i)
	case syntax.OpAlternate:
		for _, s := range re.Sub {
			if r.run(s, i, k) {
				return true
			}
		}
		return false
	case syntax.OpQuest:
		lazy := re.Flags&syntax.NonGreedy != 0
		if lazy {
			return k(i) || r.run(re.Sub[0], i, k)
		}
		return r.run(re.Sub[0], i, k) || k(i)
	case syntax.OpStar, syntax.OpPlus:
		lazy := re.Flags&syntax.NonGreedy != 0
		step := func(i int, k func(int) bool) bool {
			old := r.wide
			r.wide = true
			ok := r.run(re.Sub[0], i, func(j int) bool {
				r.wide = old
				if k(j) {
					return true
				}
				r.wide = true
				return false
			})
			r.wide = old
			return ok
		}
		if op := re.Sub[0].Op; op != syntax.OpCharClass && op != syntax.OpAnyChar && op != syntax.OpAnyCharNotNL {
			step = func(i int, k func(int) bool) bool { return r.run(re.Sub[0], i, k) }
		}
		// single-byte greedy loops followed by a continuation: iterate without recursion
		var loop func(i int, min int) bool
		loop = func(i int, min int) bool {
			more := func() bool {
				return step(i, func(j int) bool {
					if j == i {
						return false
					}
					return loop(j, 0)
				})
			}
			if min > 0 {
				return step(i, func(j int) bool {
					if j == i {
						return k(j)
					}
					return loop(j, 0)
				})
			}
			if lazy {
				return k(i) || more()
			}
			return more() || k(i)
		}
		mn := 0
		if re.Op == syntax.OpPlus {
			mn = 1
		}
		return loop(i, mn)
	case syntax.OpRepeat:
		var rep func(n, i int) bool
		rep = func(n, i int) bool {
			if n < re.Min {
				return r.run(re.Sub[0], i, func(j int) bool { return rep(n+1, j) })
			}
			if re.Max >= 0 && n >= re.Max {
				return k(i)
			}
			return r.run(re.Sub[0], i, func(j int) bool { return j != i && rep(n+1, j) }) || k(i)
		}
		return rep(0, i)
	}
	m.Path.Unsupported("regexp op %v", re.Op)
	return false
}

// reFind returns capture positions of the leftmost match starting at or after from.
func (m *Machine) reFind(o *reObj, v Value, from int) (sym.Str, []int) {
	if s, ok := v.(string); ok && from == 0 {
		return sym.Lit(s), o.re.FindStringSubmatchIndex(s)
	}
	s := m.Path.Digits(toStr(v))
	nc := o.re.NumSubexp() + 1
	anch := anchored(o.ast)
	for i := from; i <= len(s); i++ {
		r := &rmatch{m: m, s: s, cap: make([]int, 2*nc)}
		for j := range r.cap {
			r.cap[j] = -1
		}
		end := -1
		if r.run(o.ast, i, func(j int) bool { end = j; return true }) {
			r.cap[0], r.cap[1] = i, end
			return s, r.cap
		}
		if anch {
			break
		}
	}
	return s, nil
}

func anchored(re *syntax.Regexp) bool {
	switch re.Op {
	case syntax.OpBeginText:
		return true
	case syntax.OpConcat:
		return len(re.Sub) > 0 && anchored(re.Sub[0])
	case syntax.OpCapture:
		return anchored(re.Sub[0])
	case syntax.OpAlternate:
		for _, s := range re.Sub {
			if !anchored(s) {
				return false
			}
		}
		return true
	}
	return false
}

// reFindConc avoids converting long concrete texts.
func (m *Machine) reSub(o *reObj, v Value) (Value, []int, func(a, b int) Value) {
	if s, ok := v.(string); ok {
		return v, o.re.FindStringSubmatchIndex(s), func(a, b int) Value { return s[a:b] }
	}
	s, c := m.reFind(o, v, 0)
	return v, c, func(a, b int) Value { return mkStr(s[a:b]) }
}

func initRegexp() {
	comp := func(m *Machine, a []Value) (Value, error) {
		o, err := getRe(m.concStr(a[0]))
		if err != nil {
			return nil, err
		}
		p := new(Value)
		*p = &Native{o}
		return p, nil
	}
	def("regexp.MustCompile", func(m *Machine, a []Value) Value {
		p, err := comp(m, a)
		if err != nil {
			m.rtPanic("regexp: Compile: %s", err)
		}
		return p
	})
	def("regexp.Compile", func(m *Machine, a []Value) Value {
		p, err := comp(m, a)
		if err != nil {
			return Tuple{(*Value)(nil), m.NewError(err.Error())}
		}
		return Tuple{p, Iface{}}
	})
	native("regexp.QuoteMeta", regexp.QuoteMeta)
	def("regexp.MatchString", func(m *Machine, a []Value) Value {
		p, err := comp(m, a)
		if err != nil {
			return Tuple{false, m.NewError(err.Error())}
		}
		_, c, _ := m.reSub(reOf(p), a[1])
		return Tuple{c != nil, Iface{}}
	})
	R := "(*regexp.Regexp)."
	def(R+"MatchString", func(m *Machine, a []Value) Value { _, c, _ := m.reSub(reOf(a[0]), a[1]); return c != nil })
	def(R+"String", func(m *Machine, a []Value) Value { return reOf(a[0]).src })
	def(R+"FindString", func(m *Machine, a []Value) Value {
		_, c, sl := m.reSub(reOf(a[0]), a[1])
		if c == nil {
			return ""
		}
		return sl(c[0], c[1])
	})
	def(R+"FindStringIndex", func(m *Machine, a []Value) Value {
		_, c, _ := m.reSub(reOf(a[0]), a[1])
		if c == nil {
			return Slice(nil)
		}
		return Slice{int64(c[0]), int64(c[1])}
	})
	def(R+"FindStringSubmatch", func(m *Machine, a []Value) Value {
		_, c, sl := m.reSub(reOf(a[0]), a[1])
		if c == nil {
			return Slice(nil)
		}
		r := Slice{}
		for i := 0; i < len(c); i += 2 {
			if c[i] < 0 {
				r = append(r, "")
			} else {
				r = append(r, sl(c[i], c[i+1]))
			}
		}
		return r
	})
	def(R+"FindStringSubmatchIndex", func(m *Machine, a []Value) Value {
		_, c, _ := m.reSub(reOf(a[0]), a[1])
		if c == nil {
			return Slice(nil)
		}
		r := Slice{}
		for _, x := range c {
			r = append(r, int64(x))
		}
		return r
	})
	repl := func(lit bool) func(m *Machine, a []Value) Value {
		return func(m *Machine, a []Value) Value {
			o := reOf(a[0])
			if s, ok := a[1].(string); ok {
				if t, ok := a[2].(string); ok {
					if lit {
						return o.re.ReplaceAllLiteralString(s, t)
					}
					return o.re.ReplaceAllString(s, t)
				}
			}
			s := m.Path.Digits(toStr(a[1]))
			rep := toStr(a[2])
			out := sym.Str{}
			pos, search := 0, 0
			for search <= len(s) {
				_, c := m.reFind(o, &RStr{S: s}, search)
				if c == nil {
					break
				}
				out = append(out, s[pos:c[0]]...)
				for i := 0; i < len(rep); i++ {
					if !lit && rep[i].IsLit() && rep[i].B == '$' && i+1 < len(rep) && rep[i+1].IsLit() {
						d := rep[i+1].B
						if d >= '0' && d <= '9' {
							if g := 2 * int(d-'0'); g < len(c) && c[g] >= 0 {
								out = append(out, s[c[g]:c[g+1]]...)
							}
							i++
							continue
						}
						m.Path.Unsupported("regexp template")
					}
					out = append(out, rep[i])
				}
				pos = c[1]
				search = c[1]
				if c[0] == c[1] {
					if search < len(s) {
						out = append(out, s[search])
						pos = search + 1
					}
					search++
				}
			}
			if pos <= len(s) {
				out = append(out, s[pos:]...)
			}
			return mkStr(out)
		}
	}
	def(R+"ReplaceAllString", repl(false))
	def(R+"ReplaceAllLiteralString", repl(true))
	def(R+"FindAllString", func(m *Machine, a []Value) Value {
		o := reOf(a[0])
		n := m.concInt(a[2])
		s := m.Path.Digits(toStr(a[1]))
		r := Slice(nil)
		pos := 0
		for pos <= len(s) && (n < 0 || int64(len(r)) < n) {
			_, c := m.reFind(o, &RStr{S: s}, pos)
			if c == nil {
				break
			}
			r = append(r, mkStr(s[c[0]:c[1]]))
			pos = c[1]
			if c[0] == c[1] {
				pos++
			}
		}
		return r
	})
}

var _ ssa.Value
