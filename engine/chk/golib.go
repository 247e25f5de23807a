package chk

import (
	"fmt"
	"strings"

	"verif/sym"
)

// The functions of Go's package strings on symbolic strings. Every function forks on the equality of
// bytes. CheckGolib compares them with package strings itself.

type golib struct{ p *sym.Path }

func (g golib) eq(a, b sym.Str) bool {
	return len(a) == len(b) && g.p.Branch(g.p.StrEq(a, b))
}

func (g golib) index(s, sub sym.Str) int {
	for i := 0; i+len(sub) <= len(s); i++ {
		if g.eq(s[i:i+len(sub)], sub) {
			return i
		}
	}
	return -1
}

func (g golib) count(s, sub sym.Str) int {
	if len(sub) == 0 {
		return len(s) + 1
	}
	n := 0
	for {
		i := g.index(s, sub)
		if i < 0 {
			return n
		}
		n++
		s = s[i+len(sub):]
	}
}

func (g golib) split(s, sep sym.Str) []sym.Str {
	r := []sym.Str{}
	if len(sep) == 0 {
		for i := range s {
			r = append(r, s[i:i+1])
		}
		return r
	}
	for {
		i := g.index(s, sep)
		if i < 0 {
			return append(r, s)
		}
		r = append(r, s[:i])
		s = s[i+len(sep):]
	}
}

func (g golib) replace(s, old, new sym.Str, n int) sym.Str {
	var out sym.Str
	for start, i := 0, 0; ; i++ {
		if n >= 0 && i >= n {
			return sym.Cat(out, s[start:])
		}
		j := 0
		if len(old) == 0 {
			if i > 0 {
				if start == len(s) {
					return out
				}
				j = 1
			}
		} else {
			j = g.index(s[start:], old)
			if j < 0 {
				return sym.Cat(out, s[start:])
			}
		}
		out = sym.Cat(out, s[start:start+j], new)
		start += j + len(old)
	}
}

func (g golib) in(c sym.Ch, set sym.Str) bool {
	for _, x := range set {
		if g.eq(sym.Str{c}, sym.Str{x}) {
			return true
		}
	}
	return false
}

func (g golib) trimLeft(s, set sym.Str) sym.Str {
	for len(s) > 0 && g.in(s[0], set) {
		s = s[1:]
	}
	return s
}

func (g golib) trimRight(s, set sym.Str) sym.Str {
	for len(s) > 0 && g.in(s[len(s)-1], set) {
		s = s[:len(s)-1]
	}
	return s
}

func (g golib) hasPrefix(s, x sym.Str) bool { return len(s) >= len(x) && g.eq(s[:len(x)], x) }
func (g golib) hasSuffix(s, x sym.Str) bool { return len(s) >= len(x) && g.eq(s[len(s)-len(x):], x) }

// golibCall renders the result of strings.name in the way the generated programs print it.
func golibCall(p *sym.Path, name string, a []sym.Str, n int) sym.Str {
	g := golib{p}
	num := func(n int) sym.Str { return sym.Lit(fmt.Sprintf("%d\n", n)) }
	boo := func(b bool) sym.Str {
		if b {
			return sym.Lit("1\n")
		}
		return sym.Lit("0\n")
	}
	str := func(s sym.Str) sym.Str { return sym.Cat(sym.Lit("["), s, sym.Lit("]\n")) }
	switch name {
	case "Index":
		return num(g.index(a[0], a[1]))
	case "Contains":
		return boo(g.index(a[0], a[1]) >= 0)
	case "HasPrefix":
		return boo(g.hasPrefix(a[0], a[1]))
	case "HasSuffix":
		return boo(g.hasSuffix(a[0], a[1]))
	case "Count":
		return num(g.count(a[0], a[1]))
	case "Split":
		l := g.split(a[0], a[1])
		o := num(len(l))
		for _, x := range l {
			o = sym.Cat(o, str(x))
		}
		return o
	case "Join":
		var o sym.Str
		for i, x := range a[1:] {
			if i > 0 {
				o = sym.Cat(o, a[0])
			}
			o = sym.Cat(o, x)
		}
		return str(o)
	case "Repeat":
		var o sym.Str
		for i := 0; i < n; i++ {
			o = sym.Cat(o, a[0])
		}
		return str(o)
	case "Replace":
		return str(g.replace(a[0], a[1], a[2], n))
	case "ReplaceAll":
		return str(g.replace(a[0], a[1], a[2], -1))
	case "Cut":
		i := g.index(a[0], a[1])
		if i < 0 {
			return sym.Cat(str(a[0]), str(nil), boo(false))
		}
		return sym.Cat(str(a[0][:i]), str(a[0][i+len(a[1]):]), boo(true))
	case "CutPrefix":
		if !g.hasPrefix(a[0], a[1]) {
			return sym.Cat(str(a[0]), boo(false))
		}
		return sym.Cat(str(a[0][len(a[1]):]), boo(true))
	case "CutSuffix":
		if !g.hasSuffix(a[0], a[1]) {
			return sym.Cat(str(a[0]), boo(false))
		}
		return sym.Cat(str(a[0][:len(a[0])-len(a[1])]), boo(true))
	case "TrimPrefix":
		if g.hasPrefix(a[0], a[1]) {
			return str(a[0][len(a[1]):])
		}
		return str(a[0])
	case "TrimSuffix":
		if g.hasSuffix(a[0], a[1]) {
			return str(a[0][:len(a[0])-len(a[1])])
		}
		return str(a[0])
	case "TrimLeft":
		return str(g.trimLeft(a[0], a[1]))
	case "TrimRight":
		return str(g.trimRight(a[0], a[1]))
	case "Trim":
		return str(g.trimRight(g.trimLeft(a[0], a[1]), a[1]))
	case "TrimSpace":
		ws := sym.Lit("\t\n\v\f\r ")
		return str(g.trimRight(g.trimLeft(a[0], ws), ws))
	}
	panic("strings." + name)
}

// goCall is golibCall with Go's own functions.
func goCall(name string, a []string, n int) string {
	str := func(s string) string { return "[" + s + "]\n" }
	boo := func(b bool) string {
		if b {
			return "1\n"
		}
		return "0\n"
	}
	num := func(n int) string { return fmt.Sprintf("%d\n", n) }
	switch name {
	case "Index":
		return num(strings.Index(a[0], a[1]))
	case "Contains":
		return boo(strings.Contains(a[0], a[1]))
	case "HasPrefix":
		return boo(strings.HasPrefix(a[0], a[1]))
	case "HasSuffix":
		return boo(strings.HasSuffix(a[0], a[1]))
	case "Count":
		return num(strings.Count(a[0], a[1]))
	case "Split":
		l := strings.Split(a[0], a[1])
		o := num(len(l))
		for _, x := range l {
			o += str(x)
		}
		return o
	case "Join":
		return str(strings.Join(a[1:], a[0]))
	case "Repeat":
		return str(strings.Repeat(a[0], n))
	case "Replace":
		return str(strings.Replace(a[0], a[1], a[2], n))
	case "ReplaceAll":
		return str(strings.ReplaceAll(a[0], a[1], a[2]))
	case "Cut":
		x, y, ok := strings.Cut(a[0], a[1])
		return str(x) + str(y) + boo(ok)
	case "CutPrefix":
		x, ok := strings.CutPrefix(a[0], a[1])
		return str(x) + boo(ok)
	case "CutSuffix":
		x, ok := strings.CutSuffix(a[0], a[1])
		return str(x) + boo(ok)
	case "TrimPrefix":
		return str(strings.TrimPrefix(a[0], a[1]))
	case "TrimSuffix":
		return str(strings.TrimSuffix(a[0], a[1]))
	case "TrimLeft":
		return str(strings.TrimLeft(a[0], a[1]))
	case "TrimRight":
		return str(strings.TrimRight(a[0], a[1]))
	case "Trim":
		return str(strings.Trim(a[0], a[1]))
	case "TrimSpace":
		return str(strings.TrimSpace(a[0]))
	}
	panic("strings." + name)
}

// StringsOracle is the oracle of a program that calls strings.name on the strings SSA, SSB, SSC and an integer.
func StringsOracle(name string, keys []string, hole string, add int64) func(p *sym.Path, strs map[string]sym.Str, ints map[string]*sym.Term) sym.Str {
	return func(p *sym.Path, strs map[string]sym.Str, ints map[string]*sym.Term) sym.Str {
		var a []sym.Str
		for _, k := range keys {
			s, ok := strs[k]
			if !ok {
				s = sym.Lit(k)
			}
			a = append(a, s)
		}
		n := add
		if hole != "" {
			n += int64(p.Concretize(ints[hole], 8))
		}
		out := golibCall(p, name, a, int(n))
		conc := make([]string, len(a))
		for i, s := range a {
			c, ok := s.Concrete()
			if !ok {
				// the model of the path stands for all its values
				if m, ok := p.Model(); ok {
					c = s.Eval(m)
				} else {
					return out
				}
			}
			conc[i] = c
		}
		m, _ := p.Model()
		if g := goCall(name, conc, int(n)); g != out.Eval(m) {
			panic(fmt.Sprintf("oracle of strings.%s%q %d: %q, Go gives %q", name, conc, n, out.Eval(m), g))
		}
		return out
	}
}
