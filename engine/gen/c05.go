package gen

import (
	"fmt"
	"math/rand"
	"strings"
)

// shapes builds control-flow skeletons: forests of constructs with markers around and in every block.
type shapes struct {
	n, k  int // markers, constructs
	holes int // 8200001..
	r     *rand.Rand
	jumps bool
	inFn  bool
}

func (s *shapes) mark() string { s.n++; return fmt.Sprintf("print(\"m%d\", x)\n", s.n) }

func (s *shapes) cond() string {
	s.k++
	return []string{"x == 1", "a == 1", "x + b > 2", "b != x", "a < b", "x < 2 && b > 0", "!(a == x)", "x % 2 == 0"}[(s.k*5+s.n)%8]
}

// kinds: F counted loop, W conditional loop, R range, E endless loop, I if, J if-else, K if-else if-else, S switch, T switch without default.
func (s *shapes) build(kind byte, body func() string) string {
	s.k++
	k := s.k
	switch kind {
	case 'F':
		return fmt.Sprintf("for i%d := 0; i%d < %d; i%d++ {\n\tx = x + 1\n%s%s%s}\n", k, k, 2, k, body(), s.jump(), s.mark())
	case 'W':
		return fmt.Sprintf("w%d := 0\nfor w%d < a {\n\tw%d++\n\tx = x + 1\n%s%s%s}\n", k, k, k, body(), s.jump(), s.mark())
	case 'R':
		return fmt.Sprintf("for i%d, v%d := range r {\n\tx = x + v%d\n%s%s%s}\nprint(x)\n", k, k, k, body(), s.jump(), s.mark())
	case 'E':
		return fmt.Sprintf("e%d := 0\nfor {\n\te%d++\n\tx++\n%s\tif e%d > b {\n%s\t\tbreak\n\t}\n%s}\n", k, k, body(), k, s.mark(), s.mark())
	case 'I':
		return fmt.Sprintf("if %s {\n%s%s}\n", s.cond(), s.mark(), body())
	case 'J':
		return fmt.Sprintf("if %s {\n%s} else {\n%s%s}\n", s.cond(), s.mark(), body(), s.mark())
	case 'K':
		return fmt.Sprintf("if %s {\n%s} else if %s {\n%s%s} else {\n%s}\n", s.cond(), s.mark(), s.cond(), body(), s.mark(), s.mark())
	case 'S':
		return fmt.Sprintf("switch x {\ncase a:\n%s%scase 2:\n%sdefault:\n%s}\n", s.mark(), body(), s.mark(), s.mark())
	case 'T':
		return fmt.Sprintf("switch {\ncase %s:\n%scase %s:\n%s%s}\n", s.cond(), s.mark(), s.cond(), body(), s.mark())
	}
	panic(kind)
}

func (s *shapes) jump() string {
	if !s.jumps {
		return ""
	}
	s.k++
	switch s.r.Intn(5) {
	case 0:
		return fmt.Sprintf("\tif %s {\n%s\t\tbreak\n\t}\n", s.cond(), s.mark())
	case 1:
		return fmt.Sprintf("\tif %s {\n\t\tcontinue\n\t}\n", s.cond())
	case 2:
		return fmt.Sprintf("\tif %s {\n\t\tif %s {\n\t\t\tbreak\n\t\t} else {\n\t\t\tcontinue\n\t\t}\n\t}\n", s.cond(), s.cond())
	case 3:
		if s.inFn {
			return fmt.Sprintf("\tif %s {\n%s\t\treturn x\n\t}\n", s.cond(), s.mark())
		}
		return fmt.Sprintf("\tif %s {\n\t\tpanic(\"stop\")\n\t}\n", s.cond())
	}
	return ""
}

// forest gives all forests over the kinds, as strings in prefix notation with brackets.
func forests(n int, kinds string) []string {
	if n == 0 {
		return []string{""}
	}
	var out []string
	for k := 0; k < n; k++ { // nodes in the first tree's body
		for _, in := range forests(k, kinds) {
			for _, rest := range forests(n-1-k, kinds) {
				for i := range kinds {
					out = append(out, kinds[i:i+1]+"("+in+")"+rest)
				}
			}
		}
	}
	return out
}

func (s *shapes) text(f string) (string, string) {
	var sb strings.Builder
	for len(f) > 0 && f[0] != ')' {
		k := f[0]
		f = f[2:]
		rest := ""
		sb.WriteString(s.build(k, func() string {
			t, r := s.text(f)
			rest = r
			if t == "" {
				t = s.mark()
			}
			return t
		}))
		f = rest[1:]
		sb.WriteString(s.mark())
	}
	return sb.String(), f
}

func shapeProg(forest string, seed int64, where int) string {
	s := &shapes{r: rand.New(rand.NewSource(seed)), jumps: true, inFn: where > 0}
	t, _ := s.text(forest)
	head := "a := 8200001\nb := 8200002\nr := []int{1, 2}\nx := 0\n"
	switch where {
	case 1: // in a function that is called twice
		return "func f(a int, b int, r []int) int {\n\tx := 0\n" + t + "\treturn x + 100\n}\na := 8200001\nb := 8200002\nr := []int{1, 2}\nprint(f(a, b, r))\nfor k := 0; k < 2; k++ {\n\tif f(b, k, r) > 101 {\n\t\tprint(\"big\")\n\t} else {\n\t\tprint(\"small\", k)\n\t}\n}\n"
	case 2: // two functions, one calling the other within constructs
		return "func g(n int) int {\n\tfor i := 0; i < n; i++ {\n\t\tif i == 1 {\n\t\t\tprint(\"g\", i)\n\t\t\treturn i + n\n\t\t}\n\t}\n\treturn 0\n}\nfunc f(a int, b int, r []int) int {\n\tx := g(a)\n" + strings.Replace(t, "x = x + 1\n", "x = x + g(2)\n", 1) + "\treturn g(x)\n}\nprint(f(8200001, 8200002, []int{0, 1}))\n"
	}
	return head + t + "print(\"end\", x)\n"
}

// C05 enumerates what only the Batch target has to fear.
func C05(th bool, seed int64) []Prog {
	b := &B{}
	b.Fam("shape1")
	for _, k := range "FWREIJKST" {
		for w := 0; w < 3; w++ {
			b.P(fmt.Sprintf("%c-%d", k, w), shapeProg(string(k)+"()", seed+int64(w), w))
		}
	}
	b.Fam("shape2")
	for i, f := range forests(2, "FWREIJKST") {
		b.P(strings.NewReplacer("(", "-", ")", ".").Replace(f), shapeProg(f, seed+int64(i), i%3))
	}
	b.Fam("shape3")
	for i, f := range forests(3, "FJS") {
		b.P(strings.NewReplacer("(", "-", ")", ".").Replace(f), shapeProg(f, seed+int64(i), (i+1)%3))
	}
	for i, f := range forests(3, "WKE") {
		if th || i%4 == int(seed%4) {
			b.P(strings.NewReplacer("(", "-", ")", ".").Replace(f), shapeProg(f, seed+int64(i), i%3))
		}
	}
	b.Fam("shape4")
	r := rand.New(rand.NewSource(seed + 7))
	all := forests(4, "FIR")
	n := 60
	if th {
		n = 700
	}
	for _, i := range r.Perm(len(all))[:n] {
		f := []byte(all[i])
		for j := range f {
			if f[j] != '(' && f[j] != ')' {
				f[j] = "FWREIJKST"[r.Intn(9)]
			}
		}
		b.P(fmt.Sprintf("%d", i), shapeProg(string(f), int64(i), i%3))
	}
	b.Fam("deep")
	for d := 2; d <= 6; d++ {
		var o, c strings.Builder
		for i := 0; i < d; i++ {
			fmt.Fprintf(&o, "for i%d := 0; i%d < 2; i%d++ {\nif i%d == 8300001 {\nprint(\"in\", %d)\n", i, i, i, i, i)
			fmt.Fprintf(&c, "} else {\nprint(\"else\", %d)\n}\nprint(\"end\", %d)\nif i%d == 8300002 {\nbreak\n}\n}\n", d-1-i, d-1-i, d-1-i)
		}
		b.P(fmt.Sprint("alt", d), o.String()+c.String()+"print(\"done\")\n")
		b.P(fmt.Sprint("fn", d), "func f() {\n"+o.String()+c.String()+"print(\"done\")\n}\nf()\nf()\n")
	}
	// eleven constructs of every family: labels of two digits
	var sb strings.Builder
	for i := 0; i < 12; i++ {
		fmt.Fprintf(&sb, "for i := 0; i < 8200001; i++ {\nif i == 1 {\nprint(%d, i)\nbreak\n} else if i == 3 {\nprint(\"x\")\n}\n}\nif 8300002 == %d {\nprint(\"if\", %d)\n} else {\nprint(\"else\")\n}\n", i, i%2, i)
	}
	b.P("many", sb.String())
	b.P("manyfn", "func f() int {\n"+sb.String()+"return 5\n}\nprint(f())\n")
	sb.Reset()
	for i := 0; i < 13; i++ {
		call := "n"
		if i > 0 {
			call = fmt.Sprintf("f%d(n + 1)", i-1)
		}
		fmt.Fprintf(&sb, "func f%d(n int) int {\nl := n * 2\nfor i := 0; i < 1; i++ {\nl = l + %s\n}\nif l > 8100009 {\nreturn l\n}\nreturn l + n\n}\n", i, call)
	}
	b.P("funcs", sb.String()+"print(f1(1), f10(2), f12(3))\nprint(f11(4))\n")
	// panic
	b.Fam("panic")
	for i, w := range []string{
		"%s", "if x == 1 {\n%s}\n", "for i := 0; i < 3; i++ {\nprint(i)\nif i == x {\n%s}\n}\n", "switch x {\ncase 1:\n%sdefault:\nprint(\"d\")\n}\n", "for i, v := range []int{1, 2} {\nprint(i)\nif v > x {\n%s}\n}\n", "if x == 0 {\nprint(0)\n} else if x == 2 {\n%s} else {\nprint(\"e\")\n}\n",
	} {
		if i == 4 {
			w = "l := []int{1, 2}\n" + strings.Replace(w, "[]int{1, 2}", "l", 1)
		}
		body := fmt.Sprintf(w, "panic(\"boom\")\n")
		b.P(fmt.Sprint("main", i), "x := 8200001\nprint(\"a\")\n"+body+"print(\"b\")\n")
		fn := "func p(x int) int {\nprint(\"p\", x)\n" + body + "print(\"q\")\nreturn x + 1\n}\n"
		b.P(fmt.Sprint("fn", i), fn+"print(\"a\")\nprint(p(8200001))\nprint(\"b\")\n")
		b.P(fmt.Sprint("nest", i), fn+"func o(n int) int {\nfor j := 0; j < 2; j++ {\nprint(\"o\", j)\ny := p(n + j)\nif y == 2 {\nreturn p(j)\n}\n}\nreturn 9\n}\nfor k := 0; k < 2; k++ {\nif o(8200001) == 9 {\nprint(\"nine\")\n}\nprint(\"k\", k)\n}\nprint(\"b\")\n")
		b.P(fmt.Sprint("cond", i), fn+"x := 8200001\nif p(x) == 2 && p(1) == 2 {\nprint(\"yes\")\n} else if p(0) > 0 {\nprint(\"no\")\n}\nprint(\"b\")\n")
	}
	// slices with indices of one and two digits
	b.Fam("slice")
	for _, n := range []int{0, 1, 9, 10, 11, 12} {
		var v []string
		for i := 0; i < n; i++ {
			v = append(v, fmt.Sprint(i*7))
		}
		init := "s := []int{" + strings.Join(v, ", ") + "}\n"
		dump := "print(len(s))\nfor i := 0; i < len(s); i++ {\nprint(i, s[i])\n}\n"
		for _, add := range []int{0, 7} {
			b.P(fmt.Sprintf("set%d+%d", n, add), fmt.Sprintf("%sk := 8200001 + %d\ns[k] = 8100002\n%ss[k] = 5\nprint(len(s), s[k])\n", init, add, dump))
		}
		b.P(fmt.Sprintf("copy%d", n), init+"t := []int{1}\nfor i := 0; i < 8200001 + 8; i++ {\nt[i] = i + 1\n}\nc := copy(s, t)\nprint(c, len(t))\n"+dump+"c = copy(t, s)\nprint(c, len(t), len(s))\n")
		b.P(fmt.Sprintf("range%d", n), init+"t := 0\nfor i, v := range s {\nif i == 8200001 + 8 {\nprint(\"at\", v)\ncontinue\n}\nt += v\n}\nprint(t)\n")
		b.P(fmt.Sprintf("fn%d", n), "func f(s []int, k int) int {\ns[k] = k\nprint(len(s), s[k])\nreturn len(s)\n}\n"+init+"print(f(s, 8200001 + 8))\nprint(f(s, 2))\nprint(f(s, 11))\n"+dump)
	}
	b.P("two", "s := []string{}\nt := []bool{}\nu := []int{}\nfor i := 0; i < 11; i++ {\ns[i] = itoa(i) + \"v\"\nt[i] = i > 8200001 + 7\nu[i] = i * i\n}\nprint(len(s), len(t), len(u))\nprint(s[8200002 + 7], t[8200002 + 7], u[8200002 + 7], s[1], t[10], u[10])\n")
	b.P("many", func() string {
		s := ""
		for i := 0; i < 12; i++ {
			s += fmt.Sprintf("s%d := []int{%d, %d}\n", i, i, i+50)
		}
		return s + "s1[2] = 8100001\ns11[3] = 4\nt := s10\nt[0] = 99\nprint(s1[0], s10[0], s11[0], s1[2], s11[3], len(s1), len(s10), len(s11), len(s0), s0[0], s9[1])\n"
	}())
	b.P("len", "s := []int{}\nfor i := 0; i < 13; i++ {\nif len(s) < 10 {\nprint(\"short\", len(s))\n} else {\nprint(\"long\", len(s))\n}\ns[i] = i\n}\nprint(len(s) == 13, len(s) > 9, len(s) <= 100)\n")
	// operators
	b.Fam("ops")
	for _, o := range CmpOps {
		b.P("lit"+o, fmt.Sprintf("a := 8100001\nprint(a %s 10, 9 %s a, a + 0 %s 100, 9 %s 10, 10 %s 9, 010 %s 10)\nif a %s 99 {\nprint(\"y\")\n} else {\nprint(\"n\")\n}\nfor a %s 7 {\nprint(\"l\")\na = 7\nbreak\n}\n", o, o, o, o, o, "==", o, o))
		b.P("var"+o, fmt.Sprintf("func f(a int, b int) bool {\nreturn a %s b\n}\na := 8100001\nb := 8100002\nprint(f(a, b), f(b, a), f(a, a), f(0 - a - 1, b), f(0 - a, 0 - b))\nc := f(a, b) == f(b, a)\nif c && !f(a, 3) {\nprint(\"c\")\n}\n", o))
	}
	for _, o := range ArithOps {
		b.P("arith"+o, fmt.Sprintf("a := 8100001\nb := 8100002\nc := 3\nprint(a %s 10, 1000 %s (b + 0), a %s b)\nc %s= 2\nprint(c)\nc = c %s 2\nprint(c, (c %s 3) * 2, -7 %s 2, 7 %s -2)\n", o, o, o, o, o, o, o, o))
	}
	b.P("overflow", "a := 2147483647\nb := 8200001\na = a + b\nprint(a, a < 0, a - 1 > 0)\nc := 65536\nprint(c * (c + b), c * c, c * 32768 + b)\n")
	b.P("logic", "a := 8300001 == 1\nb := 8300002 == 1\nc := 8300003 == 1\nprint(a && b || c, a && (b || c), !(a && b) || !c, !a == b, a != b && c)\nif a || b && c {\nprint(\"1\")\n} else if !a {\nprint(\"2\")\n}\nfor !(a && b) {\na = true\nb = true\nprint(\"l\")\n}\nprint(a, b)\n")
	b.P("parens", "a := 8100001\nprint((a), ((a + 1) * 2), (a - (1 - (a))))\nif (a) == ((5)) {\nprint(\"five\")\n}\nb := (a > 1)\nif (b) {\nprint(\"b\")\n}\nif (b && (a > 3)) || (!(b)) {\nprint(\"or\")\n}\nc := (\"x\")\nprint((c) + (\"y\"), (c) == (\"x\"))\n")
	// strings
	b.Fam("str")
	two := func(id, src string, n, m string, cl string) {
		p := b.P(id, src)
		p.Strs = map[string][3]string{"SSA": {"0", n, cl}}
		if m != "" {
			p.Strs["SSB"] = [3]string{"0", m, cl}
		}
	}
	for _, c := range []string{"cmd", "alpha:onfONF", "alpha:/? \t", "alpha:0129", "alpha:=;,+-", "alpha:():*~", "alpha:'`{}[]$#@\\"} {
		c, id := c, c
		if i := strings.IndexByte(c, ':'); i > 0 {
			id = fmt.Sprintf("%x", c[i+1:min(i+3, len(c))])
		}
		two("print-"+id, "print(\"SSA\")\nx := \"SSA\"\nprint(x)\nprint(x, 1, true)\nprint(\"\")\nprint(\"a\" + x + \"b\")\n", "3", "", c)
		two("cmp-"+id, "a := \"SSA\"\nb := \"SSB\"\nprint(a == b, a != b, a == \"\", b == \"SSB\", \"SSA\" == \"\")\nif a == b {\nprint(\"same\")\n} else if a + \"x\" == b {\nprint(\"x\")\n}\nswitch a {\ncase \"on\":\nprint(\"ON\")\ncase b:\nprint(\"B\")\ndefault:\nprint(\"D\")\n}\n", "2", "2", c)
		two("fn-"+id, "func f(s string, t string) (string, string) {\nu := s + t\nif s == \"\" {\nreturn t, \"empty\"\n}\nreturn u, s\n}\na, b := f(\"SSA\", \"SSB\")\nprint(a)\nprint(b)\na, b = f(b, a)\nprint(a + \"/\" + b)\n", "2", "1", c)
		two("slice-"+id, "s := []string{\"SSA\", \"b\"}\nprint(s[0], s[1], len(s))\ns[3] = \"SSA\" + s[1]\nprint(s[3])\nfor i, v := range s {\nprint(i, \"[\" + v + \"]\", v == \"\")\n}\nt := []string{}\nprint(copy(t, s), t[3], t[0])\n", "2", "", c)
		two("sub-"+id, "s := \"SSA\" + \"x\"\nprint(len(s), len(\"SSA\"), s[0])\nprint(\"[\" + s[0:len(s)] + \"]\", \"[\" + s[1:] + \"]\", \"[\" + s[:1] + \"]\")\nfor i, c := range s {\nprint(i, \"[\" + c + \"]\")\n}\nfor i := 0; i < len(s); i++ {\nif s[i] == \"o\" {\nprint(\"o at\", i)\n}\n}\n", "3", "", c)
	}
	two("long", "s := \"0123456789SSA\"\nprint(len(s), s[9], s[10], s[8:12])\nt := s + s\nprint(len(t), t[0:11])\nfor i := 9; i < len(s); i++ {\nprint(i, s[i])\n}\n", "2", "", "word")
	return b.Out
}
