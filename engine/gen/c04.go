package gen

import (
	"fmt"
	"math/rand"
	"strings"
)

const tracers = `g := 8100001
func i(n int) int {
	print("i", n, g)
	g = g * 3 + n
	return n
}
func v(n int) int {
	print("v", n)
	g += n
	return g
}
func p(n int, r bool) bool {
	print("p", n)
	g = g - n
	return r
}
func s(n int) string {
	print("s", n)
	g++
	return "s" + itoa(n)
}
func t(n int) string {
	print("t", n)
	g = g * 2
	return "hello"
}
func l(n int) []int {
	print("l", n)
	g = g + 7
	return []int{n, n + 1, n + 2}
}
func m(n int) (int, int) {
	print("m", n)
	g = g - 5
	return g, n
}
func h(a int, b int, c int) int {
	print("h", a, b, c)
	g += a
	return a * b - c
}
a := 5
b := 6
q := []int{10, 20, 30, 40}
w := []string{"x", "y"}
hs := "hello"
lq := []int{1, 2}
`

// exprs that trace, by type
var traceExpr = map[string][]string{
	"int":    {"i(1) + i(2)", "i(1) - g + v(2)", "g + i(2)", "i(1) * (i(2) - i(3))", "h(i(1), v(2), i(3))", "h(g, i(2), g)", "q[i(1)] + q[i(2)]", "q[i(0)] - g", "len(t(1)) + len(l(2))", "-1 * i(1)", "(i(1))", "i(i(1) + i(2))", "h(h(1, i(2), 3), i(4), h(i(5), 6, g))", "lq[i(0)] + lq[i(1)]", "len(s(1) + t(2))", "g + v(1) + g", "v(1) - v(2) / 3", "len(hs[i(1):i(3)])", "copy(lq, l(2))", "a + i(1) + b + g", "i(7) / i(2) % i(3)", "q[h(0, i(1), 0)] * q[q[0] - 9 + i(1)]"},
	"bool":   {"p(1, false) && p(2, true)", "p(1, true) || p(2, false)", "!p(1, true)", "i(1) < i(2)", "g == v(1)", "v(1) == g", "p(1, 8300001 == 1) && !p(2, 8300002 == 1) || p(3, true)", "p(1, true) || p(2, true) && p(3, false)", "s(1) == s(2)", "s(1) + s(2) != t(3)", "(p(1, false) && p(2, true)) && p(3, true)", "q[i(1)] >= q[i(0)]", "p(1, true) == p(2, false)", "p(1, p(2, false))", "i(1) + i(2) == i(3)", "hs[i(0)] == \"h\"", "exists(s(1))", "g < i(1) || g > i(2) && p(3, g == 1)"},
	"string": {"s(1) + s(2)", "itoa(i(1)) + itoa(g)", "hs[i(1)]", "hs[i(1):i(3)]", "hs[:i(2)]", "hs[i(2):]", "w[i(1)] + s(2)", "s(1) + (s(2) + s(3))", "hs[i(0):len(t(2)) - i(1)]", "s(i(1))", "itoa(h(i(1), g, i(2)))", "w[i(0)]", "itoa(g) + s(1) + itoa(g)"},
	"slice":  {"[]int{i(1), i(2), g}", "l(i(1))", "[]int{g, v(1), g, i(2)}", "[]int{h(i(1), i(2), i(3)), len(t(1))}"},
}

// every form of expression, with exactly one call
var oneCall = map[string][]string{
	"int":    {"i(1)", "(i(1))", "2 + i(1)", "2 * i(1) - 1", "len(s(1))", "len(\"a\" + s(1))", "q[i(1)]", "h(1, 2, i(1))", "h(i(1), g, 2)", "len(hs[0:i(2)])", "len(hs[i(1):3])", "len([]int{1, i(2)})", "copy(lq, l(1))", "q[h(0, 1, i(0)) + 1]", "q[len(hs[i(3):])]"},
	"bool":   {"p(1, true)", "!p(1, true)", "(p(1, false))", "i(1) == 1", "1 < i(1)", "exists(s(1))", "w[i(0)] == \"x\"", "\"s1\" != s(1)", "true && p(1, false)", "false || p(1, true)", "!(p(1, false))", "p(q[i(0)], 8300001 == 1)", "8300001 == 1 && hs[1:i(2)] == \"e\""},
	"string": {"s(1)", "(s(1))", "itoa(i(1))", "hs[i(1)]", "hs[i(1):3]", "hs[1:i(2)]", "hs[:i(2)]", "hs[i(1):]", "w[i(1)]", "\"a\" + s(1)", "s(1) + \"b\"", "itoa(len(s(1)))", "itoa(q[i(1)])", "hs[q[i(0)] - 9:3]", "itoa(copy(lq, l(1)))", "itoa(2 - i(1))"},
}

// a variable that the call changes is used on the left of it
var before = map[string]string{
	"int":    "func two(ua int, ub @T) (int, @T) {\n\treturn g - ua, ub\n}\nfunc ret() (int, @T) {\n\treturn g, @\n}\nx := g - (@)\nprint(x)\nx = g * 2 + @\nprint(x, g == @, g < @)\nprint(g, @, g)\nsl := []int{g, @, g}\nprint(sl[0], sl[1], sl[2])\nc, d := g, @\nprint(c, d)\nc, d = two(g, @)\nprint(c, d)\nc, d = ret()\nprint(c, d)\nc, d = g, @\nprint(c, d)\nx = gq[0] + @\nprint(x)\nprint(itoa(g) + itoa(@), len(gs) - (@))\n",
	"bool":   "func two(ua bool, ub @T) (bool, @T) {\n\treturn gb == ua, ub\n}\nfunc ret() (bool, @T) {\n\treturn gb, @\n}\nx := gb && (@)\nprint(x)\nx = gb || @\nprint(x, gb == (@), gb != (@))\nprint(gb, @, gb)\nsl := []bool{gb, @, !gb}\nprint(sl[0], sl[1], sl[2])\nc, d := !gb, @\nprint(c, d)\nc, d = two(gb, @)\nprint(c, d)\nc, d = ret()\nprint(c, d)\nc, d = gb, @\nprint(c, d)\nif gb && @ {\n\tprint(\"if\")\n}\nx = g == 5 || @\nprint(x)\n",
	"string": "func two(ua string, ub @T) (string, @T) {\n\treturn gs + ua, ub\n}\nfunc ret() (string, @T) {\n\treturn gs, @\n}\nx := gs + (@)\nprint(x)\nx = itoa(g) + @ + gs\nprint(x, gs == @, gs != @)\nprint(gs, @, gs)\nsl := []string{gs, @, gs}\nprint(sl[0], sl[1], sl[2])\nc, d := gs, @\nprint(c, d)\nc, d = two(gs, @)\nprint(c, d)\nc, d = ret()\nprint(c, d)\nc, d = gs, @\nprint(c, d)\nx = gw[0] + @\nprint(x)\ngs += @\nprint(gs)\nprint(gs[0] + @)\n",
}

var tracers2 = "gs := \"g\"\ngb := true\ngq := []int{1, 2}\ngw := []string{\"m\"}\n" + strings.NewReplacer(
	"g = g * 3 + n", "g = g + n\n\tgs = gs + \"i\"\n\tgb = !gb\n\tgq[0] = gq[0] + n\n\tgw[0] = gw[0] + \"i\"",
	"g = g - n", "g = g - n\n\tgb = !gb\n\tgs = gs + \"p\"\n\tgw[0] = \"p\"",
	"g++", "g++\n\tgs = gs + \"s\"\n\tgw[0] = gw[0] + \"s\"\n\tgb = !gb\n\tgq[0]=gq[0] * 2",
	"g = g + 7", "g = g + 7\n\tgs = \"l\"\n\tgw[0] = \"l\"",
).Replace(tracers)

// C04 enumerates programs with observable effects at every operand position.
func C04(thorough bool, seed int64) []Prog {
	b := &B{}
	end := "print(\"end\", g, a, b, q[0], q[1], len(q), w[0])\n"
	add := func(id, body string) { b.P(id, tracers+body+end) }
	for _, t := range []string{"int", "bool", "string", "slice"} {
		b.Fam("expr-" + t)
		for n, e := range traceExpr[t] {
			sh := "x"
			ty := t
			if t == "slice" {
				sh = "len(x), x[0]"
				ty = "[]int"
			}
			add(fmt.Sprintf("def%02d", n), "x := "+e+"\nprint("+sh+")\n")
			add(fmt.Sprintf("var%02d", n), "var x, y "+ty+" = "+e+", "+traceExpr[t][(n+1)%len(traceExpr[t])]+"\nprint("+strings.ReplaceAll(sh, "x", "y")+", "+sh+")\n")
			add(fmt.Sprintf("assign%02d", n), "x := "+traceExpr[t][(n+1)%len(traceExpr[t])]+"\nx = "+e+"\nprint("+sh+", g)\n")
			add(fmt.Sprintf("loop%02d", n), "for k := 0; k < 2; k++ {\n\tx := "+e+"\n\tprint(k, "+sh+")\n}\n")
			add(fmt.Sprintf("fn%02d", n), "func f(c int) "+ty+" {\n\tz := g\n\tx := "+e+"\n\tprint(c, z, g)\n\treturn x\n}\nx := f(g)\nprint("+sh+")\n")
			add(fmt.Sprintf("ret%02d", n), "func f() (int, "+ty+", int) {\n\treturn g, "+e+", i(9)\n}\nk, x, y := f()\nprint(k, y, "+sh+")\n")
			add(fmt.Sprintf("arg%02d", n), "func f(k int, x "+ty+", y int) int {\n\tprint(k, y, "+sh+")\n\treturn g\n}\nprint(f(g, "+e+", i(9)), g)\n")
			if t != "slice" {
				add(fmt.Sprintf("print%02d", n), "print(g, "+e+", g, i(9))\n")
				add(fmt.Sprintf("elem%02d", n), "x := []"+ty+"{"+e+", "+e+"}\nprint(x[0], x[1])\nx[i(1)] = "+e+"\nprint(x[1])\n")
			}
		}
	}
	b.Fam("cond")
	for n, e := range traceExpr["bool"] {
		f := traceExpr["bool"][(n+3)%len(traceExpr["bool"])]
		add(fmt.Sprintf("if%02d", n), "if "+e+" {\n\tprint(\"A\", g)\n\tg = 1\n} else if "+f+" {\n\tprint(\"B\", g)\n} else {\n\tprint(\"C\", g)\n}\n")
		add(fmt.Sprintf("chain%02d", n), "if p(7, false) {\n\tprint(\"A\")\n} else if "+e+" {\n\tprint(\"B\", g)\n\tg++\n} else if "+f+" {\n\tprint(\"C\", g)\n} else if p(8, true) {\n\tprint(\"D\")\n}\n")
		add(fmt.Sprintf("sw%02d", n), "switch {\ncase "+e+":\n\tprint(\"A\", g)\n\tg = 0\ncase "+f+":\n\tprint(\"B\", g)\ncase p(9, true):\n\tprint(\"C\")\ndefault:\n\tprint(\"D\", g)\n}\n")
		add(fmt.Sprintf("swtrue%02d", n), "switch true {\ncase "+e+":\n\tprint(\"A\", g)\ncase "+f+":\n\tprint(\"B\", g)\n}\n")
		add(fmt.Sprintf("for%02d", n), "for k := 0; k < 2 && ("+e+" || true); k++ {\n\tprint(\"k\", k, g)\n}\n")
		add(fmt.Sprintf("while%02d", n), "k := 0\nfor "+e+" || k < 1 {\n\tk++\n\tprint(\"k\", k, g)\n\tif k > 2 {\n\t\tbreak\n\t}\n}\n")
		add(fmt.Sprintf("swin%02d", n), "for k := 0; k < 3; k++ {\n\tif k == 8200001 && ("+e+") {\n\t\tcontinue\n\t}\n\tprint(k, g)\n}\n")
	}
	for n, e := range traceExpr["int"] {
		f := traceExpr["int"][(n+5)%len(traceExpr["int"])]
		add(fmt.Sprintf("swint%02d", n), "switch a {\ncase "+e+":\n\tprint(\"A\", g)\ncase 5:\n\tprint(\"five\", g)\ncase "+f+":\n\tprint(\"B\", g)\ndefault:\n\tprint(\"D\")\n}\n")
		add(fmt.Sprintf("ifint%02d", n), "if "+e+" < "+f+" {\n\tprint(\"A\", g)\n} else if "+f+" == g {\n\tprint(\"B\", g)\n}\n")
		add(fmt.Sprintf("compound%02d", n), "a += "+e+"\nprint(a)\na -= "+e+"\nb *= "+f+"\ng += i(1)\nprint(a, b, g)\n")
		add(fmt.Sprintf("multi%02d", n), "a, b = "+e+", "+f+"\nprint(a, b)\na, g = g, "+e+"\nprint(a, g)\nx, y := "+f+", g\nprint(x, y)\n")
		add(fmt.Sprintf("sl%02d", n), "q[i(1)] = "+e+"\nprint(q[1], g)\nq[h(0, i(1), g - g)] = q[i(2)] + "+e+"\nprint(q[0], g)\n")
	}
	for n, e := range traceExpr["string"] {
		f := traceExpr["string"][(n+2)%len(traceExpr["string"])]
		add(fmt.Sprintf("swstr%02d", n), "switch w[0] {\ncase "+e+":\n\tprint(\"A\")\ncase \"x\":\n\tprint(\"X\", g)\ncase "+f+":\n\tprint(\"B\")\n}\n")
		add(fmt.Sprintf("strcmpd%02d", n), "z := \"z\"\nz += "+e+"\nprint(z)\nz = z + "+f+"\nprint(z, g)\nw[i(0)] = "+e+" + "+f+"\nprint(w[0])\n")
	}
	b.Fam("loop")
	for n, body := range []string{
		"for k := i(0); k < i(2); k = k + i(1) {\n\tprint(\"body\", k, g)\n}\n",
		"for k := i(0); p(1, k < 2); k++ {\n\tprint(\"body\", k, g)\n\tif k == 8200001 {\n\t\tcontinue\n\t}\n\tprint(\"tail\")\n}\n",
		"for k := 0; k < v(1) - g + 2; k += i(1) {\n\tif k == 8200001 {\n\t\tbreak\n\t}\n\tprint(k)\n}\n",
		"k := 0\nfor p(1, k < 2) && p(2, true) {\n\tk += i(1)\n\tprint(\"k\", k)\n}\n",
		"k := 0\nfor {\n\tif p(1, k > 1) || p(2, k > 8200001) {\n\t\tbreak\n\t}\n\tk += i(1)\n}\nprint(k)\n",
		"for k, x := range q {\n\tprint(k, x + i(1), g)\n\tif k == 8200001 {\n\t\tcontinue\n\t}\n\tprint(\"t\", i(k))\n}\n",
		"for k := 0; k < 2; k++ {\n\tfor j := i(0); p(k, j < 2); j += i(1) {\n\t\tif j == 8200001 {\n\t\t\tcontinue\n\t\t}\n\t\tprint(k, j)\n\t}\n}\n",
		"k := 0\nfor k < i(3) {\n\tk += 1 + i(0)\n\tif p(1, k == 8200001) {\n\t\tcontinue\n\t}\n\tprint(k, g)\n}\n",
		"for k := 0; k < 3; k = h(k, 1, -1) {\n\tprint(k, g)\n}\n",
		"for k := h(i(1), i(2), i(2)); k < 2; k++ {\n\tprint(k)\n}\n",
		"for k, j := i(0), i(5); k < 2; k, j = k + i(1), j + v(1) {\n\tprint(k, j)\n}\n",
		"var x int\nfor x, a = i(1), g; x < 3; x++ {\n\tprint(x, a)\n}\n",
	} {
		add(fmt.Sprintf("l%02d", n), body)
	}
	b.Fam("stmt")
	for n, body := range []string{
		"i(1)\nh(i(1), i(2), i(3))\nm(i(4))\ns(i(5))\n",
		"x, y := m(i(1))\nprint(x, y, g)\nx, y = m(x)\nprint(x, y)\nvar z, u int = m(v(1))\nprint(z, u)\n",
		"func f(x int, y int) (int, string) {\n\tprint(\"f\", x, y)\n\treturn x + i(1), s(y)\n}\nx, y := f(i(3), g)\nprint(x, y)\n",
		"func f() int {\n\tif p(1, 8300001 == 1) {\n\t\treturn i(1) + i(2)\n\t}\n\treturn h(i(3), g, i(4))\n}\nprint(f() + f(), g)\n",
		"print(i(1), i(2), i(3))\nprint(g, v(1), g)\nprint(v(1), g, v(2), g)\n",
		"q[i(0)] = i(7)\nq[i(5)] = g\nprint(len(q), q[5], q[0])\n",
		"w[i(0)] = s(1) + w[i(1)]\nw[len(w)] = hs[i(0)]\nprint(w[0], w[2], len(w))\n",
		"x := copy(q, l(1))\nprint(x, q[0])\ncopy(lq, l(2))\nprint(g)\n",
		"print(len(l(1)), len(t(2)), len(s(1) + s(2)), len(l(i(3))))\n",
		"a++\nb--\na = a + i(1)\ng++\ng = g + v(1)\nprint(a, b, g)\n",
		"g += v(1)\nprint(g)\ng = v(1) + g\nprint(g)\ng *= i(2)\nprint(g)\n",
		"x := g\ny := v(1)\nprint(x, y, g)\nx, y = y, v(2)\nprint(x, y)\n",
		"if p(1, false) {\n\tprint(1)\n} else if p(2, true) {\n\tif p(3, false) || p(4, true) {\n\t\tprint(2)\n\t}\n} else if p(5, true) {\n\tprint(3)\n} else {\n\ti(1)\n}\n",
		"switch {\ncase p(1, true):\n\tswitch {\n\tcase p(2, false):\n\t\tprint(\"x\")\n\tcase p(3, true):\n\t\tprint(\"y\")\n\t}\ncase p(4, true):\n\tprint(\"z\")\n}\n",
		"x := p(1, true) && p(2, false) || p(3, 8300001 == 1) && !p(4, false)\nprint(x)\ny := p(1, false) && (p(2, true) || p(3, true))\nprint(y)\n",
		"x := s(1) == s(2) || s(3) != s(3) && t(4) == t(5)\nprint(x)\n",
		"panic(s(1) + s(2))\n",
		"if p(1, 8300001 == 1) {\n\tpanic(itoa(i(3)))\n}\n",
		"x := l(1)\nx[i(0)] = i(4) + x[i(1)] * x[x[0] - 1 + i(0)]\nprint(x[0], x[1])\n",
		"x := itoa(i(1)) + itoa(v(2)) + itoa(g)\nprint(x)\n",
		"x := -3 * i(1) - -2 * i(2)\nprint(x)\n",
		"x := hs[i(1):i(4)]\nprint(x)\nprint(hs[i(1):], hs[:i(3)], hs[i(2)])\n",
		"x := w[i(0)] + w[i(1)] + hs[i(0):i(1)]\nprint(x)\n",
		"x := g\nfunc f(n int) int {\n\tx = x + n\n\treturn x\n}\nprint(x + f(1) * x + f(2) - x)\ny := x + f(f(1)) + x\nprint(y, x)\n",
		"x := []int{1, 2, 3}\nfunc f(n int) int {\n\tx[0] = x[0] + n\n\treturn n\n}\nprint(x[0] + f(5) + x[0])\nx[f(1)] = x[0] + f(2)\nprint(x[0], x[1], x[2])\n",
		"x := \"a\"\nfunc f() string {\n\tx += \"b\"\n\treturn x\n}\nprint(x + f() + x, x == f(), f() == x, x[0:len(f()) - 1])\n",
		"x := true\nfunc f() bool {\n\tx = !x\n\treturn x\n}\nprint(x && f(), x || f(), f() == x, x == f(), !x == f())\n",
		"write(s(1), s(2), p(3, false))\nwrite(s(1), itoa(i(4)), p(5, true))\nprint(read(s(1)), exists(s(i(1))))\n",
	} {
		add(fmt.Sprintf("s%02d", n), body)
	}
	b.Fam("before")
	for _, t := range []string{"int", "bool", "string"} {
		for n, e := range oneCall[t] {
			src := strings.ReplaceAll(strings.ReplaceAll(before[t], "@T", t), "@", e)
			k := strings.Index(src, "x := ")
			b.P(fmt.Sprintf("%s%02d", t, n), tracers2+src+"print(g, gs, gb)\n")
			b.P(fmt.Sprintf("%s%02d-fn", t, n), tracers2+src[:k]+"func run(rc int) int {\n\t"+strings.ReplaceAll(strings.TrimSpace(src[k:]), "\n", "\n\t")+"\n\treturn rc\n}\nprint(run(3), g, gs, gb)\n")
		}
	}
	n := 80
	if thorough {
		n = 2000
	}
	b.Fam("composed")
	for k := 0; k < n; k++ {
		r := &Rand{R: rand.New(rand.NewSource(seed*400009 + int64(k))), Feat: map[string]bool{"effects": true, "slices": true}}
		b.P(fmt.Sprintf("s%d-%d", seed, k), r.Program())
	}
	return b.Out
}
