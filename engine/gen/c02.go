package gen

import (
	"fmt"
	"math/rand"
	"strings"
)

var tyVals = map[string][]string{"int": {"8100001", "-8100002", "7"}, "bool": {"8300001 == 1", "true", "false"}, "string": {`"a b"`, `""`, "itoa(8100001)"}, "[]int": {"[]int{8100001, 2}", "[]int{}", "[]int{3}"}, "[]string": {`[]string{"q", ""}`, `[]string{}`, `[]string{"z"}`}, "error": {`"bad"`, "nil", `"e f"`}}

func show(n, t string) string {
	if strings.HasPrefix(t, "[]") {
		return "len(" + n + ")"
	}
	return n
}

func seq(p string, n int) []string {
	var r []string
	for i := 0; i < n; i++ {
		r = append(r, fmt.Sprintf("%s%d", p, i))
	}
	return r
}

// C02 enumerates programs about functions.
func C02(thorough bool, seed int64) []Prog {
	b := &B{}
	types := []string{"int", "bool", "string", "[]int", "[]string"}

	b.Fam("params")
	for n := 0; n <= 13; n++ {
		for k, kinds := range [][]string{{"int"}, {"int", "string", "bool"}, {"string", "[]int", "int"}} {
			if n == 0 && k > 0 || n > 4 && k == 2 && n < 12 {
				continue
			}
			var ps, as, sh []string
			for i := 0; i < n; i++ {
				t := kinds[i%len(kinds)]
				ps = append(ps, fmt.Sprintf("p%d %s", i, t))
				v := tyVals[t][i%3]
				if t == "int" {
					v = fmt.Sprintf("8100001 + %d", i)
				}
				as = append(as, v)
				sh = append(sh, show(fmt.Sprintf("p%d", i), t))
			}
			b.P(fmt.Sprintf("n%d-%d", n, k), "func f("+strings.Join(ps, ", ")+") {\n\tprint("+strings.Join(sh, ", ")+")\n}\nf("+strings.Join(as, ", ")+")\n")
		}
	}
	for _, t := range types {
		for _, u := range types {
			b.P("ty-"+t+"-"+u, "func f(a "+t+", b "+u+") {\n\tprint("+show("a", t)+", "+show("b", u)+")\n}\n"+
				"x := "+tyVals[t][0]+"\ny := "+tyVals[u][0]+"\nf(x, y)\nf("+tyVals[t][1]+", "+tyVals[u][2]+")\nf(x, "+tyVals[u][1]+")\n")
		}
	}
	b.P("expr", "func f(a int, b bool, c string) {\n\tprint(a, b, c)\n}\nx := 8100001\nf(x + 1, x < 3 && true, \"s\" + itoa(x))\nf((x) * 2, !(x == 2), \"\")\nf(-1, 8300001 == 1 || false, \"-n\")\n")
	b.P("spec", "func f(a string, b string) {\n\tprint(\"[\" + a + \"]\", \"[\" + b + \"]\")\n}\nf(\"\", \"x\")\nf(\"x\", \"\")\nf(\" \", \"  a  b \")\nf(\"-n\", \"--\")\n")
	b.P("value", "func f(a int, s string, p bool) {\n\ta++\n\ts += \"!\"\n\tp = !p\n\tprint(a, s, p)\n}\na := 8100001\ns := \"k\"\np := 8300001 == 1\nf(a, s, p)\nprint(a, s, p)\nf(a, s, p)\n")
	b.P("ref", "func f(s []int) {\n\ts[0] = 8100001\n\ts[3] = 4\n}\nx := []int{1, 2}\nf(x)\nprint(len(x), x[0], x[1], x[2], x[3])\n")
	b.P("ref2", "func f(s []string, t []string) {\n\ts[0] = t[0] + \"f\"\n\tt[1] = s[0]\n}\nx := []string{\"a\", \"b\"}\ny := x\nf(x, y)\nprint(x[0], x[1], y[0], y[1])\nf([]string{\"u\", \"v\"}, x)\nprint(x[0], x[1])\n")
	b.P("refassign", "func f(s []int) {\n\ts = []int{9, 9, 9}\n\ts[0] = 1\n\tprint(len(s), s[0])\n}\nx := []int{5}\nf(x)\nprint(len(x), x[0])\n")

	// every reuse of two names in two functions and the top level
	b.Fam("names")
	nm := []string{"x", "y"}
	for m := 0; m < 64; m++ {
		bit := func(i int) string { return nm[m>>i&1] }
		o := func(s string) string {
			if s == "x" {
				return "y"
			}
			return "x"
		}
		fp, fl := bit(0), o(bit(0))
		gp, gl := bit(1), o(bit(1))
		var sb strings.Builder
		if m>>2&1 == 1 { // f without an extra local
			fmt.Fprintf(&sb, "func f(%s int) int {\n\t%s = %s * 3\n\treturn %s + 1\n}\n", fp, fp, fp, fp)
		} else {
			fmt.Fprintf(&sb, "func f(%s int) int {\n\t%s := %s * 3\n\t%s++\n\treturn %s - %s\n}\n", fp, fl, fp, fp, fl, fp)
		}
		fmt.Fprintf(&sb, "func g(%s int) int {\n\t%s := f(%s + 1)\n", gp, gl, gp)
		if m>>3&1 == 1 {
			fmt.Fprintf(&sb, "\t%s = f(%s) + f(%s)\n", gp, gp, gl)
		}
		fmt.Fprintf(&sb, "\tprint(%s, %s)\n\treturn %s - %s\n}\n", gp, gl, gp, gl)
		t1, t2 := bit(4), o(bit(4))
		fmt.Fprintf(&sb, "%s := 8100001\n%s := g(%s)\nprint(%s, %s)\n", t1, t2, t1, t1, t2)
		if m>>5&1 == 1 {
			fmt.Fprintf(&sb, "%s = f(%s) - g(f(%s))\nprint(%s, %s)\n", t1, t2, t1, t1, t2)
		}
		b.P(fmt.Sprintf("m%02d", m), sb.String())
	}
	b.P("blocks", "func f(n int) int {\n\tr := 0\n\tfor i := 0; i < 3; i++ {\n\t\tx := i * n\n\t\tif x > 2 {\n\t\t\ty := x\n\t\t\tr += y\n\t\t} else {\n\t\t\ty := 1\n\t\t\tr -= y\n\t\t}\n\t}\n\treturn r\n}\nx := 8200001\ny := f(x)\nfor i := 0; i < 2; i++ {\n\tr := f(i + x)\n\tprint(i, r, y)\n}\nprint(x, y)\n")
	b.P("loopcall", "func f(i int) int {\n\ts := 0\n\tfor j := 0; j < i; j++ {\n\t\ts += j\n\t}\n\treturn s\n}\nfor j := 0; j < 4; j++ {\n\ts := f(j)\n\tprint(j, s, f(8200001))\n}\n")
	b.P("rangecall", "func f(s string) string {\n\tr := \"\"\n\tfor i, c := range s {\n\t\tr = c + r + itoa(i)\n\t}\n\treturn r\n}\nfor i, c := range \"abc\" {\n\tr := f(c + \"z\")\n\tprint(i, c, r)\n}\n")
	b.P("samefn", "func a(a int) int {\n\treturn a + 1\n}\nprint(a(8100001))\n")
	b.P("fnvar", "func f() int {\n\treturn 5\n}\ng := f()\nprint(g, f())\n")
	b.P("paramshadowlater", "func f(x int) int {\n\tx = x + 1\n\treturn x\n}\nx := 8100001\ny := f(5)\nprint(x, y, f(x), x)\n")
	b.P("helpers", "func f(a int, b int) bool {\n\treturn a < b && a != 3 || !(b == 1)\n}\nfunc g(a int) string {\n\tif f(a, 2) {\n\t\treturn \"t\" + itoa(a)\n\t}\n\treturn \"f\" + itoa(a + 1)\n}\na := 8100001\np := a < 7 && f(a, a + 1) && g(a) == \"t1\"\nprint(p, g(a), f(1, a), a < 2 || f(2, 2))\n")
	b.P("letters", "func f(f0 int, f1 int) int {\n\t_h := f0\n\treturn _h + f1\n}\nf1 := 8100001\n_h := f(f1, 2)\nprint(f1, _h)\n")

	frames(b)

	// globals
	b.Fam("globals")
	for i, op := range []string{"g = 8100001", "g += 8100001", "g -= 2", "g *= 3", "g /= 2", "g %= 5", "g++", "g--", "g = g + g", "g, h = h, g", "h, g = 1, 8100001", "g, l = l, g", "l, g = two()", "g, h = two()", "for g = 0; g < 3; g++ {\n\t\tprint(g)\n\t}", "if h == 5 {\n\t\tg = 1\n\t} else {\n\t\tg = 2\n\t}", "for i := 0; i < 2; i++ {\n\t\tg += i\n\t\th = g\n\t}", "switch h {\n\tcase 5:\n\t\tg++\n\tdefault:\n\t\tg--\n\t}", "inc()", "g = 1\n\tinc()\n\tg = g * 10\n\tinc()"} {
		for k := 0; k < 2; k++ {
			src := "g := 40\nh := 5\nfunc two() (int, int) {\n\treturn 71, g\n}\nfunc inc() {\n\tg++\n\th += g\n}\nfunc f() {\n\tl := 8\n\t" + op + "\n\tprint(g, h, l)\n}\n"
			if k == 0 {
				src += "f()\nprint(g, h)\nf()\nprint(g, h)\n"
			} else {
				src += "func outer(l int) int {\n\tf()\n\tg = g + l\n\treturn g\n}\nl := 3\nprint(outer(l), g, h, l)\nprint(g, h, l)\n"
			}
			b.P(fmt.Sprintf("int%02d-%d", i, k), src)
		}
	}
	for _, t := range types {
		v := tyVals[t]
		mod := "g = " + v[1]
		b.P("ty-"+t, "var g "+t+" = "+v[0]+"\nfunc set() {\n\t"+mod+"\n}\nfunc get() "+t+" {\n\treturn g\n}\nfunc put(p "+t+") "+t+" {\n\tg = p\n\treturn p\n}\nprint("+show("g", t)+", "+show("get()", t)+")\nset()\nprint("+show("g", t)+", "+show("get()", t)+")\ny := put("+v[2]+")\nprint("+show("g", t)+", "+show("y", t)+")\n")
	}
	b.P("str", "s := \"a\"\nfunc f() {\n\ts += \"b\"\n\ts = s + s\n}\nf()\nprint(s)\nf()\nprint(s)\n")
	b.P("bool", "p := 8300001 == 1\nfunc f() bool {\n\tp = !p\n\treturn p\n}\nprint(f(), p)\nprint(p, f())\n")
	b.P("slice", "s := []int{1}\nfunc f(i int) {\n\ts[i] = 8100001\n}\nf(0)\nf(3)\nprint(len(s), s[0], s[1], s[3])\nt := s\nf(1)\nprint(t[1])\n")
	b.P("slicenew", "s := []int{1}\nt := s\nfunc f() {\n\ts = []int{4, 5}\n}\nf()\nprint(len(s), len(t), s[0], t[0])\n")
	b.P("localsame", "func f() int {\n\tg := 1\n\tg++\n\treturn g\n}\ng := 8100001\nprint(f(), g)\ng++\nprint(f(), g)\n")
	b.P("zero", "var g int\nvar s string\nvar p bool\nfunc f() {\n\tg++\n\ts += \"x\"\n\tp = !p\n}\nf()\nprint(g, s, p)\nf()\nprint(g, s, p)\n")
	b.P("multi", "var a, b, c int\nfunc f() (int, int, int) {\n\treturn a + 1, b + 2, c + 3\n}\nfunc g() {\n\ta, b, c = f()\n}\ng()\ng()\nprint(a, b, c)\na, b, c = f()\nprint(a, b, c)\nc, a, b = f()\nprint(a, b, c)\n")
	b.P("defmixed", "a := 1\nfunc f() (int, int) {\n\treturn a, a * 2\n}\na, b := f()\nprint(a, b)\nc, a := f()\nprint(a, b, c)\n")
	b.P("copy", "s := []int{0, 0, 0}\nfunc f(t []int) int {\n\treturn copy(s, t)\n}\nprint(f([]int{7, 8100001}), s[0], s[1], s[2])\n")
	b.P("inarg", "g := 1\nfunc f(a int) int {\n\tg = a\n\treturn g + 1\n}\nprint(f(f(f(8100001))), g)\nx := f(g) + f(g)\nprint(x, g)\n")

	// returns
	b.Fam("returns")
	for n := 1; n <= 13; n++ {
		var rt, rv, ns []string
		for i := 0; i < n; i++ {
			t := []string{"int", "string", "bool"}[i%3]
			rt = append(rt, t)
			rv = append(rv, map[string]string{"int": fmt.Sprintf("p + %d", i), "string": fmt.Sprintf("itoa(p) + \"s%d\"", i), "bool": fmt.Sprintf("p < %d", i)}[t])
			ns = append(ns, fmt.Sprintf("v%d", i))
		}
		r := rt[0]
		if n > 1 {
			r = "(" + strings.Join(rt, ", ") + ")"
		}
		fn := "func f(p int) " + r + " {\n\treturn " + strings.Join(rv, ", ") + "\n}\n"
		l := strings.Join(ns, ", ")
		b.P(fmt.Sprintf("n%d", n), fn+l+" := f(8100001)\nprint("+l+")\n"+l+" = f(2)\nprint("+l+")\n")
		b.P(fmt.Sprintf("inner%d", n), fn+"func g(q int) "+rt[n-1]+" {\n\t"+l+" := f(q)\n\tf(9)\n\treturn v"+fmt.Sprint(n-1)+"\n}\nprint(g(8100001))\n"+l+" := f(1)\nx := g(3)\nprint("+l+", x)\n")
	}
	for _, t := range types {
		b.P("ty-"+t, "func f(c bool) "+t+" {\n\tif c {\n\t\treturn "+tyVals[t][0]+"\n\t}\n\treturn "+tyVals[t][2]+"\n}\nx := f(8300001 == 1)\nprint("+show("x", t)+", "+show("f(true)", t)+", "+show("f(false)", t)+")\nfunc id(p "+t+") "+t+" {\n\treturn p\n}\nx = id(id(f(true)))\nprint("+show("x", t)+")\nvar y "+t+" = id(x)\nprint("+show("y", t)+")\n")
	}
	b.P("early", "func f(n int) string {\n\tif n == 0 {\n\t\treturn \"zero\"\n\t} else if n == 1 {\n\t\tprint(\"one\")\n\t\treturn \"1\"\n\t}\n\tfor i := 0; i < 4; i++ {\n\t\tif i == n {\n\t\t\treturn \"i\" + itoa(i)\n\t\t}\n\t\tprint(\"l\", i)\n\t}\n\tprint(\"late\")\n\treturn \"no\"\n}\nprint(f(8200001))\nprint(f(1), f(0))\nprint(f(9))\n")
	b.P("switch", "func f(n int) (int, string) {\n\tswitch n {\n\tcase 0:\n\t\treturn 10, \"a\"\n\tcase 1:\n\t\treturn 20, \"b\"\n\tdefault:\n\t\tprint(\"def\")\n\t}\n\treturn 30, \"c\"\n}\na, b := f(8200001)\nprint(a, b)\na, b = f(1)\nprint(a, b)\n")
	b.P("nestloop", "func f(n int) int {\n\tfor i := 0; i < 3; i++ {\n\t\tfor j := 0; j < 3; j++ {\n\t\t\tif i * j == n {\n\t\t\t\treturn i * 10 + j\n\t\t\t}\n\t\t}\n\t}\n\treturn -1\n}\nprint(f(8200001), f(4), f(7))\n")
	b.P("swapret", "func f(a int, b int) (int, int) {\n\treturn b, a\n}\nx, y := f(8100001, 8100002)\nprint(x, y)\nx, y = f(x, y)\nprint(x, y)\ny, x = f(x, y)\nprint(x, y)\n")
	b.P("ignored", "func f() int {\n\tprint(\"f\")\n\treturn 8100001\n}\nfunc g() (int, string) {\n\tx := f()\n\tf()\n\treturn x, \"s\"\n}\nf()\ng()\na, b := g()\ng()\nprint(a, b)\n")
	b.P("multistmt", "func f(n int) (int, int) {\n\treturn n, n * 2\n}\nfunc g(n int) (int, int) {\n\ta, b := f(n)\n\tc, d := f(b)\n\treturn a + d, c - b\n}\na, b := g(8100001)\nc, d := f(a)\nprint(a, b, c, d)\n")
	b.P("varform", "func d(a int, b int) (int, int) {\n\treturn a / b, a % b\n}\nvar q, r int = d(8100001, 7)\nprint(q, r)\nvar s, t = d(-8100001, 3)\nprint(s, t)\nu, v := d(q, 2)\nprint(u, v)\n")
	b.P("errpair", "func f(n int) (int, error) {\n\tif n > 1 {\n\t\treturn 0, \"too big\"\n\t}\n\treturn n, nil\n}\nv, err := f(8200001)\nif err != nil {\n\tprint(\"err\", err)\n} else {\n\tprint(v)\n}\nv, err = f(0)\nprint(v, err == nil)\n")
	b.P("clobber", "func f(n int) int {\n\treturn n + 1\n}\nfunc g(n int) (int, int) {\n\treturn f(n), f(n * 2)\n}\na, b := g(8100001)\nprint(a, b, f(a) + f(b), f(a) - f(b))\nprint(f(f(a)) * f(b), (f(a)))\n")
	b.P("strret", "func f() string {\n\treturn \"a  b\"\n}\nfunc g() string {\n\treturn \"\"\n}\nfunc h() string {\n\treturn f() + g() + \" \" + f()\n}\nx := h()\nprint(x, g(), f())\nprint(g() == \"\", h() == \"a  b a  b\")\n")
	b.P("slret", "func f(n int) []int {\n\ts := []int{n, n + 1}\n\treturn s\n}\na := f(8100001)\nb := f(2)\na[0] = 5\nprint(a[0], a[1], b[0], b[1], len(f(3)))\nc := a\nc[1] = 6\nprint(a[1])\n")
	b.P("slretsame", "var g []int = []int{1}\nfunc f() []int {\n\treturn g\n}\na := f()\na[0] = 8100001\nb := f()\nprint(g[0], b[0])\n")
	b.P("twoslices", "func f() ([]int, []string) {\n\treturn []int{8100001}, []string{\"a\", \"b\"}\n}\nx, y := f()\nu, v := f()\nx[0] = 3\ny[1] = \"c\"\nprint(x[0], y[1], u[0], v[1])\n")

	// calls as arguments
	b.Fam("nested")
	for d := 1; d <= 6; d++ {
		e := "8100001"
		for i := 0; i < d; i++ {
			e = []string{"f(", "g(1, ", "g(f(2), "}[i%3] + e + ")"
		}
		b.P(fmt.Sprintf("depth%d", d), "func f(a int) int {\n\treturn a * 2 + 1\n}\nfunc g(a int, b int) int {\n\tc := f(b)\n\treturn c - a\n}\nprint("+e+")\nx := "+e+" + "+e+"\nprint(x)\n")
	}
	b.P("args", "func f(a int, b int, c int) int {\n\treturn a * 100 + b * 10 + c\n}\nfunc one() int {\n\treturn 1\n}\nfunc id(n int) int {\n\treturn n\n}\nprint(f(one(), id(2), id(one() + id(2))))\nprint(f(f(1, 2, 3), id(8100001), f(id(4), one(), 6)))\n")
	b.P("chain", "func a(n int) int {\n\treturn n + 1\n}\nfunc b(n int) int {\n\treturn a(n) * 2\n}\nfunc c(n int) int {\n\treturn b(a(n)) - b(n)\n}\nfunc d(n int) int {\n\tx := c(n)\n\ty := b(x)\n\treturn x + y - a(c(y))\n}\nprint(d(8100001))\n")
	b.P("inif", "func even(n int) bool {\n\treturn n % 2 == 0\n}\nfunc pick(n int) string {\n\tif even(n) && !even(n + 1) {\n\t\treturn \"even\"\n\t}\n\treturn \"odd\"\n}\nfor i := 0; even(i) || i < 4; i++ {\n\tif i == 5 {\n\t\tbreak\n\t}\n\tprint(i, pick(i + 8200001))\n}\nswitch pick(8200001) {\ncase pick(0):\n\tprint(\"E\")\ncase \"odd\":\n\tprint(\"O\")\n}\n")
	b.P("instr", "func n(s string) int {\n\treturn len(s)\n}\nfunc r(s string, k int) string {\n\to := \"\"\n\tfor i := 0; i < k; i++ {\n\t\to += s\n\t}\n\treturn o\n}\nprint(n(r(\"ab\", 8200001)), r(\"x\", n(\"abc\")) + r(\"\", 2))\n")

	b.Fam("swap")
	for i, p := range [][3]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}} {
		v := []string{"a", "b", "c"}
		b.P(fmt.Sprintf("top%d", i), fmt.Sprintf("a := 8100001\nb := 8100002\nc := 8100003\na, b, c = %s, %s, %s\nprint(a, b, c)\n", v[p[0]], v[p[1]], v[p[2]]))
		b.P(fmt.Sprintf("fn%d", i), fmt.Sprintf("g := 7\nfunc f(a int, b int) (int, int, int) {\n\tc := a * b\n\ta, b, c = %s, %s, %s\n\ta, g = g, a\n\treturn a, b, c\n}\na, b, c := f(8100001, 8100002)\nprint(a, b, c, g)\n", v[p[0]], v[p[1]], v[p[2]]))
		b.P(fmt.Sprintf("expr%d", i), fmt.Sprintf("a := 8100001\nb := 8100002\nc := 8100003\n%s, %s, %s = a + b, b * c, c - a\nprint(a, b, c)\n", v[p[0]], v[p[1]], v[p[2]]))
	}
	b.P("str", "a, b := \"x\", \"y y\"\na, b = b + a, a + b\nprint(a)\nprint(b)\n")
	b.P("bool", "a, b := true, 8300001 == 1\na, b = b && a, !a\nprint(a, b)\n")
	b.P("slices", "a := []int{1}\nb := []int{8100001, 3}\na, b = b, a\nprint(len(a), len(b), a[0], b[0])\nb[0] = 9\na, b = b, a\nprint(a[0], b[0])\n")
	b.P("fib", "a, b := 0, 1\nfor i := 0; i < 8200001 + 5; i++ {\n\ta, b = b, a + b\n}\nprint(a, b)\n")
	b.P("defold", "a := 8100001\na, b := a + 1, a + 2\nprint(a, b)\n")
	b.P("varold", "a := 8100001\nvar b, c int = a, a * 2\nprint(a, b, c)\n")
	b.P("mixedtypes", "a, s, p := 1, \"s\", 8300001 == 1\na, s, p = len(s), itoa(a) + s, a == 1\nprint(a, s, p)\n")

	b.Fam("scale")
	{
		var sb strings.Builder
		for i := 0; i < 16; i++ {
			if i == 0 {
				sb.WriteString("func fn0(x int) int {\n\ty := x + 1\n\treturn y\n}\n")
			} else {
				fmt.Fprintf(&sb, "func fn%d(x int) int {\n\ty := fn%d(x) + %d\n\tz := fn%d(y)\n\tx = z - y\n\treturn x + y\n}\n", i, i-1, i, i/2)
			}
		}
		b.P("chain16", sb.String()+"x := 8100001\nprint(fn4(x), x)\n")
		sb.Reset()
		for i := 0; i < 14; i++ {
			fmt.Fprintf(&sb, "func w%d(a int, b int) (int, int) {\n\tc := a * %d\n\td := b + c\n\treturn d, a - b\n}\n", i, i+2)
		}
		sb.WriteString("a, b := 8100001, 8100002\n")
		for i := 0; i < 14; i++ {
			fmt.Fprintf(&sb, "a, b = w%d(b, a)\n", i)
		}
		sb.WriteString("print(a, b)\n")
		b.P("fns14", sb.String())
		sb.Reset()
		sb.WriteString("func f(n int) int {\n")
		for i := 0; i < 20; i++ {
			fmt.Fprintf(&sb, "\tl%d := n + %d\n", i, i)
		}
		sb.WriteString("\treturn l0")
		for i := 1; i < 20; i++ {
			fmt.Fprintf(&sb, " - l%d * %d", i, i)
		}
		sb.WriteString("\n}\nprint(f(8100001), f(2))\n")
		b.P("locals20", sb.String())
		b.P("args30", "func f("+strings.Join(seq("p", 30), " int, ")+" int) int {\n\treturn p29 * 3 + p9 - p10 + p11 * p19 - p20\n}\nprint(f("+strings.Join(seq("8100001 + ", 30), ", ")+"))\n")
		b.P("rets20", "func f(n int) (int"+strings.Repeat(", int", 19)+") {\n\treturn "+strings.Join(seq("n * ", 20), ", ")+"\n}\n"+strings.Join(seq("v", 20), ", ")+" := f(8100001)\nprint("+strings.Join(seq("v", 20), ", ")+")\n")
		sb.Reset()
		sb.WriteString("t := 0\n")
		for i := 0; i < 12; i++ {
			fmt.Fprintf(&sb, "func h%d(p bool, q bool) bool {\n\treturn p && !q || p == q && (q || !p)\n}\n", i)
		}
		sb.WriteString("p := 8300001 == 1\nq := 8300002 == 1\n")
		for i := 0; i < 12; i++ {
			fmt.Fprintf(&sb, "if h%d(p, q) && h%d(q, !p) {\n\tt += %d\n}\n", i, 11-i, i+1)
		}
		sb.WriteString("print(t)\n")
		b.P("helpers12", sb.String())
	}
	n := 120
	if thorough {
		n = 2000
	}
	b.Fam("composed")
	for i := 0; i < n; i++ {
		r := &Rand{R: rand.New(rand.NewSource(seed*200003 + int64(i))), Feat: map[string]bool{"funcs": true, "slices": i%3 == 0, "collide": i%2 == 0}}
		b.P(fmt.Sprintf("s%d-%d", seed, i), r.Program())
	}
	return b.Out
}

// frames: a caller's locals survive a call whatever the signatures of the two functions and the way the
// equally named variables are defined.
func frames(b *B) {
	b.Fam("frames")
	shapes := []struct{ params, rets, ret, call, pre string }{
		{"", "", "", "%s()", ""},
		{"", "int", "\treturn x\n", "%s()", ""},
		{"x int", "", "", "%s(8100009)", ""},
		{"x int", "int", "\treturn x - 1\n", "%s(8100009)", ""},
		{"x int, y int", "(int, int)", "\treturn y, x\n", "%s(8100009, 4)", ""},
		{"s []int", "", "", "%s([]int{1})", ""},
	}
	uses := []struct{ def, use string }{ // %C is the call
		{"\tx := 71\n", "\t%C\n\tprint(x)\n"},
		{"\tvar x int = 71\n\tvar y = x + 1\n", "\t%C\n\tprint(x, y)\n"},
		{"\tx, y := 71, 72\n", "\t%C\n\tx, y = y, x\n\t%C\n\tprint(x, y)\n"},
		{"", "\tfor x := 0; x < 2; x++ {\n\t\t%C\n\t\tprint(x)\n\t}\n"},
		{"", "\tfor x, y := range \"ab\" {\n\t\t%C\n\t\tprint(x, y)\n\t}\n"},
		{"\tq := []int{5, 6}\n", "\tfor x, y := range q {\n\t\t%C\n\t\tprint(x, y, len(q))\n\t}\n"},
		{"", "\tif true {\n\t\tx := 71\n\t\t%C\n\t\tprint(x)\n\t}\n"},
		{"", "\tswitch 1 {\n\tcase 1:\n\t\tx := 71\n\t\t%C\n\t\tprint(x)\n\t}\n"},
	}
	has := func(params, n string) bool { return strings.Contains(params, n+" int") }
	body := func(params string, k int) string { // redefines x and y in the k-th way
		var sb strings.Builder
		for i, n := range []string{"x", "y"} {
			v := fmt.Sprint(900 + 10*k + i)
			if has(params, n) {
				sb.WriteString("\t" + n + " = " + n + " + " + v + "\n")
			} else {
				sb.WriteString("\t" + n + " := " + v + "\n")
			}
		}
		if k == 0 {
			sb.WriteString("\tfor q := 0; q < 2; q++ {\n\t\tx += q\n\t}\n")
		}
		return sb.String()
	}
	sig := func(n string, i int) string {
		r := shapes[i].rets
		if r != "" {
			r += " "
		}
		return "func " + n + "(" + shapes[i].params + ") " + r + "{\n"
	}
	for ci := range shapes { // callee
		for pi := range shapes { // caller
			for mi := 0; mi < len(shapes); mi += 1 + (ci+pi)%3 { // function defined between them (0: none)
				u := uses[(ci*7+pi*3+mi)%len(uses)]
				var sb strings.Builder
				sb.WriteString(sig("callee", ci) + body(shapes[ci].params, 0) + shapes[ci].ret + "}\n")
				if mi > 0 {
					sb.WriteString(sig("mid", mi) + body(shapes[mi].params, 1) + shapes[mi].ret + "}\n")
				}
				call := fmt.Sprintf(shapes[ci].call, "callee")
				def := u.def
				if shapes[pi].params != "" && shapes[pi].params[0] == 'x' {
					def = strings.NewReplacer("var x int = 71", "x = 71", "x := 71", "x = 71").Replace(def)
					if has(shapes[pi].params, "y") {
						def = strings.NewReplacer("var y = x", "y = x", "x, y :=", "x, y =").Replace(def)
					}
					if u.def == "" { // header and block variables would redefine the parameter
						u = uses[mi%2]
						def = "\tx = x + 1\n\ty := 5\n"
						if has(shapes[pi].params, "y") {
							def = "\tx = x + 1\n\ty = y * 2\n"
						}
					} else if strings.HasPrefix(u.def, "\tq") {
						u = uses[2]
						def = "\ty := x\n"
						if has(shapes[pi].params, "y") {
							def = "\tx = y\n"
						}
					}
				}
				rest := ""
				if !strings.Contains(def, "x") && !strings.Contains(shapes[pi].params, "x") {
					rest = "\tx := 55\n"
				}
				ret := shapes[pi].ret
				if strings.Contains(ret, "y") && !has(shapes[pi].params, "y") {
					continue
				}
				sb.WriteString(sig("caller", pi) + def + strings.ReplaceAll(u.use, "%C", call) + rest + ret + "}\n")
				sb.WriteString(fmt.Sprintf(shapes[pi].call, "caller") + "\n")
				if mi > 0 {
					sb.WriteString(fmt.Sprintf(shapes[mi].call, "mid") + "\n" + fmt.Sprintf(shapes[pi].call, "caller") + "\n")
				}
				sb.WriteString(call + "\n")
				b.P(fmt.Sprintf("c%dp%dm%d", ci, pi, mi), sb.String())
			}
		}
	}
}
