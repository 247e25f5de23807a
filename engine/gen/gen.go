// Package gen enumerates program skeletons.
package gen

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
)

// Prog is one skeleton.
type Prog struct {
	ID, Fam, Src string
	Files        map[string]string
	Paths, Steps int
	Strs         map[string][3]string // symbolic strings: min, max length and class
	Stdin        *[3]string
	Pre          map[string][3]string
	Hash         []string // imported files with a symbolic digest
}

// B collects skeletons.
type B struct {
	Out []Prog
	fam string
	n   int
}

func (b *B) Fam(f string) { b.fam, b.n = f, 0 }

// P adds a program.
func (b *B) P(id, src string) *Prog {
	b.n++
	if id == "" {
		id = fmt.Sprintf("%03d", b.n)
	}
	b.Out = append(b.Out, Prog{ID: b.fam + "/" + id, Fam: b.fam, Src: src})
	return &b.Out[len(b.Out)-1]
}

// L joins lines.
func L(l ...string) string { return strings.Join(l, "\n") + "\n" }

var ArithOps = []string{"+", "-", "*", "/", "%"}
var CmpOps = []string{"==", "!=", "<", "<=", ">", ">="}

func vars3() string {
	return "var a int = 8100001\nvar b int = 8100002\nvar c int = 8100003\n"
}

// C01 enumerates scalar programs.
func C01(thorough bool, seed int64) []Prog {
	b := &B{}
	b.Fam("arith2")
	for _, o := range ArithOps {
		for _, q := range ArithOps {
			b.P("var"+o+q, vars3()+L(
				"print(a "+o+" b "+q+" c)",
			))
			b.P("grp"+o+q, vars3()+L(
				"x := a "+o+" (b "+q+" c)",
				"print(x, (a "+o+" b) "+q+" c)",
			))
			b.P("lit"+o+q, L("print(8100001 "+o+" 8100002 "+q+" 8100003)"))
		}
	}
	b.Fam("arith1")
	for _, o := range ArithOps {
		b.P("neg"+o, L("a := -8100001", "b := 8100002", "print(a "+o+" b)", "print(b "+o+" a, a "+o+" -3, -8100001 "+o+" -8100002)"))
		b.P("self"+o, L("a := 8100001", "a = a "+o+" a", "print(a)"))
		b.P("cmpd"+o, L("a := 8100001", "b := -8100002", "a "+o+"= b", "print(a)", "a "+o+"= b + 2", "print(a, b)"))
		b.P("cmpdlit"+o, L("var a int = 8100001", "a "+o+"= 8100002", "print(a)", "a "+o+"= -7", "print(a)"))
		b.P("chain4"+o, L("a := 8100001", "b := 8100002", "print(a "+o+" b "+o+" 3 "+o+" 2)", "print(a "+o+" (b "+o+" (3 "+o+" 2)))"))
	}
	for i, v := range []string{"0", "1", "9223372036854775807", "-9223372036854775807", "2147483648", "4294967296", "007", "08", "0010"} {
		b.P(fmt.Sprintf("const%d", i), L("a := "+v, "print(a, a + 8100001, a * 3)"))
	}
	b.P("mixed", L("a := 8100001", "b := 8100002", "c := -8100003", "d := a + b * c - a / 7 % 5", "print(d)", "print(a - b - c, a - (b - c), a * (b + c) * 2, (a))"))
	b.P("minus", L("a := 8100001", "b := 8100002", "print(a-b)", "print(a-1)", "print(a -b)", "print(a- b)", "print(a - -b1())")) // replaced below
	b.Out = b.Out[:len(b.Out)-1]
	b.P("minusws", L("a := 8100001", "b := 8100002", "print(a - b)", "print(a - 1)", "print(a -b)", "print(a- b)", "print((a) - 1)", "print(a - -1)", "print(a+b*-2)"))

	b.Fam("cmp")
	for _, o := range CmpOps {
		b.P("int"+o, L("a := 8100001", "b := 8100002", "print(a "+o+" b)", "print(a "+o+" 5, 8100003 "+o+" b)", "x := a "+o+" b", "if x {", "\tprint(1)", "} else {", "\tprint(2)", "}"))
		b.P("neg"+o, L("a := -8100001", "b := 8100002", "print(a "+o+" b, b "+o+" a, a "+o+" -3)", "if a "+o+" b {", "\tprint(\"yes\")", "}", "print(\"end\")"))
		b.P("expr"+o, L("a := 8100001", "b := 8100002", "print(a + 1 "+o+" b * 2)", "print((a - b) "+o+" (b - a))", "var r bool = a % 3 "+o+" b % 3", "print(r)"))
	}
	for _, o := range CmpOps[:2] {
		b.P("str"+o, L(`s := "abc"`, `t := "ab"`, "print(s "+o+" t, t "+o+" s, s "+o+" \"abc\", \"\" "+o+" t, s "+o+" t + \"c\")", "if s "+o+" t {", "\tprint(\"y\")", "}"))
		b.P("itoa"+o, L("s := itoa(8200001)", "t := itoa(8200002)", "print(s "+o+" t, s + t "+o+" t + s)"))
		b.P("bool"+o, L("p := 8300001 == 1", "q := 8300002 == 1", "print(p "+o+" q, p "+o+" true, false "+o+" q)", "print(p "+o+" q "+o+" p)", "print(8100001 < 3 "+o+" q)"))
		b.P("strspec"+o, L(`s := "a b"`, `t := " a b"`, `u := ""`, "print(s "+o+" t, u "+o+" \"\", u "+o+" s, \"-n\" "+o+" \"-n\", \"(\" "+o+" \")\", \"!\" "+o+" u, \"=\" "+o+" \"=\", \"1\" "+o+" \"01\")"))
	}
	b.Fam("logic")
	ps := L("p := 8300001 == 1", "q := 8300002 == 1", "r := 8300003 == 1")
	lg := []string{"&&", "||"}
	for _, o := range lg {
		for _, w := range lg {
			b.P("t"+o+w, ps+L("print(p "+o+" q "+w+" r)", "print(p "+o+" (q "+w+" r), (p "+o+" q) "+w+" r)"))
			b.P("n"+o+w, ps+L("print(!p "+o+" !q "+w+" !r)", "print(!(p "+o+" q) "+w+" r, !(p "+o+" !(q "+w+" r)))"))
			b.P("c"+o+w, L("a := 8100001", "b := 8100002", "if a < b "+o+" a == 3 "+w+" b > 7 {", "\tprint(1)", "} else if a + 1 == b "+w+" !(a >= b "+o+" b < 2) {", "\tprint(2)", "} else {", "\tprint(3)", "}"))
		}
		b.P("lit"+o, L("p := 8300001 == 1", "print(p "+o+" true, false "+o+" p, true "+o+" false, p "+o+" p)", "x := p "+o+" true "+o+" !p", "print(x)", "x = x "+o+" p", "print(x)"))
		b.P("long"+o, ps+L("print(p "+o+" q "+o+" r "+o+" p == q "+o+" q != r "+o+" 1 < 2 "+o+" !p)"))
	}
	b.P("not", ps+L("print(!p, !true, !false, !(p), !(!(p)))", "x := !q", "x = !x", "print(x)", "if !p {", "\tprint(\"np\")", "}", "for !x {", "\tprint(\"loop\")", "\tx = !x", "}", "print(x)"))
	b.P("notnot", ps+L("print(!!p, !!!q)"))
	b.P("noteq", ps+L("print(!p == q, p != !q, !(p == q) == r)"))
	b.P("prec", L("a := 8100001", "b := 8100002", "p := 8300001 == 1", "print(a + b < a * b && p || !p && a == b)", "print(p || a < b && b < a, (p || a < b) && b < a)", "print(a < b == p, p != (a < b))"))

	b.Fam("def")
	for i, s := range []string{
		"var x int\nprint(x)", "var x bool\nprint(x)", "var x string\nprint(x)\nprint(x + \"e\")", "var x error\nprint(x)\nif x == nil {\n\tprint(\"nil\")\n}",
		"var x int = 8100001\nprint(x)", "var x = 8100001\nprint(x)", "x := 8100001\nprint(x)", "var x, y int\nprint(x, y)", "var x, y int = 8100001, 8100002\nprint(x, y)",
		"var x, y = 8100001, \"s\"\nprint(x, y)", "x, y := 8100001, true\nprint(x, y)", "x, y, z := \"a\", 8100001, false\nprint(x, y, z)",
		"x := 1\nx, y := 8100001, x\nprint(x, y)", "var x bool = 8300001 == 1\nvar y bool = !x\nprint(x, y)", "x := 8100001\nx = 5\ny := x\nx = 6\nprint(x, y)",
		"a, b := 8100001, 8100002\na, b = b, a\nprint(a, b)", "a, b, c := 8100001, 8100002, 8100003\na, b, c = c, a, b\nprint(a, b, c)",
		"a, b := 8100001, 8100002\na, b = a + b, a - b\nprint(a, b)", "a := 8100001\nb := a\na++\nprint(a, b)\nb--\na--\nprint(a, b)", "a := 8100001\na += a\na -= 1\na *= 2\nprint(a)",
		"s := \"x\"\ns += \"y\"\ns += s\nprint(s)\ns = s + \"!\"\nprint(s)", "s := \"a\"\nt := \"b\"\ns, t = t, s\nprint(s, t)", "s := \"a\"\ns += itoa(8100001)\ns += \"\"\nprint(s)",
		"p, q := true, 8300001 == 1\np, q = q, p\nprint(p, q)", "x := \"\"\nprint(x)\nprint(\"\")\nprint()", "print()\nprint(\"a\", \"\", \"b\")\nprint(\"\", 8100001)",
		"var err error = \"bad\"\nif err != nil {\n\tprint(err)\n}\nerr = nil\nprint(err == nil)", "print(itoa(8100001) + itoa(-8100002))\nprint(itoa(8100001 + 1))", "var s string = itoa(8100001)\nprint(s == itoa(8100002))",
		"var a, b, c bool\nprint(a, b, c)\na, b = true, !c\nprint(a, b, c)", "x := (8100001)\ny := ((x + 1) * 2)\nprint(x, y)\nz := (\"a\")\nw := (true)\nprint(z, w)",
		"a := 8100001\nb := 8100002\nt := a\na = b\nb = t\nprint(a, b)", "x := nil\nprint(x)\nx = \"v\"\nprint(x == nil, x != nil)",
		"a, b := 8100001, 8100002\nb, a = a * 2, b\nc := a - b\nprint(a, b, c)", "a := 1\na = a + 1\na = a + a\na = a * a\nprint(a)",
	} {
		b.P(fmt.Sprintf("%02d", i), s+"\n")
	}
	b.Fam("print")
	b.P("mix", L("print(8100001, true, false, \"a b\", 8100002 == 3, -8100003)", "print(1 + 2 * 3, \"x\" + \"y\", !true)"))
	b.P("many", L("print(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 8100001, 12)"))
	b.P("alone", L("print(-8100001)", "print(\"-n\")", "print(\"-e\", \"x\")", "print(\"--\")"))

	b.Fam("panic")
	b.P("str", L("print(\"a\")", "panic(\"boom\")", "print(\"b\")"))
	b.P("var", L("s := \"e\" + itoa(8100001)", "if 8300001 == 1 {", "\tpanic(s)", "}", "print(\"alive\")"))
	b.P("loop", L("for i := 0; i < 5; i++ {", "\tif i == 8200001 {", "\t\tpanic(\"at \" + itoa(i))", "\t}", "\tprint(i)", "}", "print(\"done\")"))
	b.P("sw", L("switch 8200001 {", "case 0:", "\tprint(\"zero\")", "case 1:", "\tpanic(\"one\")", "default:", "\tprint(\"other\")", "}", "print(\"end\")"))
	b.P("err", L("var err error = \"e\"", "if err != nil {", "\tpanic(err)", "}"))

	b.Fam("if")
	for n := 0; n <= 4; n++ {
		for _, el := range []bool{false, true} {
			var sb strings.Builder
			sb.WriteString("a := 8200001\nb := 8100002\n")
			fmt.Fprintf(&sb, "if a == 0 {\n\tprint(\"c0\")\n\ta = 9\n}")
			for i := 1; i <= n; i++ {
				fmt.Fprintf(&sb, " else if a == %d || b == %d {\n\tprint(\"c%d\", b)\n\ta = a + %d\n\tb--\n}", i, i, i, i)
			}
			if el {
				sb.WriteString(" else {\n\tprint(\"else\", b)\n\ta = 5\n}")
			}
			sb.WriteString("\nprint(a, b)\n")
			b.P(fmt.Sprintf("chain%d%v", n, el), sb.String())
		}
	}
	b.P("nest", L("a := 8200001", "b := 8200002", "if a == 1 {", "\tif b == 1 {", "\t\tprint(11)", "\t} else {", "\t\tif b == 2 {", "\t\t\tprint(12)", "\t\t}", "\t\tprint(\"x\")", "\t}", "} else if b == 0 {", "\tif a == 0 {", "\t\tprint(0)", "\t} else if a == 2 {", "\t\tprint(2)", "\t} else {", "\t\tprint(3)", "\t}", "} else {", "\tprint(\"e\")", "}", "print(\"z\")"))
	b.P("empty", L("a := 8300001", "if a == 1 {", "}", "if a == 0 {", "} else {", "}", "if a == 0 {", "\tprint(0)", "} else if a == 1 {", "} else {", "\tprint(2)", "}", "print(\"end\")"))
	b.P("eager", L("a := 8200001", "if a == 0 {", "\ta = 1", "\tprint(\"A\")", "} else if a == 1 {", "\ta = 2", "\tprint(\"B\")", "}", "print(a)"))
	b.P("boolvar", L("p := 8300001 == 1", "q := 8300002 == 1", "if p {", "\tprint(\"p\")", "} else if q {", "\tprint(\"q\")", "}", "if (p) {", "\tprint(\"gp\")", "}", "if true {", "\tprint(\"t\")", "}", "if false {", "\tprint(\"f\")", "}"))
	b.P("locals", L("a := 8200001", "if a > 1 {", "\tx := a * 2", "\tprint(x)", "} else {", "\tx := a + 10", "\tprint(x)", "}", "if a < 2 {", "\tx := \"s\"", "\tprint(x)", "}"))
	b.P("deep", L("a := 8200001", "if a >= 0 {", "\tif a >= 1 {", "\t\tif a >= 2 {", "\t\t\tif a >= 3 {", "\t\t\t\tprint(3)", "\t\t\t} else {", "\t\t\t\tprint(2)", "\t\t\t}", "\t\t} else {", "\t\t\tprint(1)", "\t\t}", "\t} else {", "\t\tprint(0)", "\t}", "}"))

	b.Fam("switch")
	for _, t := range []struct{ n, tag, c0, c1, c2 string }{
		{"int", "a", "0", "1", "a + 1"}, {"intlit", "8200001", "0", "1", "2"}, {"expr", "a + 1", "1", "2", "b"}, {"bool", "a == 1", "true", "b == 2", "false"}, {"none", "", "a == 0", "b == 1", "a < b"},
		{"true", "true", "a == 0", "b == 1", "a == b"}, {"str", "itoa(a)", "\"0\"", "\"1\"", "itoa(b)"}, {"false", "false", "a == 0", "b == 1", "a == b"},
	} {
		for d := 0; d <= 4; d++ {
			if d == 1 || d == 2 {
				continue // default in the middle is asserted separately
			}
			var sb strings.Builder
			fmt.Fprintf(&sb, "a := 8200001\nb := 8200002\nswitch %s {\n", t.tag)
			if t.tag == "" {
				sb.Reset()
				sb.WriteString("a := 8200001\nb := 8200002\nswitch {\n")
			}
			for i, c := range []string{t.c0, t.c1, t.c2} {
				fmt.Fprintf(&sb, "case %s:\n\tprint(\"c%d\", a)\n\ta = a + 1\n", c, i)
			}
			if d == 3 {
				sb.WriteString("default:\n\tprint(\"d\", b)\n\tb = 7\n")
			}
			sb.WriteString("}\nprint(a, b)\n")
			b.P(fmt.Sprintf("%s%d", t.n, d), sb.String())
		}
	}
	b.P("defmid", L("switch 8200001 {", "case 0:", "\tprint(0)", "default:", "\tprint(\"d\")", "case 1:", "\tprint(1)", "}", "print(\"e\")"))
	b.P("deffirst", L("switch 8200001 {", "default:", "\tprint(\"d\")", "case 0:", "\tprint(0)", "case 1:", "\tprint(1)", "}", "print(\"e\")"))
	b.P("defonly", L("switch 8200001 {", "default:", "\tprint(\"d\")", "}", "print(\"e\")"))
	b.P("empties", L("a := 8200001", "switch a {", "case 0:", "case 1:", "\tprint(1)", "case 2:", "default:", "}", "print(\"e\")"))
	b.P("one", L("a := 8200001", "switch a {", "case 2:", "\tprint(\"two\")", "}", "print(\"e\")"))
	b.P("nocase", L("a := 8200001", "switch a {", "}", "print(\"e\", a)"))
	b.P("dup", L("a := 8200001", "switch a {", "case 1:", "\tprint(\"first\")", "case a:", "\tprint(\"second\")", "case 2:", "\tprint(\"third\")", "}"))
	b.P("nested", L("a := 8200001", "b := 8200002", "switch a {", "case 0:", "\tswitch b {", "\tcase 0:", "\t\tprint(\"00\")", "\tdefault:", "\t\tprint(\"0x\")", "\t}", "\tprint(\"after\")", "case 1:", "\tif b == 1 {", "\t\tprint(\"11\")", "\t}", "default:", "\tswitch {", "\tcase b > a:", "\t\tprint(\"gt\")", "\t}", "}"))
	b.P("eager", L("a := 8200001", "switch a {", "case 0:", "\ta = 1", "\tprint(\"A\")", "case 1:", "\ta = 0", "\tprint(\"B\")", "}", "print(a)"))
	b.P("locals", L("a := 8200001", "switch a {", "case 0:", "\tx := 1", "\tprint(x)", "case 1:", "\tx := \"s\"", "\tprint(x)", "default:", "\tx := true", "\tprint(x)", "}"))
	b.P("inloop", L("for i := 0; i < 4; i++ {", "\tswitch i {", "\tcase 8200001:", "\t\tprint(\"hit\", i)", "\tcase 2:", "\t\tcontinue", "\tdefault:", "\t\tprint(\"def\", i)", "\t}", "\tprint(\"end\", i)", "}"))
	b.P("loopin", L("a := 8200001", "switch a {", "case 1:", "\tfor i := 0; i < 3; i++ {", "\t\tif i == 1 {", "\t\t\tbreak", "\t\t}", "\t\tprint(i)", "\t}", "\tprint(\"x\")", "case 2:", "\tfor {", "\t\tbreak", "\t}", "\tprint(\"y\")", "}", "print(\"z\")"))

	b.Fam("for")
	incs := []string{"i++", "i += 2", "i = i + 1", "i = i * 2 + 1"}
	for _, inc := range incs {
		b.P("three "+inc, L("n := 8200001", "for i := 0; i < n; "+inc+" {", "\tprint(i)", "}", "print(\"end\")"))
		b.P("body "+inc, L("i := 0", "for i < 8200001 {", "\tprint(i)", "\t"+inc, "}", "print(i)"))
	}
	for _, c := range CmpOps {
		b.P("cond"+c, L("for i := 0; i "+c+" 8200001 && i < 5; i++ {", "\tprint(i)", "}", "print(\"end\")"))
	}
	b.P("down", L("for i := 8200001; i > 0; i-- {", "\tprint(i)", "}", "print(\"end\")"))
	b.P("inf", L("i := 0", "for {", "\tif i == 8200001 {", "\t\tbreak", "\t}", "\tprint(i)", "\ti++", "}", "print(\"end\", i)"))
	b.P("noinit", L("i := 8200001", "for ; i < 4; i++ {", "\tprint(i)", "}", "print(i)"))
	b.P("nocond", L("for i := 0; ; i++ {", "\tif i > 8200001 {", "\t\tbreak", "\t}", "\tprint(i)", "}"))
	b.P("nopost", L("for i := 0; i < 8200001; {", "\tprint(i)", "\ti++", "}"))
	b.P("condonly", L("i := 0", "for ; i < 8200001; {", "\tprint(i)", "\ti++", "}"))
	b.P("none", L("i := 0", "for ;; {", "\ti++", "\tif i > 8200001 {", "\t\tbreak", "\t}", "}", "print(i)"))
	b.P("boolcond", L("go_ := 8300001 == 1", "for go_ {", "\tprint(\"once\")", "\tgo_ = false", "}", "print(go_)"))
	b.P("falsecond", L("for false {", "\tprint(\"no\")", "}", "for i := 5; i < 5; i++ {", "\tprint(\"no\")", "}", "print(\"ok\")"))
	b.P("truecond", L("i := 0", "for true {", "\ti++", "\tif i >= 8200001 {", "\t\tbreak", "\t}", "}", "print(i)"))
	b.P("postmulti", L("j := 10", "for i := 0; i < 3; i++ {", "\tj -= i", "\tprint(i, j)", "}", "print(j)"))
	b.P("twovars", L("for i, j := 0, 8200001; i < 3; i, j = i + 1, j + i {", "\tprint(i, j)", "}"))
	b.P("initassign", L("var i int", "for i = 8200001; i < 3; i++ {", "\tprint(i)", "}", "print(i)"))
	b.P("cond-mod", L("n := 3", "for i := 0; i < n; i++ {", "\tif i == 8200001 {", "\t\tn = n + 1", "\t\tif n > 5 {", "\t\t\tbreak", "\t\t}", "\t}", "\tprint(i, n)", "}", "print(n)"))
	b.P("strcond", L(`s := ""`, `for s != "aaa" {`, `	s += "a"`, "	print(s)", "}"))
	b.P("locals", L("for i := 0; i < 3; i++ {", "\tvar x int", "\tx += i", "\tvar s string", "\ts += \"k\"", "\tprint(x, s)", "}"))
	b.P("seq", L("for i := 0; i < 2; i++ {", "\tprint(\"a\", i)", "}", "for i := 0; i < 8200001; i++ {", "\tprint(\"b\", i)", "}", "i := \"s\"", "print(i)"))
	b.P("emptybody", L("i := 0", "for i = 0; i < 8200001; i++ {", "}", "print(i)"))
	b.P("modbody", L("for i := 0; i < 6; i++ {", "\tprint(i)", "\ti += 8200001", "}"))

	b.Fam("range")
	b.P("str", L(`for i, c := range "abc" {`, "\tprint(i, c)", "}", "print(\"end\")"))
	b.P("strvar", L(`s := "xyz" + itoa(8200001)`, "for i, c := range s {", "\tif i == 8200002 {", "\t\tcontinue", "\t}", "\tprint(c, i)", "}"))
	b.P("strempty", L(`s := ""`, "for i, c := range s {", "\tprint(i, c)", "}", "print(\"end\")"))
	b.P("strbreak", L(`for i, c := range "hello" {`, "\tif i == 8200001 {", "\t\tbreak", "\t}", "\tprint(c)", "}"))
	b.P("slice", L("for i, v := range []int{8100001, 7, 8100002} {", "\tprint(i, v)", "}"))
	b.P("nested", L(`for i, c := range "ab" {`, `	for j, d := range "xy" {`, "\t\tprint(i, j, c + d)", "\t}", "}"))
	b.P("seq", L(`for i, c := range "ab" {`, "\tprint(i, c)", "}", `for i, c := range "cd" {`, "\tprint(i, c)", "}"))
	b.P("reassign", L(`s := "abc"`, "for i, c := range s {", `	s = "q"`, "	print(i, c, s)", "}", "print(s)"))

	// loops x loops with every placement of break/continue
	b.Fam("nestloop")
	outer := map[string][2]string{"three": {"for i := 0; i < 3; i++ {\n", ""}, "cond": {"i := -1\nfor i < 2 {\n\ti++\n", ""}, "inf": {"i := -1\nfor {\n\ti++\n\tif i > 2 {\n\t\tbreak\n\t}\n", ""}, "range": {"for i, e := range \"pqr\" {\n\tprint(e)\n", ""}, "nopost": {"for i := 0; i < 3; {\n\ti++\n", ""}}
	inner := map[string]string{"three": "\tfor j := 0; j < 3; j++ {\n", "cond": "\tj := -1\n\tfor j < 2 {\n\t\tj++\n", "inf": "\tj := -1\n\tfor {\n\t\tj++\n\t\tif j > 2 {\n\t\t\tbreak\n\t\t}\n", "range": "\tfor j, f := range \"xyz\" {\n\t\tprint(f)\n"}
	for _, o := range []string{"three", "cond", "inf", "range", "nopost"} {
		for _, n := range []string{"three", "cond", "inf", "range"} {
			for _, k := range []string{"bb", "bc", "cb", "cc"} {
				bc := map[byte]string{'b': "break", 'c': "continue"}
				src := outer[o][0] + "\tif i == 8200001 {\n\t\t" + bc[k[0]] + "\n\t}\n" + inner[n] + "\t\tif j == 8200002 {\n\t\t\t" + bc[k[1]] + "\n\t\t}\n\t\tprint(i, j)\n\t}\n\tprint(\"o\", i)\n}\nprint(\"end\")\n"
				b.P(o+"-"+n+"-"+k, src)
			}
		}
	}
	b.P("after", L("for i := 0; i < 3; i++ {", "\tfor j := 0; j < 2; j++ {", "\t\tprint(i, j)", "\t}", "\tif i == 8200001 {", "\t\tcontinue", "\t}", "\tif i == 8200002 {", "\t\tbreak", "\t}", "\tprint(\"t\", i)", "}"))
	b.P("three-deep", L("for i := 0; i < 2; i++ {", "\tfor j := 0; j < 2; j++ {", "\t\tfor k := 0; k < 3; k++ {", "\t\t\tif k == 8200001 {", "\t\t\t\tcontinue", "\t\t\t}", "\t\t\tif j == 8200002 {", "\t\t\t\tbreak", "\t\t\t}", "\t\t\tprint(i, j, k)", "\t\t}", "\t}", "}"))
	b.P("mix-deep", L("i := 0", "for {", "\ti++", "\tfor j := i; j < 4; j++ {", "\t\tk := 0", "\t\tfor k < j {", "\t\t\tk++", "\t\t\tif k == 8200001 {", "\t\t\t\tbreak", "\t\t\t}", "\t\t}", "\t\tif k == j {", "\t\t\tcontinue", "\t\t}", "\t\tprint(i, j, k)", "\t}", "\tif i > 8200002 {", "\t\tbreak", "\t}", "}", "print(\"end\")"))
	b.P("inner-noinc", L("for i := 0; i < 2; i++ {", "\tj := 0", "\tfor j < 2 {", "\t\tj++", "\t\tprint(i, j)", "\t}", "}", "print(\"end\")"))
	b.P("inner-inf", L("for i := 0; i < 2; i++ {", "\tfor {", "\t\tprint(i)", "\t\tbreak", "\t}", "}", "print(\"end\")"))
	b.P("deep5", L("for a := 0; a < 2; a++ {", "\tfor b := 0; b < 2; b++ {", "\t\tfor c := 0; c < 2; c++ {", "\t\t\tfor d := 0; d < 2; d++ {", "\t\t\t\tfor e := 0; e < 2; e++ {", "\t\t\t\t\tif a + b + c + d + e == 8200001 {", "\t\t\t\t\t\tprint(a, b, c, d, e)", "\t\t\t\t\t}", "\t\t\t\t}", "\t\t\t}", "\t\t}", "\t}", "}"))

	b.Fam("brk")
	for _, k := range []string{"break", "continue"} {
		b.P("if-"+k, L("for i := 0; i < 4; i++ {", "\tif i == 8200001 {", "\t\tprint(\"k\", i)", "\t\t"+k, "\t} else if i == 8200002 {", "\t\tprint(\"l\", i)", "\t} else {", "\t\tprint(\"m\")", "\t}", "\tprint(i)", "}"))
		b.P("else-"+k, L("for i := 0; i < 4; i++ {", "\tif i < 8200001 {", "\t\tprint(i)", "\t} else {", "\t\t"+k, "\t}", "\tprint(\"x\", i)", "}"))
		b.P("elif-"+k, L("for i := 0; i < 4; i++ {", "\tif i < 0 {", "\t\tprint(i)", "\t} else if i == 8200001 {", "\t\t"+k, "\t} else {", "\t\tprint(\"e\")", "\t}", "\tprint(\"x\", i)", "}"))
		b.P("nestif-"+k, L("for i := 0; i < 4; i++ {", "\tif i > 0 {", "\t\tif i == 8200001 {", "\t\t\t"+k, "\t\t}", "\t\tprint(\"in\", i)", "\t}", "\tprint(\"x\", i)", "}"))
		b.P("last-"+k, L("for i := 0; i < 3; i++ {", "\tprint(i)", "\t"+k, "}", "print(\"end\")"))
		b.P("first-"+k, L("for i := 0; i < 3; i++ {", "\t"+k, "\tprint(i)", "}", "print(\"end\")"))
	}
	b.P("cont-in-switch", L("for i := 0; i < 4; i++ {", "\tswitch {", "\tcase i == 8200001:", "\t\tcontinue", "\tcase i == 8200002:", "\t\tprint(\"s\", i)", "\t}", "\tprint(i)", "}"))

	// scale
	b.Fam("scale")
	{
		var sb strings.Builder
		for i := 0; i < 30; i++ {
			fmt.Fprintf(&sb, "v%d := 8100001 + %d\n", i, i)
		}
		sb.WriteString("t := 0\n")
		for i := 0; i < 30; i++ {
			fmt.Fprintf(&sb, "t = t * 3 - v%d\nprint(t)\n", i)
		}
		b.P("vars30", sb.String())
		sb.Reset()
		for i := 0; i < 12; i++ {
			fmt.Fprintf(&sb, "for i := 0; i < 2; i++ {\n\tif i == %d || i == 8300001 {\n\t\tcontinue\n\t}\n\tprint(%d, i)\n}\n", i%2, i)
		}
		b.P("loops12", sb.String())
		sb.Reset()
		sb.WriteString("a := 8100001\nif a == 0 {\n\tprint(0)\n}")
		for i := 1; i < 14; i++ {
			fmt.Fprintf(&sb, " else if a == %d {\n\tprint(%d)\n}", i*3, i)
		}
		sb.WriteString(" else {\n\tprint(\"none\")\n}\n")
		b.P("elif14", sb.String())
		sb.Reset()
		sb.WriteString("a := 8100001\nswitch a {\n")
		for i := 1; i < 14; i++ {
			fmt.Fprintf(&sb, "case %d:\n\tprint(\"c%d\")\n", i*3, i)
		}
		sb.WriteString("default:\n\tprint(\"none\")\n}\n")
		b.P("case14", sb.String())
		sb.Reset()
		sb.WriteString("p := 8300001 == 1\nx := p")
		for i := 0; i < 60; i++ {
			sb.WriteString([]string{" && ", " || "}[i%2] + []string{"p", "!p", "(p == true)"}[i%3])
		}
		sb.WriteString("\nprint(x)\na := 8100001")
		for i := 0; i < 60; i++ {
			sb.WriteString([]string{" + ", " - ", " * "}[i%3] + fmt.Sprint(i+1))
		}
		sb.WriteString("\nprint(a)\n")
		b.P("helpers130", sb.String())
	}
	n := 60
	if thorough {
		n = 1500
	}
	b.Fam("composed")
	for i := 0; i < n; i++ {
		r := &Rand{R: rand.New(rand.NewSource(seed*100003 + int64(i))), Feat: map[string]bool{}}
		b.P(fmt.Sprintf("s%d-%d", seed, i), r.Program())
	}
	return b.Out
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
