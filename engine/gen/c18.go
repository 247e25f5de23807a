package gen

import (
	"fmt"
	"math/rand"
	"strings"
)

// C18 enumerates programs that call commands.
func C18(thorough bool, seed int64) []Prog {
	b := &B{}
	str := func(p *Prog, kv ...[3]string) {
		if p.Strs == nil {
			p.Strs = map[string][3]string{}
		}
		for i, s := range kv {
			p.Strs["SS"+string(rune('A'+i))] = s
		}
	}
	txt := func(n int) [3]string { return [3]string{"0", fmt.Sprint(n), "text"} }

	b.Fam("args")
	lits := []string{`""`, `" "`, `"  a  b "`, `"*"`, `"$HOME"`, `"${x}"`, `"$(echo hi)"`, "\"`echo hi`\"", `"\\"`, `"a\\nb"`, `"\""`, `"'"`, `"-n"`, `"--"`, `";"`, `"&"`, `"|"`, `">"`, `"a=b"`, `"~"`, `"{a,b}"`, `"[a-z]"`, `"?"`, `"!"`, `"#x"`, `"\n"`, `"\t"`, `"a\n"`, `"(x)"`, `"%s"`, `"\\\\"`, "`raw \"q\" $x`"}
	for i, l := range lits {
		b.P(fmt.Sprintf("lit%02d", i), "@argv("+l+")\ns := "+l+"\n@argv(s, "+l+", s + \"x\")\no, e, c := @argv("+l+", s)\nprint(o, c)\n")
	}
	for n := 0; n <= 12; n++ {
		var a []string
		for i := 0; i < n; i++ {
			a = append(a, lits[(i*7+n)%len(lits)])
		}
		l := strings.Join(a, ", ")
		b.P(fmt.Sprintf("arity%d", n), "@argv("+l+")\no, e, c := @argv("+l+")\nprint(o, c)\n")
	}
	// symbolic arguments
	forms := map[string]string{
		"lit":   "@argv(\"SSA\")\n",
		"two":   "@argv(\"SSA\", \"SSB\")\n",
		"cap":   "o, e, c := @argv(\"SSA\", \"SSB\")\nprint(o)\nprint(c)\n",
		"var":   "s := \"SSA\"\nt := \"SSB\"\n@argv(s, t, s)\n",
		"cat":   "@argv(\"SSA\" + \"SSB\", \"SSA\" + \"\")\n",
		"slice": "l := []string{\"SSA\", \"SSB\"}\n@argv(l[0], l[1], l[8200001 % 2])\n",
		"param": "func f(a string, b string) {\n\t@argv(a, b, a + b)\n}\nf(\"SSA\", \"SSB\")\n",
		"ret":   "func f(a string) string {\n\treturn a\n}\n@argv(f(\"SSA\"), f(\"SSB\"))\n",
		"sub":   "s := \"SSA\" + \"xyz\"\n@argv(s[0], s[1:], s[:2])\n",
		"itoa":  "s := \"SSA\"\n@argv(itoa(8100001), s, itoa(len(s)))\n",
		"first": "@say(\"SSA\", \"SSB\")\n@say(\"\\n\")\n",
		"glob":  "var g string = \"SSA\"\nfunc f() {\n\tg += \"SSB\"\n\t@argv(g)\n}\nf()\n@argv(g)\n",
		"loop":  "for i := 0; i < 2; i++ {\n\t@argv(\"SSA\", itoa(i))\n}\nfor i, c := range \"SSB\" {\n\t@argv(c)\n}\n",
		"if":    "if \"SSA\" == \"SSB\" {\n\t@argv(\"same\", \"SSA\")\n} else {\n\t@argv(\"SSB\", \"SSA\")\n}\n",
	}
	for _, n := range sortedKeys(forms) {
		str(b.P("sym-"+n, forms[n]), txt(2), txt(2))
	}
	str(b.P("sym-long", "@argv(\"SSA\")\n"), [3]string{"4", "4", "text"})
	for i, al := range []string{"$(){}a", "`ab\\", "\"'$a", "*?[]!", " \t\n-", "<>|&;", "%\\nsd", "~={},"} {
		str(b.P(fmt.Sprintf("alpha%d", i), "s := \"SSA\"\n@argv(s)\no, e, c := @argv(s, \"SSA\")\nprint(o)\n"), [3]string{"3", "5", "alpha:" + al})
	}

	b.Fam("name")
	for _, n := range []string{"argv", `"argv"`, "while", `"while"`, `"time"`, "time", `"my app"`, `"_sah"`, "_sah", `"x$y"`, `"a*"`, "function", "select", "coproc", `"a;b"`, `"q\"q"`, `"-dash"`, `"[x"`, `"{"`, `"}"`} {
		b.P(n, "@"+n+"(\"a\", \"b c\")\no, e, c := @"+n+"(\"\")\nprint(o, c)\ns := []string{}\ns[1] = \"x\"\nprint(len(s))\nfunc argv(a string) {\n\tprint(\"user function\", a)\n}\n@argv(\"not the function\")\nargv(\"z\")\n")
	}

	b.Fam("capture")
	caps := map[string]string{
		"basic":   "o, e, c := @say(\"SSA\")\nprint(\"[\" + o + \"]\", len(o), c)\n",
		"nl":      "o, e, c := @sayln(\"SSA\")\nprint(\"[\" + o + \"]\", len(o), c)\n",
		"two":     "o, e, c := @sayln(\"SSA\", \"SSB\")\nprint(\"[\" + o + \"]\", c)\n",
		"assign":  "var o string\nvar e string\nvar c int\no, e, c = @say(\"SSA\")\nprint(o)\no, e, c = @sayln(\"SSB\", \"SSA\")\nprint(o, c)\n",
		"fn":      "func f(s string) (string, int) {\n\to, e, c := @say(s)\n\treturn o, c\n}\no, c := f(\"SSA\")\nprint(o, c)\np, d := f(\"SSB\")\nprint(p, o, d)\n",
		"use":     "o, e, c := @say(\"SSA\")\nif o == \"SSA\" {\n\tprint(\"same\")\n}\nif c == 0 && len(o) == len(\"SSA\") {\n\tprint(\"ok\", o + o)\n}\ns := []string{o}\ns[2] = o\nprint(s[2] == o, s[0])\n",
		"again":   "o, e, c := @say(\"SSA\")\np, f, d := @argv(o, o + \"SSB\")\nprint(p, c, d)\n@argv(o, p)\n",
		"write":   "o, e, c := @sayln(\"SSA\", \"\", \"SSB\")\nwrite(\"f\", o)\nprint(read(\"f\"))\n",
		"noprint": "print(\"a\")\no, e, c := @sayln(\"SSA\")\nprint(\"b\")\n@say(\"SSB\")\nprint(\"c\", c)\n",
	}
	for _, n := range sortedKeys(caps) {
		str(b.P(n, caps[n]), txt(2), txt(2))
	}
	for i, s := range []string{`""`, `"\n"`, `"\n\n"`, `"\n\n\n"`, `"a\n"`, `"a\n\n"`, `"\na"`, `" "`, `" \n"`, `"x"`, `"ax"`, `"x\n"`, `"nx\n\n"`, `"\t\n"`} {
		b.P(fmt.Sprintf("end%02d", i), "o, e, c := @say("+s+")\nprint(\"[\" + o + \"]\", len(o), c)\nfunc f() string {\n\to2, e2, c2 := @say("+s+")\n\treturn o2\n}\nprint(\"[\" + f() + \"]\", len(f()))\n")
	}

	b.Fam("status")
	b.P("sym", "o, e, c := @fail(itoa(8200001), \"t\", \"x\")\nprint(o, c)\nif c == 2 {\n\tprint(\"two\")\n} else if c > 0 {\n\tprint(\"bad\")\n}\nprint(c + 1)\n")
	for _, n := range []string{"0", "1", "2", "7", "42", "125", "126", "127", "128", "130", "200", "255"} {
		b.P(n, "o, e, c := @fail(\""+n+"\", \"t\\n\\n\", \"x\")\nprint(o, c)\n@fail(\""+n+"\", \"u\\n\", \"x\")\nprint(\"on\")\np, q, r := @argv(\"z\")\nprint(p, c, r)\n@argv(\"a\")\nfunc f() int {\n\to2, e2, c2 := @fail(\""+n+"\", \"\", \"x\")\n\treturn c2\n}\nprint(f() + 1)\n")
	}
	b.P("loop", "for i := 0; i < 3; i++ {\n\to, e, c := @fail(itoa(i), \"o\" + itoa(i), \"x\")\n\tprint(o, c)\n\tif c == 8200001 {\n\t\tbreak\n\t}\n}\n")
	b.P("last", "o, e, c := @fail(\"3\", \"a\", \"x\") | @pass()\nprint(o, c)\no, e, c = @say(\"b\") | @fail(\"4\", \"c\")\nprint(o, c)\no, e, c = @fail(\"5\", \"d\", \"x\") | @fail(itoa(8200001), \"e\")\nprint(o, c)\no, e, c = @say(\"f\") | @fail(\"9\", \"\") | @wrap(\"<\", \">\")\nprint(o, c)\n")
	b.P("types", "o, e, c := @fail(\"3\", \"b\", \"x\")\nvar n int = c\nvar s string = o + e\nn += 8100001\nprint(n, s, len(s), len(e), itoa(c))\nswitch c {\ncase 3:\n\tprint(\"three\")\ndefault:\n\tprint(\"other\")\n}\n")

	b.Fam("pipe")
	pipes := map[string]string{
		"2":    "@say(\"SSA\") | @wrap(\"<\", \">\\n\")\n",
		"3":    "@say(\"SSA\") | @wrap(\"<\", \">\") | @wrap(\"SSB\", \"\\n\")\n",
		"cap2": "o, e, c := @say(\"SSA\") | @wrap(\"SSB\", \"]\")\nprint(o, c, len(o))\n",
		"cap3": "o, e, c := @sayln(\"SSA\", \"SSB\") | @pass() | @wrap(\"<\", \"\")\nprint(o, c)\n",
		"cap4": "o, e, c := @say(\"SSA\") | @wrap(\"1\", \"1\") | @wrap(\"2\", \"2\") | @wrap(\"3\", \"3\") | @wrap(\"4\", \"4\")\nprint(o, c)\n",
		"drop": "@say(\"SSA\") | @drop()\no, e, c := @say(\"SSB\") | @drop() | @wrap(\"\", \"!\")\nprint(o, c)\n",
		"args": "s := \"SSA\"\n@say(s) | @argv(s, \"SSB\")\n@argv(\"SSB\") | @wrap(s, s)\n@say(\"\\n\")\n",
		"fn":   "func f(a string, b string) string {\n\to, e, c := @say(a) | @wrap(b, b)\n\treturn o\n}\nprint(f(\"SSA\", \"SSB\"), f(f(\"SSB\", \"x\"), \"SSA\"))\n",
		"vars": "a := \"x\"\no, e, c := @say(a) | @wrap(\"SSA\", \"\")\na = \"y\"\nprint(o, a, c)\np, f, d := @say(a) | @wrap(\"SSB\", \"\")\nprint(o, p, d)\n",
		"loop": "s := \"SSA\"\nfor i := 0; i < 3; i++ {\n\to, e, c := @say(s) | @wrap(\"<\", itoa(i))\n\ts = o\n}\nprint(s)\n",
		"eval": "func f(s string) string {\n\tprint(\"f\", s)\n\treturn s\n}\n@say(f(\"SSA\")) | @wrap(f(\"SSB\"), f(\"c\"))\no, e, c := @say(f(\"d\"), f(\"e\")) | @wrap(f(\"f\"), f(\"g\"))\nprint(o)\n",
		"str":  "@\"say\"(\"SSA\") | @\"wrap\"(\"<\", \">\\n\")\n@\"while\"(\"SSB\") | @\"pass\"()\n",
	}
	for _, n := range sortedKeys(pipes) {
		str(b.P(n, pipes[n]), txt(2), txt(2))
	}
	b.P("lines", "@sayln(\"1\", \"2\", \"3\") | @pass() | @wrap(\"0\\n\", \"4\\n\")\no, e, c := @sayln(\"1\", \"2\") | @pass()\nprint(o)\n@say(o) | @wrap(\"\", \"\\n\")\n")

	b.Fam("err")
	errs := map[string]string{
		"cap":   "o, e, c := @say(\"\") | @err(\"E\", \"SSA\")\nprint(\"[\" + o + \"]\", len(o), c)\n",
		"pipe":  "@say(\"SSA\") | @err(\"E\\n\", \"SSB\") | @wrap(\"<\", \">\\n\")\n",
		"cap3":  "o, e, c := @say(\"SSA\") | @err(\"SSB\", \"x\") | @wrap(\"<\", \">\")\nprint(o, c)\n",
		"last":  "o, e, c := @say(\"SSA\") | @wrap(\"(\", \")\") | @err(\"SSB\", \"x\")\nprint(o, c)\n@say(\"SSB\") | @err(\"SSA\")\n",
		"fn":    "func f(s string) string {\n\to, e, c := @say(s) | @err(s, \"<\", s)\n\treturn o\n}\nprint(f(\"SSA\") + f(\"SSB\"))\n",
		"sandw": "o, e, c := @say(\"a\") | @err(\"SSA\") | @err(\"SSB\") | @argv(\"SSA\")\nprint(o, c)\n",
	}
	for _, n := range sortedKeys(errs) {
		str(b.P(n, errs[n]), txt(2), txt(2))
	}
	b.Fam("mix")
	p := b.P("input", "s := input()\n@argv(s)\nt := input()\no, e, c := @say(s, t)\nprint(o, c)\n@say(t) | @wrap(s, \"\\n\")\n")
	p.Stdin = &[3]string{"0", "4", "text"}
	p = b.P("file", "s := read(\"data\")\n@argv(s)\no, e, c := @say(s)\nprint(o == s, len(o) == len(s), c)\nwrite(\"copy\", o)\n@say(read(\"copy\"), \"|\\n\")\n")
	p.Pre = map[string][3]string{"data": {"0", "3", "text"}}
	b.P("nest", "func g(s string) string {\n\to, e, c := @say(s, s)\n\treturn o\n}\nfunc f(s string) string {\n\to, e, c := @argv(g(s), s)\n\treturn o\n}\nprint(f(g(\"a \")))\n@argv(f(\"*\"), g(\"$x\"))\n")
	b.P("names", "_h0 := \"a\"\n_s := \"b\"\n_rv0 := \"c\"\no, e, c := @fail(\"3\", _h0 + _s + _rv0, \"x\")\nprint(o, c, _h0, _s, _rv0)\n")
	b.P("keep", "o, e, c := @say(\"a\")\no2, e2, c2 := @fail(\"2\", \"b\", \"x\")\nprint(o, c, o2, c2)\nfunc f() {\n\to3, e3, c3 := @fail(\"1\", \"c\", \"x\")\n\tprint(o3, c3)\n}\nf()\nprint(o, c, o2, c2)\n")
	b.P("stderr", "o, e, c := @say(\"a\")\nprint(\"[\" + e + \"]\", len(e))\n")

	// random compositions
	b.Fam("rand")
	r := rand.New(rand.NewSource(seed * 77))
	n := 40
	if thorough {
		n = 600
	}
	for k := 0; k < n; k++ {
		vars := []string{`"SSA"`, `"SSB"`}
		var sb strings.Builder
		infn := r.Intn(3) == 0
		if infn {
			sb.WriteString("func f(p string, q string) string {\n")
			vars = append(vars, "p", "q")
		}
		val := func() string {
			v := vars[r.Intn(len(vars))]
			switch r.Intn(6) {
			case 0:
				return v + " + " + vars[r.Intn(len(vars))]
			case 1:
				return lits[r.Intn(len(lits))]
			}
			return v
		}
		call := func() string {
			first := []string{"@say(" + val() + ", " + val() + ")", "@argv(" + val() + ", " + val() + ", " + val() + ")", "@sayln(" + val() + ")", "@fail(\"" + fmt.Sprint(r.Intn(4)) + "\", " + val() + ", \"x\")"}[r.Intn(4)]
			for i := r.Intn(3); i > 0; i-- {
				first += " | " + []string{"@pass()", "@wrap(" + val() + ", " + val() + ")", "@fail(\"" + fmt.Sprint(r.Intn(4)) + "\", " + val() + ")", "@wrap(\"<\", " + val() + ")"}[r.Intn(4)]
			}
			return first
		}
		for i := 0; i < 4+r.Intn(4); i++ {
			switch r.Intn(4) {
			case 0:
				sb.WriteString(call() + "\n")
			case 1, 2:
				v := fmt.Sprintf("o%d", i)
				sb.WriteString(fmt.Sprintf("%s, e%d, c%d := %s\nprint(%s, c%d)\n", v, i, i, call(), v, i))
				vars = append(vars, v)
			case 3:
				v := fmt.Sprintf("s%d", i)
				sb.WriteString(v + " := " + val() + "\n")
				vars = append(vars, v)
			}
		}
		if infn {
			sb.WriteString("return " + vars[len(vars)-1] + "\n}\nprint(f(\"SSB\", \"$a\"))\nprint(f(\"\", \"SSA\"))\n")
		}
		p := b.P("", sb.String()+"print(\"end\")\n")
		str(p, [3]string{"0", "1", "text"}, [3]string{"0", "1", "text"})
	}
	return b.Out
}
