package gen

import (
	"fmt"
	"math/rand"
	"strings"
)

// C03 enumerates slice and string programs.
func C03(thorough bool, seed int64) []Prog {
	b := &B{}
	elems := map[string][]string{"int": {"8100001", "-5", "8100002"}, "bool": {"8300001 == 1", "true", "false"}, "string": {`"a b"`, `""`, `"k" + itoa(8100001)`}}
	zero := map[string]string{"int": "0", "bool": "false", "string": `""`}
	_ = zero
	dump := func(n, lab string) string {
		return "print(\"" + lab + "\", len(" + n + "))\nfor _i" + lab + ", _v" + lab + " := range " + n + " {\n\tprint(_i" + lab + ", _v" + lab + ")\n}\n"
	}

	b.Fam("inst")
	for t, e := range map[string][]string{"int": elems["int"], "bool": elems["bool"], "string": elems["string"]} {
		for n := 0; n <= 4; n++ {
			var v []string
			for i := 0; i < n; i++ {
				v = append(v, e[i%3])
			}
			b.P(fmt.Sprintf("%s%d", t, n), "s := []"+t+"{"+strings.Join(v, ", ")+"}\n"+dump("s", "s")+"var u []"+t+" = []"+t+"{"+strings.Join(v, ", ")+"}\nprint(len(u))\nfor i := 0; i < len(u); i++ {\n\tprint(u[i])\n}\n")
		}
		for _, i := range []string{"0", "1", "2", "3", "5", "8200001", "len(s)", "len(s) + 1", "8200001 + 2", "k", "k - 1"} {
			b.P("grow-"+t+"-"+i, "k := 8200002 + 1\ns := []"+t+"{"+e[0]+", "+e[1]+"}\ns["+i+"] = "+e[2]+"\n"+dump("s", "s")+"s["+i+"] = "+e[1]+"\nprint(len(s), s["+i+"], s[0], s[1])\n")
			b.P("growempty-"+t+"-"+i, "k := 8200002 + 1\nvar s []"+t+" = []"+t+"{}\ns["+i+"] = "+e[0]+"\n"+dump("s", "s"))
		}
	}
	b.P("var", "var s []int\nprint(len(s))\ns[0] = 8100001\nprint(len(s), s[0])\nvar t []string\nfor i, v := range t {\n\tprint(i, v)\n}\nt[1] = \"x\"\nprint(len(t), t[0] == \"\", t[1])\nprint(len(s))\n")
	b.P("exprs", "a := 8100001\ns := []int{a, a + 1, a * 2, (a), -1, len(\"abc\")}\na = 3\nprint(s[0], s[1], s[2], s[3], s[4], s[5])\nt := []string{\"a\" + \"b\", itoa(a), \"x\"}\nprint(t[0], t[1], t[2])\nu := []bool{a < 3, !(a == 1), a == 3 && true}\nprint(u[0], u[1], u[2])\n")
	b.P("special", "s := []string{\"-n\", \" \", \"a  b\", \"*\", \"[0]\", \"=\"}\nfor i, v := range s {\n\tprint(i, \"[\" + v + \"]\", s[i] == v)\n}\nt := s[1]\nprint(\"[\" + t + \"]\", s[1] == t, len(s[2]))\n")
	b.P("nilret", "func f() []int {\n\treturn []int{}\n}\nx := f()\nx[2] = 8100001\nprint(len(x), x[0], x[1], x[2], len(f()))\n")

	b.Fam("index")
	for _, i := range []string{"8200001", "i", "i + 0", "(i)", "3 - i", "len(s) - 1 - i", "i % 4", "i * 1", "s[i] - s[i] + i", "f(i)", "len(\"abc\") - i", "t[i]"} {
		b.P("read-"+i, "func f(n int) int {\n\treturn 3 - n\n}\ni := 8200001\nt := []int{3, 2, 1, 0}\ns := []int{8100001, 8100002, 11, 22}\nprint(s["+i+"])\nx := s["+i+"] + s[0]\nprint(x)\nif s["+i+"] == 11 {\n\tprint(\"eleven\")\n}\ns["+i+"] = s["+i+"] + 1\nprint(s[0], s[1], s[2], s[3])\n")
	}
	b.P("nested", "s := []int{1, 2, 0}\nt := []int{2, 0, 1}\nprint(s[t[s[8200001 % 3]]], t[s[t[0]]])\ns[t[0]] = 8100001\nprint(s[0], s[1], s[2])\ns[s[0]] = t[t[1]]\nprint(s[0], s[1], s[2])\n")
	b.P("ops", "s := []int{8100001, 8100002}\nprint(s[0] + s[1], s[0] - s[1], s[0] * 2, s[0] < s[1], s[0] == s[1], -3 + s[1])\nt := []string{\"a\", \"b\"}\nprint(t[0] + t[1], t[0] == t[1], t[0] != \"b\", t[1] + \"x\" + t[0])\nu := []bool{8300001 == 1, true}\nprint(!u[0], u[0] && u[1], u[0] || !u[1], u[0] == u[1])\n")
	b.P("cond", "u := []bool{8300001 == 1, false, true}\nfor i := 0; i < 3; i++ {\n\tif u[i] {\n\t\tprint(\"T\", i)\n\t} else if !u[i] && i == 1 {\n\t\tprint(\"F\", i)\n\t}\n}\nswitch u[0] {\ncase u[1]:\n\tprint(\"f\")\ncase u[2]:\n\tprint(\"t\")\n}\n")
	b.P("loopw", "s := []int{}\nfor i := 0; i < 8200001 + 2; i++ {\n\ts[i] = i * i\n}\nfor i := len(s) - 1; i > -1; i-- {\n\tprint(i, s[i])\n}\n")
	b.P("append", "s := []string{}\nfor i := 0; i < 8200001; i++ {\n\ts[len(s)] = \"e\" + itoa(i)\n}\n"+dump("s", "s"))
	b.P("sum", "s := []int{8100001, 8100002, 8100003}\nt := 0\nfor i := 0; i < len(s); i++ {\n\tt += s[i]\n}\nprint(t)\nm := s[0]\nfor i, v := range s {\n\tif v > m {\n\t\tm = v\n\t}\n}\nprint(m)\n")
	b.P("swap", "s := []int{8100001, 2, 8100003}\nt := s[0]\ns[0] = s[2]\ns[2] = t\nprint(s[0], s[1], s[2])\n")
	b.P("bubble", "s := []int{8200001, 8200002, 8200003}\nfor i := 0; i < len(s); i++ {\n\tfor j := 0; j < len(s) - 1 - i; j++ {\n\t\tif s[j] > s[j + 1] {\n\t\t\tt := s[j]\n\t\t\ts[j] = s[j + 1]\n\t\t\ts[j + 1] = t\n\t\t}\n\t}\n}\nprint(s[0], s[1], s[2])\n")

	b.Fam("alias")
	for i, p := range []string{
		"t := s\nt[0] = 8100001\nprint(s[0], t[0])\ns[1] = 7\nprint(t[1])\n",
		"t := s\nu := t\nu[4] = 8100001\nprint(len(s), len(t), len(u), s[3], s[4])\n",
		"t := s\ns = []int{5}\nt[0] = 8100001\nprint(s[0], t[0], len(s), len(t))\n",
		"t := s\ns[0], t[1] = 1, 2\n", // replaced if rejected
		"var t []int = s\nt[0] = 9\nt = []int{}\nt[0] = 8\nprint(s[0], t[0], len(t))\n",
		"t := []int{7}\nt = s\nt[2] = 8100001\nprint(s[2], len(s))\n",
		"func f(a []int) []int {\n\ta[1] = 8100001\n\treturn a\n}\nt := f(s)\nt[0] = 4\nprint(s[0], s[1], t[0], t[1])\n",
		"func f(a []int, b []int) {\n\ta[0] = 8100001\n\tb[0] = a[0] + 1\n}\nf(s, s)\nprint(s[0])\nt := []int{0}\nf(s, t)\nprint(s[0], t[0])\nf(t, s)\nprint(s[0], t[0])\n",
		"func g(a []int) {\n\ta[5] = 1\n}\nfunc f(a []int) int {\n\tb := a\n\tg(b)\n\treturn len(a)\n}\nprint(f(s), len(s))\n",
		"func f() []int {\n\treturn s\n}\nf()\nt := f()\nt[0] = 8100001\nu := f()\nprint(s[0], u[0])\n",
		"func mk() []int {\n\tl := []int{1, 2}\n\treturn l\n}\na := mk()\nb := mk()\na[0] = 8100001\nprint(a[0], b[0])\nfor i := 0; i < 2; i++ {\n\tc := mk()\n\tprint(c[0])\n\tc[0] = 9\n}\n",
		"for i := 0; i < 3; i++ {\n\tt := []int{i}\n\tt[1] = 8100001\n\tprint(len(t), t[0], t[1])\n}\n",
		"t := []int{1}\nu := []int{2}\nif 8300001 == 1 {\n\tt = u\n}\nt[0] = 7\nprint(t[0], u[0])\n",
		"t := s\nfunc f() {\n\tt[0] = 8100001\n\ts[1] = 6\n}\nf()\nprint(s[0], s[1], t[0], t[1])\n",
		"t := s\nu := []int{9, 9}\ns, u = u, s\ns[0] = 1\nu[0] = 8100001\nprint(s[0], t[0], u[0], s[1], t[1])\n",
		"func two(a []int) ([]int, []int) {\n\treturn a, []int{3}\n}\nt, u := two(s)\nt[0] = 8100001\nu[0] = 4\nprint(s[0], t[0], u[0])\n",
		"t := []string{\"x\"}\nu := t\nu[0] += \"\"\nprint(t[0])\n",
	} {
		if i == 3 || i == 16 {
			continue
		}
		b.P(fmt.Sprintf("a%02d", i), "s := []int{10, 20}\n"+p)
	}
	b.P("ptr-chain", "a := []string{\"0\"}\nb := a\nc := b\nd := c\nd[0] = \"d\"\nb[1] = \"b\"\nprint(a[0], a[1], len(c))\na = []string{}\nprint(len(a), len(b), len(d))\n")
	b.P("literals", "func f(a []string) int {\n\ta[len(a)] = \"n\"\n\treturn len(a)\n}\nprint(f([]string{}), f([]string{\"a\"}), f([]string{\"a\", \"b\"}))\nprint(f([]string{}))\n")

	b.Fam("copy")
	for d := 0; d <= 4; d++ {
		for n := 0; n <= d+2; n++ {
			if n < d { // longer destinations are excluded
				continue
			}
			mk := func(n int, base int) string {
				var v []string
				for i := 0; i < n; i++ {
					v = append(v, fmt.Sprintf("8100001 + %d", base+i))
				}
				return "[]int{" + strings.Join(v, ", ") + "}"
			}
			b.P(fmt.Sprintf("int%d-%d", d, n), "d := "+mk(d, 100)+"\ns := "+mk(n, 1)+"\nc := copy(d, s)\nprint(c, len(s))\nfor i := 0; i < len(s); i++ {\n\tprint(d[i], d[i] == s[i])\n}\nprint(copy(d, s))\ncopy(d, s)\n")
		}
	}
	b.P("str", "d := []string{\"1\", \"2\"}\ns := []string{\"a b\", \"\", \"*\"}\nn := copy(d, s)\nprint(n, len(d), d[0], d[1], d[2])\ns[0] = \"changed\"\nprint(d[0])\n")
	b.P("bool", "d := []bool{}\ns := []bool{true, 8300001 == 1}\nprint(copy(d, s), len(d), d[0], d[1])\n")
	b.P("alias", "s := []int{1, 2}\nd := []int{0}\ne := d\nprint(copy(d, s), e[0], e[1], len(e))\nprint(copy(s, s), s[0], s[1])\n")
	b.P("fn", "func cp(d []int, s []int) int {\n\tn := copy(d, s)\n\tcopy(d, s)\n\treturn n\n}\nd := []int{}\nprint(cp(d, []int{8100001, 2, 3}), len(d), d[0], d[2])\nfunc mk(s []int) []int {\n\tr := []int{}\n\tcopy(r, s)\n\treturn r\n}\nx := mk(d)\nx[0] = 5\nprint(d[0], x[0], len(x))\n")
	b.P("expr", "s := []int{4, 5, 8100001}\nd := []int{}\nif copy(d, s) == 3 && copy(d, s) > 2 {\n\tprint(d[2] + copy(d, s))\n}\n")
	b.P("global", "var g []int = []int{}\nfunc f(s []int) {\n\tcopy(g, s)\n}\nf([]int{8100001})\nprint(len(g), g[0])\n")

	b.Fam("len")
	b.P("expr", "s := []int{1, 2, 3}\nprint(len(s) + 1, len(s) * len(s), len(s) == 3, len(\"abc\") - len(\"\"), len(\"a\" + \"bc\"), len(itoa(8200001)))\nif len(s) > 2 && len(\"x\") == 1 {\n\tprint(\"ok\")\n}\n")
	b.P("lit", "print(len([]int{}), len([]string{\"a\", \"b\"}), len([]bool{true}))\n")
	b.P("loop", "s := []string{\"a\"}\nfor len(s) < 8200001 + 2 {\n\ts[len(s)] = \"b\"\n\tprint(len(s))\n}\n")
	b.P("str", "s := \"\"\nfor len(s) < 8200001 {\n\ts += \"x\"\n\tprint(len(s), s)\n}\nprint(len(s))\n")
	b.P("spaces", "print(len(\" \"), len(\"  a  \"), len(\"\\t\"), len(\"-n\"))\n")
	b.P("eltstr", "s := []string{\"abc\", \"\", \"d\"}\nfor i := 0; i < len(s); i++ {\n\tprint(len(s[i]))\n}\nprint(len(s[8200001 % 3]))\n")
	b.P("call", "func f() string {\n\treturn \"hello\"\n}\nfunc g() []int {\n\treturn []int{1, 2}\n}\nprint(len(f()), len(g()), len(f() + f()))\n")

	b.Fam("range")
	for t, e := range elems {
		b.P("ty-"+t, "s := []"+t+"{"+strings.Join(e, ", ")+"}\nfor i, v := range s {\n\tprint(i, v)\n}\nfor k, w := range []"+t+"{"+e[0]+"} {\n\tprint(k, w)\n}\nfor k, w := range []"+t+"{} {\n\tprint(k, w)\n}\n")
	}
	b.P("write", "s := []int{1, 2, 3}\nfor i, v := range s {\n\ts[i] = v * 8100001\n}\nprint(s[0], s[1], s[2])\n")
	b.P("writeahead", "s := []int{1, 2, 3}\nfor i, v := range s {\n\tif i < 2 {\n\t\ts[i + 1] = v + s[i + 1]\n\t}\n\tprint(v)\n}\n")
	b.P("brk", "s := []int{5, 6, 7, 8}\nfor i, v := range s {\n\tif i == 8200001 {\n\t\tbreak\n\t}\n\tif v == 6 {\n\t\tcontinue\n\t}\n\tprint(i, v)\n}\n")
	b.P("nested", "s := []int{1, 2}\nt := []string{\"a\", \"b\", \"c\"}\nfor i, v := range s {\n\tfor j, w := range t {\n\t\tif j == 8200001 {\n\t\t\tcontinue\n\t\t}\n\t\tprint(i, j, v, w)\n\t}\n}\n")
	b.P("same", "s := []int{1, 2}\nfor i, v := range s {\n\tfor j, w := range s {\n\t\tprint(i * 10 + j, v * w)\n\t}\n}\n")
	b.P("alias", "s := []int{1, 2, 3}\nt := s\nfor i, v := range t {\n\ts[i] = v + 1\n}\nprint(t[0], t[1], t[2])\n")
	b.P("fn", "func f(s []int) int {\n\tr := 0\n\tfor i, v := range s {\n\t\tr += v * i\n\t}\n\treturn r\n}\nprint(f([]int{8100001, 8100002}), f([]int{}))\nx := []int{3, 4}\nfor i, v := range x {\n\tprint(f(x) + v, i)\n}\n")
	b.P("strs", "w := []string{\"ab\", \"\", \"c\"}\nfor i, s := range w {\n\tfor j, c := range s {\n\t\tprint(i, j, c)\n\t}\n}\n")
	b.P("reassignsl", "s := []int{1, 2}\nfor i, v := range s {\n\ts = []int{7, 8}\n\tprint(i, v)\n}\nprint(s[0])\n")
	b.P("nested-var", "s := []int{1, 2}\nfor i, v := range s {\n\tx := v\n\tfor j, v2 := range []int{x, x + 1} {\n\t\tx += v2\n\t\tprint(i, j, x)\n\t}\n}\n")

	// all in-range index pairs of strings of length 0..4 with symbolic indices
	b.Fam("substr")
	for n := 0; n <= 5; n++ {
		s := "abcde"[:n]
		if n > 0 {
			b.P(fmt.Sprintf("idx%d", n), fmt.Sprintf("s := %q\ni := 8200001\nif i < %d {\n\tprint(s[i], len(s[i]))\n\tc := s[i]\n\tprint(c + s[0])\n}\nprint(s[0], s[%d])\n", s, n, n-1))
		}
		b.P(fmt.Sprintf("pair%d", n), fmt.Sprintf("s := %q\na := 8200001 + 8300001\nb := 8200002 + 8300002\nif a <= b && b <= %d {\n\tprint(\"[\" + s[a:b] + \"]\", len(s[a:b]))\n\tt := s[a:b]\n\tprint(t == s[a:b], len(t) == b - a)\n}\n", s, n))
		b.P(fmt.Sprintf("half%d", n), fmt.Sprintf("s := %q\na := 8200001 + 8300001\nif a <= %d {\n\tprint(\"[\" + s[a:] + \"]\", \"[\" + s[:a] + \"]\", s[:a] + s[a:] == s)\n}\nprint(\"[\" + s[:] + \"]\", s[:] == s, len(s[:]))\n", s, n))
	}
	b.P("exprs", "s := \"hello world\"\ni := 8200001\nprint(s[i + 1], s[i * 2:i * 3 + 1], s[len(s) - 1], s[len(s) - i - 1:], s[:len(s) - i], s[(i):(i) + 2], s[i - i:len(s)])\n")
	b.P("chain", "s := \"abcdef\"\nprint(s[1:5] + s[1:3], s[2:] + s[1], s[:4] + s[2:] + s[0:3] + s[0])\n")
	b.P("calls", "func f(n int) int {\n\treturn n + 1\n}\ng := \"abcdef\"\nprint(g[f(0)], g[f(1):f(3)], g[f(-1):], g[:f(8200001)])\n")
	b.P("elt", "s := []string{\"abc\", \"defg\"}\nt := s[1]\nprint(t[1:3], t[0])\nu := s[0]\nprint(u[8200001 % 3])\n")
	b.P("inloop", "s := \"abcd\"\nr := \"\"\nfor i := 0; i < len(s); i++ {\n\tr = s[i] + r\n}\nprint(r)\nfor i := 0; i <= len(s); i++ {\n\tprint(s[:i] + \"|\" + s[i:])\n}\n")
	b.P("find", "s := \"banana\"\nt := \"an\"\nc := 0\nfor i := 0; i + len(t) <= len(s); i++ {\n\tif s[i:i + len(t)] == t {\n\t\tc++\n\t}\n}\nprint(c)\n")
	b.P("spaces", "s := \" a  b \"\nprint(\"[\" + s[0] + \"]\", \"[\" + s[0:3] + \"]\", \"[\" + s[2:] + \"]\", \"[\" + s[:2] + \"]\", len(s[1:5]), s[0] == \" \", s[0:1] == s[5:6])\n")
	b.P("fnlocal", "func mid(s string, a int, b int) string {\n\tr := s[a:b]\n\treturn r + s[a]\n}\nprint(mid(\"abcdef\", 8200001, 5), mid(\"xyz\", 0, 1))\ns := \"q\"\nprint(s[0:1], mid(s + \"rs\", 1, 3))\n")
	b.P("cond", "s := \"abc\"\nif s[0] == \"a\" && s[1:] == \"bc\" || s[8200001 % 3] == \"x\" {\n\tprint(\"ok\")\n}\nswitch s[8200001 % 3] {\ncase \"a\":\n\tprint(\"A\")\ncase s[1]:\n\tprint(\"B\")\ndefault:\n\tprint(\"D\")\n}\n")
	b.P("assign", "s := \"abc\"\ns = s[1:] + s[0]\nprint(s)\ns += s[1:2]\nprint(s)\nt := s\ns = \"z\"\nprint(t, s)\n")

	b.Fam("str")
	for _, n := range []int{0, 1, 2, 3} {
		for _, m := range []int{0, 1, 2} {
			k := fmt.Sprintf("cat%d-%d", n, m)
			p := b.P(k, "s := \"SSA\"\nt := \"SSB\"\nu := s + t\nprint(u, len(u))\nprint(u == s, s == t, s != t, t + s == u, u[:len(s)] == s, u[len(s):] == t)\nfor i, c := range u {\n\tprint(i, c, u[i] == c)\n}\n")
			p.Strs = map[string][3]string{"SSA": {fmt.Sprint(n), fmt.Sprint(n), "word"}, "SSB": {fmt.Sprint(m), fmt.Sprint(m), "word"}}
		}
	}
	p := b.P("symidx", "s := \"SSA\"\na := 8200001\nb := 8200002\nif a <= b && b <= len(s) {\n\tprint(s[a:b], len(s[a:b]), s[:a] + s[a:b] + s[b:] == s)\n}\nif a < len(s) {\n\tprint(s[a], s[a:a + 1] == s[a])\n}\n")
	p.Strs = map[string][3]string{"SSA": {"0", "3", "word"}}
	p = b.P("symslice", "s := []string{\"SSA\", \"x\"}\nt := s\nt[8200001] = \"SSB\"\nfor i, v := range s {\n\tprint(i, v, len(v), v == \"SSA\")\n}\n")
	p.Strs = map[string][3]string{"SSA": {"0", "2", "word"}, "SSB": {"0", "2", "word"}}
	p = b.P("symcmp", "s := \"SSA\"\nt := \"SSB\"\nif s == t {\n\tprint(\"same\")\n} else if s + \"x\" == t {\n\tprint(\"px\")\n} else if s != \"\" && t == \"\" {\n\tprint(\"empty\")\n}\nswitch s {\ncase \"a\":\n\tprint(1)\ncase t:\n\tprint(2)\ncase \"\":\n\tprint(3)\n}\n")
	p.Strs = map[string][3]string{"SSA": {"0", "2", "word"}, "SSB": {"0", "2", "word"}}
	p = b.P("symrev", "func rev(s string) string {\n\tr := \"\"\n\tfor i, c := range s {\n\t\tr = c + r\n\t}\n\treturn r\n}\ns := \"SSA\"\nprint(rev(s), rev(rev(s)) == s, rev(s) == s)\n")
	p.Strs = map[string][3]string{"SSA": {"0", "4", "word"}}
	p = b.P("symcopy", "d := []string{}\ns := []string{\"SSA\", \"\", \"SSB\"}\nprint(copy(d, s), d[0], d[1], d[2], d[0] == s[0])\n")
	p.Strs = map[string][3]string{"SSA": {"0", "2", "print"}, "SSB": {"0", "1", "print"}}

	b.Fam("scale")
	{
		var v []string
		for i := 0; i < 40; i++ {
			v = append(v, fmt.Sprintf("8100001 - %d", i*7))
		}
		b.P("forty", "s := []int{"+strings.Join(v, ", ")+"}\nprint(len(s), s[39], s[10], s[9], s[11], s[1])\ns[40] = 8100002\ns[12] = 4\nprint(len(s), s[40], s[12], s[1], s[2])\n")
		b.P("gap", "s := []int{8100001}\ns[25] = 8100002\nprint(len(s), s[0], s[1], s[12], s[24], s[25])\nt := []string{}\nt[11] = \"x\"\nprint(len(t), t[10] == \"\", t[11])\nu := []bool{}\nu[10] = true\nprint(len(u), u[9], u[10])\n")
		b.P("longstr", "s := \"abcdefghijklmnopqrstuvwxyz0123456789\"\nprint(len(s), s[10], s[25], s[35], s[9:12], s[30:], s[:11], s[10:20])\nfor i, c := range s {\n\tif i > 8200001 + 8 && i < 13 {\n\t\tprint(i, c)\n\t}\n}\n")
		b.P("sieve", "p := []bool{}\nfor i := 0; i < 20; i++ {\n\tp[i] = true\n}\nfor i := 2; i < 20; i++ {\n\tif p[i] {\n\t\tfor j := i + i; j < 20; j += i {\n\t\t\tp[j] = false\n\t\t}\n\t}\n}\nfor i, v := range p {\n\tif v && i > 1 {\n\t\tprint(i)\n\t}\n}\n")
		var sb strings.Builder
		for i := 0; i < 15; i++ {
			fmt.Fprintf(&sb, "s%d := []int{%d, 8100001}\n", i, i)
		}
		for i := 0; i < 15; i++ {
			fmt.Fprintf(&sb, "s%d[2] = s%d[0]\n", i, (i+11)%15)
		}
		for i := 0; i < 15; i++ {
			fmt.Fprintf(&sb, "print(len(s%d), s%d[0], s%d[1], s%d[2])\n", i, i, i, i)
		}
		b.P("slices15", sb.String())
	}
	n := 100
	if thorough {
		n = 2000
	}
	b.Fam("composed")
	for i := 0; i < n; i++ {
		r := &Rand{R: rand.New(rand.NewSource(seed*300007 + int64(i))), Feat: map[string]bool{"funcs": i%2 == 0, "slices": true, "strings": true}}
		b.P(fmt.Sprintf("s%d-%d", seed, i), r.Program())
	}
	return b.Out
}
