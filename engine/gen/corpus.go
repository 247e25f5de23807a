package gen

// Corpus lists hand-written valid programs that together use every statement and expression form.
func Corpus() []Prog {
	b := &B{}
	b.Fam("corpus")
	b.P("vars", "var a int\nvar b, c int\nvar d int = 5\nvar e, f int = 6, 7\nvar g = \"x\"\nvar h, i = true, \"y\"\nj := 8\nk, l := 9, \"z\"\na = 1\nb, c = 2, 3\nd += 4\nd -= 1\nd *= 2\nd /= 3\nd %= 4\ng += \"q\"\na++\nb--\nprint(a, b, c, d, e, f, g, h, i, j, k, l)\n")
	b.P("exprs", "a := 7\nb := -3\nc := a + b * 2 - (a - 1) / 2 % 3\nd := a-1\ne := a - -1\np := a < b || a >= 2 && !(b != 3) && true\nq := !p == false\nprint(c, d, e, p, q, -5, a*b, (a), \"s\" + itoa(a) + `r`)\n")
	b.P("if", "a := 3\nif a < 5 {\n\tprint(1)\n} else if a > 5 {\n\tprint(2)\n} else {\n\tprint(3)\n}\nif a == 3 {\n}\nif true {\n\tif a != 3 && false {\n\t\tprint(\"in\")\n\t} else {\n\t\tb := a\n\t\tprint(b)\n\t}\n}\n")
	b.P("switch", "a := 3\nswitch a {\ncase 1:\n\tprint(\"one\")\ncase 3:\n\tb := a + 1\n\tprint(b)\ndefault:\n\tprint(\"d\")\n}\nswitch {\ncase a > 2:\n\tprint(\"big\")\ncase false:\n}\nswitch true {\ndefault:\n\tprint(\"dd\")\n}\nswitch \"x\" {\ncase \"x\":\n\tif a == 3 {\n\t\tprint(\"y\")\n\t}\n}\n")
	b.P("for", "for i := 0; i < 3; i++ {\n\tif i == 1 {\n\t\tcontinue\n\t}\n\tprint(i)\n}\na := 0\nfor a < 3 {\n\ta += 2\n}\nfor {\n\tbreak\n}\nfor ; a > 0; {\n\ta--\n}\nfor a = 5; a < 7; a = a + 1 {\n\tfor j := a; j > 5; j-- {\n\t\tprint(a, j)\n\t}\n}\nvar z int\nfor z = 0; z < 2; z++ {\n}\n")
	b.P("range", "s := []string{\"a\", \"b c\"}\nfor i, v := range s {\n\tprint(i, v)\n}\nfor i, c := range \"xyz\" {\n\tfor k, w := range []int{1, 2} {\n\t\tprint(i, c, k, w)\n\t}\n}\nt := \"pq\"\nfor i, c := range t {\n\tprint(i, c)\n}\n")
	b.P("slices", "a := []int{}\nb := []int{1, 2 + 3, -4}\nvar c []bool\nvar d []string = []string{\"x\"}\na[2] = b[1]\nb[0] = b[0] + 1\nn := copy(a, b)\nc[0] = true\nx := d[0]\nprint(len(a), len(b), n, c[0], x, len(x), len(\"lit\"), a[len(a) - 1])\n")
	b.P("substr", "s := \"hello\"\nprint(s[0], s[1:3], s[:2], s[2:], s[:], s[len(s) - 1])\ni := 2\nt := s[i:i + 2] + s[:i]\nprint(t)\n")
	b.P("funcs", "func f() {\n\tprint(\"f\")\n}\nfunc g(a int, b string) string {\n\tif a > 0 {\n\t\treturn b\n\t}\n\treturn \"neg\"\n}\nfunc h(s []int, p bool) (int, error) {\n\tif p {\n\t\treturn 0, \"bad\"\n\t}\n\treturn len(s), nil\n}\nf()\nprint(g(1, \"x\"), g(0 - 1, \"y\"))\nn, err := h([]int{1}, false)\nif err != nil {\n\tprint(err)\n}\nn, err = h([]int{}, true)\nprint(n, err)\ng(2, g(3, \"w\"))\nh([]int{}, !false)\n")
	b.P("funcs2", "x := 1\nfunc inc() int {\n\tx++\n\treturn x\n}\nfunc pair(a int) (int, string, bool) {\n\tb := a * 2\n\tfor i := 0; i < 2; i++ {\n\t\tb += i\n\t}\n\tswitch b {\n\tcase 3:\n\t\treturn b, \"three\", true\n\t}\n\treturn b, \"other\", inc() == 2\n}\nu, v, w := pair(inc())\nprint(u, v, w)\nvar q, r, t = pair(1)\nprint(q, r, t)\nfunc sl() []string {\n\treturn []string{\"a\"}\n}\ny := sl()\nprint(y[0], len(y))\n")
	b.P("builtins", "write(\"o.txt\", \"line\")\nwrite(\"o.txt\", \"more\", true)\nif exists(\"o.txt\") && !exists(\"none\") {\n\tc := read(\"o.txt\")\n\tprint(c, len(c))\n}\nx := itoa(5) + \"k\"\nprint(x)\nn := input()\nm := input(\"prompt \" + n)\nprint(n, m)\npanic(\"end \" + x)\n")
	b.P("apps", "@echo(\"a\", \"b\")\n@printf(\"%s\", \"x y\")\no, e, c := @echo(\"q\") | @cat()\nprint(o, e, c)\nvar s, t, u = @\"/bin/echo\"(\"z\")\nprint(s, t, u)\no, e, c = @echo(\"1\") | @cat() | @tr(\"1\", \"2\")\nprint(o)\n@pwd()\n@echo(itoa(3), o)\n")
	b.P("strs", "a := \"\"\nb := `raw \\n \"q\"`\nc := \"esc \\\" \\\\ \\t.\\n.\"\nd := `multi\nline`\nprint(a, b, c, d, a == \"\", b != c, a + b + c)\nvar e error = \"x\"\nif e == nil {\n\tprint(\"nil\")\n}\ne = nil\n")
	b.P("std", "import \"strings\"\n\nprint(strings.Contains(\"hello\", \"ell\"), strings.Index(\"abc\", \"c\"))\nx := strings.Repeat(\"ab\", 3)\nfor i, p := range strings.Split(\"a,b\", \",\") {\n\tprint(i, p, x)\n}\n")
	b.P("import", "import (\n\thp \"lib/helper.tsh\"\n\t\"strings\"\n\to \"other.tsh\"\n)\n\nv := hp.Double(4)\nprint(v, o.Name(\"n\"), strings.HasPrefix(\"abc\", \"a\"))\nhp.Show()\n").Files = map[string]string{
		"lib/helper.tsh": "import o \"../other.tsh\"\n\nbase := 2\n\nfunc add(a int, b int) int {\n\treturn a + b\n}\nfunc Double(n int) int {\n\treturn add(n, n) * base\n}\nfunc Show() {\n\tprint(o.Name(\"s\"), base)\n}\nprint(\"loaded\")\n",
		"other.tsh":      "func Name(s string) string {\n\treturn \"<\" + s + \">\"\n}\n"}
	b.P("import1", "\nimport h \"h.tsh\"\nh.Hello()\n").Files = map[string]string{"h.tsh": "func Hello() {\n\tprint(\"hi\")\n}\n"}
	b.P("empty", "\n")
	b.P("dense", "func f(a int,b int) int {\n\treturn a*b-1\n}\nx:=f(2,3)\ns:=[]int{x,x-1}\nif x>4&&x!=6||x==1 {\n\tprint(x,\"a\"+\"b\",s[0],len(s)-1,s[len(s)-1]-1)\n}\nfor i:=0;i<2;i++ {\n\tx+=i\n\tx--\n}\nt:=\"abc\"\nprint(t[1:],t[:len(t)-1],(x)-1)\n")
	b.P("nested", "func outer(n int) string {\n\tr := \"\"\n\tfor i := 0; i < n; i++ {\n\t\tfor j, c := range \"ab\" {\n\t\t\tswitch c {\n\t\t\tcase \"a\":\n\t\t\t\tif i == j {\n\t\t\t\t\tr += c\n\t\t\t\t\tcontinue\n\t\t\t\t} else if i > j {\n\t\t\t\t\tr += \"-\"\n\t\t\t\t}\n\t\t\tdefault:\n\t\t\t\tr += itoa(i)\n\t\t\t}\n\t\t\tif len(r) > 9 {\n\t\t\t\tbreak\n\t\t\t}\n\t\t}\n\t}\n\treturn r\n}\nprint(outer(3))\nprint(len(outer(1)))\n")
	return b.Out
}

// Rejected lists programs that are not valid.
func Rejected() []Prog {
	b := &B{}
	b.Fam("rejected")
	for i, s := range []string{
		"x := 1 +\n", "x := \"a\" - 1\n", "print(y)\n", "if 1 {\n}\n", "for i := 0; i < 3 {\n}\n", "func f() int {\n}\nf()\n", "break\n", "return 1\n", "x := 1\nx := 2\n",
		"func f(a int) {\n}\nf(\"s\")\n", "func f(a int) {\n}\nf()\n", "import \"nope\"\n", "import (\n\th \"none.tsh\"\n)\n", "x := []int{1, \"a\"}\n", "x := @nope\n", "if true {\n\tprint(1)\n",
		"print(1))\n", "x = 5\n", "var x int = true\n", "switch 1 {\ncase \"a\":\n}\n", "func f() {\n\tfunc g() {\n\t}\n}\n", "a, b := 1\n", "x := 3\nx[0] = 1\n", "x := len(3)\n", "print(1) print(2)\n", "x := \"abc\n", "x := 1 # 2\n", "var\n", "func\n", "x := (1\n",
	} {
		b.P("", s)
		_ = i
	}
	return b.Out
}
