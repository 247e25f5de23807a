package gen

import (
	"fmt"
	"strings"
)

// alt is a slot whose statement is selected by a symbolic byte.
func alt(ss ...string) string {
	seen := map[string]bool{}
	var l []string
	for _, s := range ss {
		if !seen[s] {
			seen[s] = true
			l = append(l, s)
		}
	}
	return "\x02" + strings.Join(l, "\x03") + "\x04"
}

// scopeSkels are block structures; a line "#" is a slot. names lists the names the structure itself introduces.
var scopeSkels = []struct{ id, src, names string }{
	{"flat", "#\n#\n", ""},
	{"if", "#\nif true {\n#\n#\n}\n#\n", ""},
	{"ifelse", "#\nif true {\n#\n} else if false {\n#\n} else {\n#\n}\n#\n", ""},
	{"ifs", "if true {\n#\n}\nif true {\n#\n}\n#\n", ""},
	{"switch", "#\nswitch 1 {\ncase 1:\n#\n#\ncase 2:\n#\ndefault:\n#\n}\n#\n", ""},
	{"bare-switch", "switch {\ncase true:\n#\ndefault:\n#\n}\n#\n", ""},
	{"single-default", "#\nswitch 3 {\ndefault:\n#\n}\n#\n", ""},
	{"for", "#\nfor i := 0; i < 1; i++ {\n#\n#\n}\n#\n", "i"},
	{"fors", "for i := 0; i < 1; i++ {\n#\n}\nfor i := 0; i < 1; i++ {\n#\n}\n#\n", "i"},
	{"forinner", "for i := 0; i < 1; i++ {\nfor j := 0; j < 1; j++ {\n#\n}\n#\n}\n#\n", "ij"},
	{"while", "#\nfor false {\n#\n}\n#\n", ""},
	{"ever", "#\nfor {\n#\nbreak\n}\n#\n", ""},
	{"range", "#\nfor k, v := range \"ab\" {\n#\n#\n}\n#\n", "kv"},
	{"rangeinner", "for k, v := range []int{1} {\nfor k2, v2 := range \"a\" {\n#\n}\n#\n}\n#\n", "kv"},
	{"func", "#\nfunc f() {\n#\n#\n}\n#\nf()\n#\n", "f"},
	{"param", "#\nfunc f(p int, q int) {\n#\n}\n#\nf(1, 2)\n#\n", "pqf"},
	{"funcs", "func f(p int) {\n#\n}\n#\nfunc h(p int) {\n#\n}\n#\nh(1)\nf(1)\n", "pfh"},
	{"funcblock", "func f(p int) {\nif true {\n#\n} else {\n#\n}\n#\nfor i := 0; i < p; i++ {\n#\n}\n#\n}\nf(1)\n#\n", "pif"},
	{"funcloop", "func f() {\nfor true {\n#\nswitch {\ncase true:\n#\n}\nbreak\n}\n#\n}\n#\nfor k, v := range \"a\" {\nf()\n#\n}\n", "kvf"},
	{"intfunc", "#\nfunc f(p int) int {\n#\nif true {\n#\n}\n#\nreturn 1\n}\n#\nprint(f(1))\n#\n", "pf"},
	{"unused", "#\nfunc f(p int) int {\n#\nreturn p\n}\n#\n", "pf"},
	{"callsite", "func f() {\n#\n}\nif true {\n#\nf()\n#\n}\nfunc h() {\n#\nf()\n}\nh()\n", "fh"},
	{"loopswitch", "for i := 0; i < 1; i++ {\nswitch i {\ncase 0:\n#\nif true {\n#\n}\ndefault:\n#\n}\n#\n}\n#\n", "i"},
	{"switchloop", "switch 1 {\ncase 1:\nfor i := 0; i < 1; i++ {\n#\n}\n#\ndefault:\n#\n}\n#\n", "i"},
	{"deep", "#\nfunc f(p int) int {\n#\nfor i := 0; i < 1; i++ {\n#\nif true {\n#\nfor k, v := range \"a\" {\n#\nswitch {\ncase true:\n#\ndefault:\n#\n}\n#\n}\n#\n}\n#\n}\n#\nreturn 1\n}\n#\nprint(f(1))\n", "pikvf"},
	{"triple", "if true {\nif true {\nif true {\n#\n}\n#\n}\n#\n}\n#\n", ""},
	{"condition", "#\nfor n == 1 {\n#\n}\n", ""},
	{"headers", "#\nfor n := 0; n < 1; n++ {\n#\n}\n#\nfor n, m := range \"a\" {\n#\n}\n#\nfor m, n := range \"a\" {\n}\n#\nfunc f(n int) {\n#\n}\n", "nmf"},
	{"ifheads", "#\nif n == 1 {\n#\n} else if n == 2 {\n#\n}\nswitch n {\ncase 1:\n#\ncase n:\n}\n", ""},
}

func c07Alts(names string, level int) []string {
	out := []string{"", "n := 1", "print(n)", "n = 2", "var n int", "break", "continue", "return", "return 1"}
	if level > 0 {
		out = append(out, "n, m := 1, 2", "var n, m int", "print(m)", "var n = \"s\"", "n++", "n += 1", "m := n", "g := n", "n := n", "func n() { }", "g()", "func g() { }")
	}
	for i, c := range names {
		x := string(c)
		if c >= 'f' && c <= 'h' {
			out = append(out, "func "+x+"() { }", x+"()", x+" := 1", "print("+x+")")
			continue
		}
		out = append(out, "print("+x+")", x+" := 1")
		if level > 0 {
			out = append(out, "n := "+x, "var "+x+", n int")
			if i == 0 {
				out = append(out, x+" = 1")
			}
		}
	}
	return out
}

// C07 lists scoping templates.
func C07(thorough bool, seed int64) []Accept {
	var out []Accept
	fam := ""
	add := func(id, main string) *Accept {
		out = append(out, Accept{ID: fam + "/" + id, Fam: fam, Main: main, Max: 60000})
		return &out[len(out)-1]
	}
	fill := func(src string, at map[int]string) string {
		var sb strings.Builder
		n := 0
		for _, l := range strings.SplitAfter(src, "\n") {
			if l == "#\n" {
				if s, ok := at[n]; ok {
					sb.WriteString(s + "\n")
				}
				n++
				continue
			}
			sb.WriteString(l)
		}
		return sb.String()
	}

	fam = "pairs" // every pair of slots with every pair of statements
	for si, sk := range scopeSkels {
		n := strings.Count(sk.src, "#\n")
		for i := 0; i < n; i++ {
			for j := i; j < n; j++ {
				lv := 0
				if thorough || (si+i+j+int(seed))%9 == 0 {
					lv = 1
				}
				if !thorough && n > 7 && (i+j*3+int(seed))%3 != 0 {
					continue
				}
				a := alt(c07Alts(sk.names, lv)...)
				if i == j {
					if lv > 0 && i == 0 || thorough { // two statements in one place
						add(fmt.Sprintf("%s-%d-%d", sk.id, i, j), fill(sk.src, map[int]string{i: a + "\n" + a}))
					}
					continue
				}
				add(fmt.Sprintf("%s-%d-%d", sk.id, i, j), fill(sk.src, map[int]string{i: a, j: a}))
			}
		}
	}
	fam = "triples" // three slots around one name
	for si, sk := range scopeSkels {
		n := strings.Count(sk.src, "#\n")
		k := 0
		x := "n"
		if sk.names != "" && sk.names[0] != 'f' {
			x = sk.names[:1]
		}
		l := []string{"", x + " := 1", "print(" + x + ")", "n := 1", "print(n)", "return", "break"}
		if thorough {
			l = append(l, "var n, m int", "n = 2", "m := n", "func g() { }", "g()", "continue", x+" = 1")
		}
		for a := 0; a < n; a++ {
			for b := a + 1; b < n; b++ {
				for c := b + 1; c < n; c++ {
					k++
					if !thorough && (k+si+int(seed))%13 != 0 || thorough && n > 6 && (k+si)%5 != 0 {
						continue
					}
					s := alt(l...)
					add(fmt.Sprintf("%s-%d-%d-%d", sk.id, a, b, c), fill(sk.src, map[int]string{a: s, b: s, c: s}))
				}
			}
		}
	}
	fam = "once" // every statement in one slot, surrounded by all uses
	for _, sk := range scopeSkels {
		n := strings.Count(sk.src, "#\n")
		for i := 0; i < n; i++ {
			add(fmt.Sprintf("%s-%d", sk.id, i), fill(sk.src, map[int]string{i: alt(append(c07Alts(sk.names, 1), "var n []int = []int{n}", "n, n := 1, 2", "var n, n int", "n, m = 1, 2", "n, m := n, 1", "var n int = n", "for n := n; n < 1; n++ { }", "for n := 0; n < m; n++ { }", "for n, m := range n { }", "for n, n := range \"a\" { }", "for n, m := range \"a\" { n = 1; }",
				"if n == 1 { }", "switch n {\ncase 1:\n}", "print(n + 1)", "print(len(n))", "n[0] = 1", "print(\"\"[n])", "@echo(n)", "n := @echo(\"a\")", "write(n, \"a\")", "func g(n int) { print(n); }", "func g(n int, n int) { }", "func g() { n := 1; }", "func g() { print(n); }", "func g() { g(); }", "func n(n int) { }", "if true { n := 1; }\nprint(n)", "if true { n := 1; }\nn := 2", "for n := 0; n < 1; n++ { }\nprint(n)", "for m, n := range \"a\" { }\nn := 2",
				"print(l.n)", "l.n()", "import \"l\"", "return nil", "return n", "return 1, 2", "func g() int { }", "func g() int { return 1; }", "if true { break; }", "if true { return; }", "for true { break; }", "for true { continue; }", "switch { default: break; }")...)}))
		}
	}

	fam = "fall" // a value-returning function with any statement at the end of each block
	ends := []string{"return 1", "", "print(1)", "x = 1", "if true {\nreturn 1\n}", "for true {\nreturn 1\n}", "break", "return", "continue"}
	for i, b := range []string{"#\n", "if true {\n#\n}\n#\n", "if true {\n#\n} else {\n#\n}\n#\n", "if true {\n#\n} else if x == 2 {\n#\n} else {\n#\n}\n", "for true {\n#\n}\n#\n", "for i := 0; i < 2; i++ {\n#\n}\n#\n", "for k, v := range \"ab\" {\n#\n}\n#\n", "switch x {\ncase 1:\n#\ncase 2:\n#\n}\n#\n", "switch x {\ncase 1:\n#\ndefault:\n#\n}\n#\n", "for true {\nif true {\n#\n}\n#\n}\n#\n", "return 1\n#\n", "#\nreturn 1\n#\n", "if true {\nif true {\n#\n}\n#\n}\n#\n"} {
		n := strings.Count(b, "#\n")
		at := map[int]string{}
		l := ends
		if n > 2 && !thorough {
			l = ends[:6]
		}
		for k := 0; k < n; k++ {
			at[k] = alt(l...)
		}
		for _, rt := range []string{"int", "(int, string)", ""} {
			s := fill(b, at)
			if rt == "(int, string)" {
				s = strings.ReplaceAll(s, "return 1", "return 1, \"a\"")
			}
			if rt == "" && i > 4 && !thorough {
				continue
			}
			for u, use := range []string{"", "f()\n"} {
				if u == 1 && !thorough && i%3 != 0 {
					continue
				}
				add(fmt.Sprintf("%d-%s-%d", i, strings.NewReplacer("(", "", ")", "", ", ", "_").Replace(rt), u), "x := 1\nfunc f() "+strings.TrimSpace(rt)+" {\n"+s+"}\n"+use)
			}
		}
	}

	fam = "order" // definitions and calls of functions in any order
	fl := []string{"", "func g() {\n}", "func h() {\n}", "func g() {\nh()\n}", "func h() {\ng()\n}", "g()", "h()", "func g() {\ng()\n}", "func g() {\nprint(n)\n}", "n := 1", "func h(g int) {\n}", "g := 1"}
	for i, b := range []string{"#\n#\n#\n", "#\nif true {\n#\n}\n#\n", "#\nfunc f() {\n#\n}\n#\nf()\n", "#\nfor i := 0; i < 1; i++ {\n#\n}\n#\n"} {
		l := fl
		if !thorough {
			l = fl[:10]
		}
		s := alt(l...)
		add(fmt.Sprint(i), fill(b, map[int]string{0: s, 1: s, 2: s}))
	}
	add("names", "func "+sy("N")+"("+sy("N")+" int, "+sy("N")+" int) {\n\tprint("+sy("N")+")\n}\n"+sy("N")+"(1, 2)\n")
	add("names2", "a := 1\nfunc "+sy("N")+"("+sy("N")+" int) {\n\tb := "+sy("N")+"\n}\n"+sy("N")+"(a)\n")
	add("names3", sy("N")+" := 1\nfor "+sy("N")+", "+sy("N")+" := range \"x\" {\n"+sy("N")+" := 1\n}\nprint("+sy("N")+")\n")
	add("names4", sy("N")+", "+sy("N")+" := 1, 2\n"+sy("N")+", "+sy("N")+" := 3, 4\nprint("+sy("N")+")\n")
	add("names5", "func a("+sy("N")+" int) {\n\tprint("+sy("N")+")\n}\nfunc b("+sy("N")+" int) {\n\tprint("+sy("N")+")\n}\nb(1)\n")
	add("names6", "if true {\n"+sy("N")+" := 1\nif true {\n"+sy("N")+" := 1\n}\nprint("+sy("N")+")\n}\nprint("+sy("N")+")\n")
	add("names7", "var "+sy("N")+", "+sy("N")+", "+sy("N")+" int = 1, 2, 3\nprint("+sy("N")+")\n")
	add("names8", "for "+sy("N")+" := 0; "+sy("N")+" < 1; "+sy("N")+"++ {\n"+sy("N")+" := 1\n}\nprint("+sy("N")+")\n")
	add("names9", "func a() {\n"+sy("N")+" := 1\n}\n"+sy("N")+" := 1\nfunc b() {\n\ta()\n\tprint("+sy("N")+")\n}\nb()\n")

	fam = "imports" // names across an import boundary
	lib := "func F() int {\nreturn a\n}\n"
	_ = lib
	defs := alt("func F() {\n}", "func f() {\n}", "F := 1", "f := 1", "", "func _f() {\n}", "func F(n int) {\n}", "n := 1")
	uses := alt("l.F()", "l.f()", "F()", "f()", "print(l.F)", "print(l.f)", "print(F)", "print(f)", "print(n)", "l._f()", "func F() {\n}", "func f() {\n}", "F := 2", "f := 2", "m.F()", "l := 1", "func l() {\n}", "l.l.F()", "print(l)", "l()", "l.F(1)", "n := 2")
	add("def-use", "import l \"l.tsh\"\n"+uses+"\n").Files = map[string]string{"l.tsh": defs + "\n"}
	for i, d := range []string{"func F() {\n}\n", "func f() {\n}\n", "F := 1\n", "f := 1\n", "func F() {\nf()\n}\n", "func f() {\n}\nfunc F() {\nf()\n}\n", "n := 1\nfunc F() {\nprint(n)\n}\n", "func F(n int) {\n}\n", "if true {\nn := 1\n}\nfunc F() {\n}\n", "import l \"k.tsh\"\nfunc F() {\nl.F()\n}\n", "import k \"k.tsh\"\nfunc F() {\nk.F()\n}\n", "break\n", "return\n", "func F() int {\n}\n", "func F() {\nprint(x)\n}\n", "func F() {\ng()\n}\n", "func _f() {\n}\n"} {
		for j, imp := range []string{"import l \"l.tsh\"\n", "import \"l.tsh\"\n", "import (\n\tl \"l.tsh\"\n\tm \"k.tsh\"\n)\n", "import l \"l.tsh\"\nimport l \"k.tsh\"\n"} {
			for k, b := range []string{"#\n#\n", "#\nif true {\n#\n}\n", "x := 1\nfunc g() {\n#\n}\n#\ng()\n", "#\nfor l.F() {\n#\n}\n"} {
				if !thorough && (j > 0 && k > 0 || k > 1 && (i+j+k)%2 == 0) {
					continue
				}
				a := add(fmt.Sprintf("%d-%d-%d", i, j, k), imp+fill(b, map[int]string{0: uses, 1: uses}))
				a.Files = map[string]string{"l.tsh": d, "k.tsh": "func F() {\n}\nfunc f() {\n}\n"}
			}
		}
	}
	return out
}
