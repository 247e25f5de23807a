package gen

import (
	"fmt"
	"sort"
	"strings"

	"verif/ts"
)

// Total is a set of file templates for the totality check.
type Total struct {
	ID, Fam string
	Files   map[string]string
	Both    bool
	Max     int
}

// Order lists the files with main.tsh first.
func (t Total) Order() []string {
	var o []string
	for f := range t.Files {
		if f != "main.tsh" {
			o = append(o, f)
		}
	}
	sort.Strings(o)
	return append([]string{"main.tsh"}, o...)
}

// snippets are short valid programs, one construct each.
var snippets = []string{
	"var a int\n", "var a, b string = \"x\", \"y\"\n", "a := 1\nb, c := a, true\n", "a := 1\na = 2\na += 3\na++\n", "a, b := 1, \"s\"\na, b = 2, b + \"t\"\n",
	"print(1 + 2 * (3 - 4) % 5)\n", "print(!true && 1 < 2 || \"a\" == \"b\")\n", "if true {\n\tprint(1)\n} else if 1 == 2 {\n} else {\n}\n",
	"x := 1\nswitch x {\ncase 1:\n\tprint(1)\ndefault:\n}\n", "switch {\ncase true:\n}\n",
	"for i := 0; i < 2; i++ {\n\tcontinue\n}\n", "for true {\n\tbreak\n}\n", "for {\n\tbreak\n}\n", "for i, v := range []int{1} {\n\tprint(i, v)\n}\n",
	"s := []string{\"a\", \"b\"}\ns[0] = s[1]\nprint(len(s))\n", "var s []int\nvar t []int\nn := copy(s, t)\n", "s := \"abc\"\nprint(s[0], s[1:2], s[:1], s[1:])\n",
	"func f(a int, b []string) int {\n\treturn a\n}\nprint(f(1, []string{}))\n", "func f() {\n}\nf()\n", "func f() (int, string) {\n\treturn 1, \"a\"\n}\na, b := f()\n",
	"func f() int {\n\tif true {\n\t\treturn 1\n\t}\n\treturn 2\n}\nx := f()\n",
	"write(\"f\", \"x\", true)\nprint(read(\"f\"), exists(\"f\"))\n", "a := input()\nb := input(\"p\")\n", "panic(\"x\" + itoa(3))\n",
	"a, b, c := @ls(\"x\") | @cat()\n", "@ls(\"a\", itoa(1))\n", "import \"strings\"\nprint(strings.Contains(\"a\", \"b\"))\n", "import (\n\th \"h.tsh\"\n)\nh.F(h.G())\n",
	"import h \"h.tsh\"\nh.F(1)\n", "var e error = nil\nif e != nil {\n}\n", "a := 1 // c\n/* d */\nb := `r`\n",
}

var helperFile = map[string]string{"h.tsh": "func F(a int) {\n}\nfunc G() int {\n\treturn 1\n}\n"}

func tokTexts(src string) (texts, gaps []string) {
	toks, err := ts.Tokenize(src)
	if err != nil {
		return nil, nil
	}
	last := 0
	for _, t := range toks {
		if t.Kind == ts.KEOF {
			break
		}
		gaps = append(gaps, src[last:t.Pos])
		texts = append(texts, src[t.Pos:t.End])
		last = t.End
	}
	gaps = append(gaps, src[last:])
	return
}

// offers are expressions of every kind, well and ill typed, used in all contexts.
var offers = []string{"v()", "m()", "nil", "[]int{}", "[]string{\"a\"}", "[]int{v()}", "len(v())", "len(m())", "itoa(v())", "!v()", "-v()", "(v())", "(m())", "v() + 1", "1 + v()", "m() + 1", "v() == 1", "1 == m()", "v() && true",
	"true || m()", "n()", "n(v())", "n(m())", "n(1, 2)", "copy(v(), s)", "copy(s)", "copy(s, s)", "copy(1, 2)", "input(v())", "input(1, 2)", "read(v())", "read()", "exists(m())", "write(\"a\", \"b\")", "panic(\"a\")", "print(1)", "@a(v())", "@a()", "@a() | @b(m())", "@a() | 1", "@", "@a",
	"s[v()]", "s[m()]", "s[0:v()]", "v()[0]", "t[v():]", "t[:m()]", "s[0][0]", "t[0][0]", "z", "f", "strings.X()", "strings", "x.y()", "x.y", "v", "range s", "func() {}", "a := 1", "a = 1", "a++", "{", "}", "1, 2", "", "(", ")", "int", "[]int", "[]", "import", "else", "case 1:", "9223372036854775808", "99999999999999999999999", "\"a\" - 1",
	"[]int{1, v(), 2}", "[]v{1}", "len()", "len(1, 2)", "itoa()", "itoa(1, 2)", "exists()", "-\"a\"", "!1", "true + false", "s + s", "s == s", "nil == nil", "nil + nil", "v() == v()", "m() == m()"}

var contexts = []string{"E\n", "x := E\n", "x, y := E\n", "var x int = E\n", "var x = E\n", "var x, y = E\n", "a = E\n", "a, t = E\n", "a += E\n", "t += E\n", "s[E] = 1\n", "s[0] = E\n", "print(E)\n", "print(1, E)\n", "panic(E)\n", "if E {\n}\n", "if true {\n} else if E {\n}\n",
	"switch E {\ncase 1:\n}\n", "switch 1 {\ncase E:\n}\n", "switch {\ncase E:\n}\n", "for E {\n}\n", "for i := E; i < 1; i++ {\n}\n", "for i := 0; E; i++ {\n}\n", "for i := 0; i < 1; E {\n}\n", "for i, x := range E {\n}\n", "func g() int {\n\treturn E\n}\n", "func g() (int, string) {\n\treturn E\n}\ng()\n", "func g() {\n\treturn E\n}\n", "func g() {\n\tE\n}\ng()\n",
	"n(E)\n", "m2(1, E)\n", "x := []int{E}\n", "x := []int{1, E}\n", "x := len(E)\n", "x := copy(s, E)\n", "write(E, \"a\")\n", "write(\"a\", E)\n", "write(\"a\", \"b\", E)\n", "x := read(E)\n", "x := exists(E)\n", "x := input(E)\n", "x := itoa(E)\n", "@a(E)\n", "@a() | @b(E)\n", "x := s[E]\n", "x := t[E:]\n", "x := t[0:E]\n", "x := !E\n", "x := (E)\n", "x := 1 + E\n", "x := E < 2\n", "x := E && true\n", "x := true && E\n", "E := 1\n", "E = 1\n", "E++\n", "func E() {\n}\n", "func g(E) {\n}\n", "func g() E {\n}\n", "import E\n", "var E\n", "var E int\n"}

const ctxDecl = "a := 1\nt := \"q\"\nb := true\nvar s []int\nfunc v() {\n}\nfunc m() (int, string) {\n\treturn 1, \"a\"\n}\nfunc n(p int) int {\n\treturn p\n}\nfunc m2(p int, q string) {\n}\n"

// C13 lists totality cases.
func C13(thorough bool, seed int64) []Total {
	var out []Total
	fam := ""
	add := func(id, main string, files ...string) *Total {
		fs := map[string]string{"main.tsh": main}
		for i := 0; i+1 < len(files); i += 2 {
			fs[files[i]] = files[i+1]
		}
		out = append(out, Total{ID: fam + "/" + id, Fam: fam, Files: fs, Both: thorough})
		return &out[len(out)-1]
	}
	hf := func(src string) []string {
		if strings.Contains(src, "h.tsh") {
			return []string{"h.tsh", helperFile["h.tsh"]}
		}
		return nil
	}

	fam = "bytes" // arbitrary bytes
	add("empty", "")
	add("1", sy("a"))
	add("2", sy("aa"))
	for i, s := range []string{"x", "x ", "x := ", "var ", "func ", "f(", "import ", "for ", "if ", "switch ", "\"", "`", "/*", "@", "print(", "[]", "x[", "return ", "a, "} {
		add(fmt.Sprintf("pre%d", i), s+sy("aa"))
		add(fmt.Sprintf("prenl%d", i), s+sy("a")+"\n")
		add(fmt.Sprintf("imported%d", i), "import h \"h.tsh\"\nh.F()\n", "h.tsh", s+sy("a"))
	}
	add("imported", "import h \"h.tsh\"\nh.F()\n", "h.tsh", sy("aa"))
	add("imported2", "import h \"h.tsh\"\nh.F()\n", "h.tsh", sy("a")+"\nfunc F() {\n}\n"+sy("a"))
	if thorough {
		add("3o", sy("oaa")).Max = 30000
		add("3l", sy("Laa")).Max = 30000
		add("imported3", "import h \"h.tsh\"\nh.F()\n", "h.tsh", sy("oaa")).Max = 30000
	}

	fam = "edits" // token edits of valid programs
	progs := append([]string{}, snippets...)
	if thorough {
		for _, p := range Corpus() {
			if len(p.Files) == 0 {
				progs = append(progs, p.Src)
			}
		}
	}
	for pi, src := range progs {
		texts, gaps := tokTexts(src)
		files := hf(src)
		n := len(texts)
		for i := 0; i <= n; i++ {
			build := func(rep string, skip int) string {
				var sb strings.Builder
				for k := 0; k < i; k++ {
					sb.WriteString(gaps[k] + texts[k])
				}
				sb.WriteString(gaps[i] + rep)
				for k := i + skip; k < n; k++ {
					if k > i+skip || skip == 0 && k > i {
						sb.WriteString(gaps[k])
					}
					sb.WriteString(" " + texts[k])
				}
				if n > i {
					sb.WriteString(gaps[n])
				}
				return sb.String()
			}
			id := func(k string) string { return fmt.Sprintf("%d.%d-%s", pi, i, k) }
			std := strings.Contains(src, "\"strings\"")
			if std && !thorough && i%3 != 0 {
				continue
			}
			sel := func(k, of int) bool { return thorough || (pi*7+i*3+k+int(seed))%of == 0 }
			words := []string{"LL", "LLL", "LLLL", "LLLLL", "LLLLLL", "LLLLLLL", "LLLLLLLL"}
			if i < n {
				add(id("rep"), build(sy("a"), 1), files...)
				for k, wd := range words {
					if sel(k, 7) {
						add(id("repw"+fmt.Sprint(k)), build(sy(wd), 1), files...)
					}
				}
				if sel(0, 3) {
					add(id("del"), build("", 1), files...)
					add(id("rep2"), build(sy("a"), 2), files...)
				}
				if sel(1, 3) {
					add(id("dup"), build(texts[i]+" "+texts[i], 1), files...)
					add(id("str"), build("\""+sy("q")+"\"", 1), files...)
				}
				if sel(2, 3) && i+1 < n {
					add(id("swap"), build(texts[i+1]+" "+texts[i], 2), files...)
				}
				if sel(3, 4) {
					add(id("repoo"), build(sy("oo"), 1), files...)
				}
				if sel(4, 4) {
					add(id("num"), build(sy("d"), 1), files...)
				}
				if thorough {
					add(id("rep-a"), build(sy("a")+" "+sy("o"), 2), files...)
					add(id("rep-b"), build(sy("o")+" "+sy("L"), 2), files...)
					for j := i + 2; j < n && j < i+6; j++ {
						add(id(fmt.Sprintf("two%d", j)), strings.Join(texts[:i], " ")+" "+sy("o")+" "+strings.Join(texts[i+1:j], " ")+" "+sy("o")+" "+strings.Join(texts[j+1:], " "), files...)
					}
				}
			}
			if sel(0, 3) {
				add(id("ins"), build(sy("a")+" ", 0), files...)
			}
			for k, wd := range words {
				if sel(k+3, 14) {
					add(id("insw"+fmt.Sprint(k)), build(sy(wd)+" ", 0), files...)
				}
			}
			if sel(2, 3) {
				add(id("trunc"), build(sy("a"), n), files...)
			}
		}
	}

	fam = "offers" // every expression in every context
	for ci, c := range contexts {
		for oi, o := range offers {
			if !thorough && (ci*13+oi*5+int(seed))%2 != 0 {
				continue
			}
			// several offers share a job through symbolic operands; each line stands alone
			add(fmt.Sprintf("%d-%d", ci, oi), ctxDecl+strings.ReplaceAll(c, "E", o))
		}
	}

	fam = "imports" // all import graphs over three files and a missing one
	mk := func(k int) string {
		s := ""
		for j := 0; j < k; j++ {
			s += fmt.Sprintf("import i%d \"%s.tsh\"\n", j, sy("3"))
		}
		return s
	}
	body := "func F() {\n}\n"
	for i, k := range [][4]int{{1, 1, 0, 0}, {1, 1, 1, 0}, {2, 1, 1, 0}, {2, 1, 1, 1}, {1, 2, 1, 0}, {3, 0, 0, 0}, {1, 2, 2, 0}, {2, 2, 1, 0}, {2, 2, 2, 0}} {
		if i > 5 && !thorough {
			break
		}
		add(fmt.Sprintf("g%d", i), mk(k[0])+"i0.F()\n", "b.tsh", mk(k[1])+body, "c.tsh", mk(k[2])+body, "d.tsh", mk(k[3])+"print(1)\n"+body).Max = 6000
	}
	add("self", "import m \"main.tsh\"\nm.F()\n")
	add("std", "import \""+sy("L")+"trings\"\nprint(1)\n")
	add("std2", "import s \"strin"+sy("a")+"s\"\nprint(1)\n")
	add("path", "import s \""+sy("p")+"h.tsh\"\ns.F(1)\n", "h.tsh", helperFile["h.tsh"])
	add("path2", "import s \"h"+sy("p")+"tsh\"\ns.F(1)\n", "h.tsh", helperFile["h.tsh"])
	add("alias", "import "+sy("a")+" \"h.tsh\"\nh.F(1)\n", "h.tsh", helperFile["h.tsh"])
	add("dotfile", "import h \".\"\nh.F(1)\n")
	add("dotdot", "import h \"..\"\nh.F(1)\n")
	add("emptypath", "import h \"\"\nh.F(1)\n")
	add("missing", "import h \"nope.tsh\"\nh.F(1)\n")
	add("group", "import (\n"+sy("a")+" \"h.tsh\"\n"+sy("a")+"\n", "h.tsh", helperFile["h.tsh"])

	fam = "depth"
	type nest struct{ id, pre, open, mid, close, post string }
	for _, d := range []int{20, 45, 300} {
		for _, x := range []nest{
			{"paren", "x := ", "(", "1", ")", "\n"}, {"not", "x := ", "!", "true", "", "\n"}, {"minus", "x := ", "- ", "1", "", "\n"}, {"call", "func f(a int) int {\n\treturn a\n}\nx := ", "f(", "1", ")", "\n"},
			{"idx", "s := []int{0}\nx := ", "s[", "0", "]", "\n"}, {"sub", "s := \"a\"\nx := ", "len(s[", "0", "])", "\n"}, {"itoa", "x := ", "len(itoa(", "1", "))", "\n"}, {"slice", "x := ", "len([]int{", "1", "})", "\n"},
			{"if", "", "if true {\n", "print(1)\n", "}\n", ""}, {"for", "", "for true {\n", "break\n", "}\n", ""}, {"range", "", "for i, v := range \"a\" {\n", "print(v)\n", "}\n", ""}, {"switch", "", "switch 1 {\ncase 1:\n", "print(1)\n", "}\n", ""}, {"switch2", "", "switch {\ncase true:\n", "", "default:\n}\n", ""},
			{"else", "", "if false {\n} else {\n", "print(1)\n", "}\n", ""}, {"elif", "if false {\n}", " else if true {\n}", "", "", "\n"}, {"elseif", "", "if false {\n} else if true {\n", "print(1)\n", "}\n", ""},
			{"cmp", "x := true", " == true", "", "", "\n"}, {"add", "x := 1", " + 1", "", "", "\n"}, {"and", "x := true", " && true", "", "", "\n"}, {"addr", "x := ", "(1 + ", "1", ")", "\n"}, {"andr", "x := ", "(true && ", "true", ")", "\n"}, {"cmpr", "x := ", "(true == ", "true", ")", "\n"},
			{"pipe", "@a()", " | @b()", "", "", "\n"}, {"stmts", "a := 1\n", "a = a + 1\n", "", "", ""}, {"inp", "x := ", "input(", "\"a\"", ")", "\n"}, {"read", "x := ", "read(", "\"a\"", ")", "\n"}, {"exists", "", "if exists(read(\"a\")) {\n", "", "}\n", ""}, {"args", "func f(a int, b int) int {\n\treturn a\n}\nx := ", "f(1, ", "1", ")", "\n"}, {"cases", "switch 1 {\n", "case 1:\n", "", "", "}\n"},
			{"open", "x := ", "(", "", "", ""}, {"brace", "", "{", "", "", ""}, {"brack", "x := ", "[", "", "", ""}, {"ifopen", "", "if true {\n", "", "", ""}, {"com", "", "/*", "", "", ""}, {"quote", "", "\"", "", "", ""}, {"at", "", "@a(", "", "", ""}, {"imp", "import (\n", "h \"h.tsh\"\n", "", "", ""},
		} {
			if d == 300 && !thorough && len(x.id)%2 == 0 {
				continue
			}
			// one symbolic byte at the innermost place
			t := x.pre + strings.Repeat(x.open, d) + sy("a") + strings.Repeat(x.close, d) + x.post
			if d < 300 && (d < 30 || thorough) {
				add(fmt.Sprintf("%s%d-sym", x.id, d), t).Max = 300
			}
			t = x.pre + strings.Repeat(x.open, d) + x.mid + strings.Repeat(x.close, d) + x.post
			add(fmt.Sprintf("%s%d", x.id, d), t).Both = true
		}
	}
	// chains of calls of functions that call all earlier ones
	for _, n := range []int{6, 40} {
		s := "func f0() int {\n\treturn 1\n}\n"
		for i := 1; i < n; i++ {
			s += fmt.Sprintf("func f%d() int {\n\treturn f%d() + f%d()\n}\n", i, i-1, i-1)
		}
		add(fmt.Sprintf("chain%d", n), s+fmt.Sprintf("x := f%d()\n", n-1)).Both = true
		fs := []string{}
		for i := 1; i < n; i++ {
			fs = append(fs, fmt.Sprintf("f%d.tsh", i), fmt.Sprintf("import a \"f%d.tsh\"\nimport b \"f%d.tsh\"\nfunc F() int {\n\treturn a.F() + b.F()\n}\n", i-1, max(0, i-2)))
		}
		fs = append(fs, "f0.tsh", "func F() int {\n\treturn 1\n}\n")
		add(fmt.Sprintf("lattice%d", n), fmt.Sprintf("import a \"f%d.tsh\"\nx := a.F()\n", n-1), fs...).Both = true
	}
	return out
}
