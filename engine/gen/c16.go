package gen

import (
	"fmt"
	"math/rand"
	"strings"
)

// Form is a program template whose scripts have to be well-formed (symbolic bytes and choices as in C07).
type Form struct {
	ID, Fam, Main string
	Files         map[string]string
	Max           int
	Marks         bool
}

// marked builds control-flow skeletons with the marks of chk.markers.
type marked struct {
	n, m int
	inFn bool
	r    *rand.Rand
	lean bool
}

func (s *marked) pr(kind string, id any) string { return fmt.Sprintf("print(\"Q%s%v.\")\n", kind, id) }

func (s *marked) cond() string {
	s.m++
	return []string{"x == 1", "a < x", "x + 1 > 2 && a == 0", "t == \"x\"", "!(a == x)", "ok"}[(s.m+s.n)%6]
}

// slot: a statement of the loop k (0: of no loop), selected symbolically.
func (s *marked) slot(loop int) string {
	l := []string{""}
	if loop > 0 {
		b, c := s.pr("j", loop)+"break\n", s.pr("c", loop)+"continue\n"
		s.n++
		l = append(l, "if "+s.cond()+" {\n"+b+"}\n", "if "+s.cond()+" {\n"+c+"}\n",
			s.pr("b", s.n)+"if "+s.cond()+" {\n"+c+"} else {\n"+s.pr("e", s.n)+"}\n"+s.pr("a", s.n))
		s.n++
		l = append(l, s.pr("b", s.n)+"if "+s.cond()+" {\n"+s.pr("e", s.n)+"} else if "+s.cond()+" {\n"+b+"} else if "+s.cond()+" {\n"+s.pr("e", s.n)+"}\n"+s.pr("a", s.n))
		s.n++
		l = append(l, s.pr("b", s.n)+"for x < 3 {\n"+s.pr("s", s.n)+"x++\n"+s.pr("l", s.n)+"}\n"+s.pr("a", s.n)+b)
	}
	if s.inFn {
		l = append(l, "if "+s.cond()+" {\n"+s.pr("r", 1)+"return x\n}\n")
	}
	if s.lean && len(l) > 3 {
		l = []string{l[s.r.Intn(len(l))], l[1+s.r.Intn(len(l)-1)]}
	}
	if len(l) == 1 {
		return ""
	}
	return "\x02" + strings.Join(l, "\x03") + "\x04"
}

func (s *marked) build(kind byte, loop int, body func(int) string) string {
	s.n++
	k := s.n
	b, e, a := s.pr("b", k), s.pr("e", k), s.pr("a", k)
	lp := func(h string) string {
		return b + h + " {\n" + s.pr("s", k) + body(k) + s.slot(k) + s.pr("l", k) + "}\n" + a
	}
	switch kind {
	case 'F':
		return lp(fmt.Sprintf("for i%d := 0; i%d < 2; i%d++", k, k, k))
	case 'W':
		return lp("for " + s.cond())
	case 'R':
		return lp(fmt.Sprintf("for i%d, v%d := range r", k, k))
	case 'C':
		return lp(fmt.Sprintf("for i%d, v%d := range t", k, k))
	case 'E':
		return lp("for")
	case 'I':
		return b + "if " + s.cond() + " {\n" + body(loop) + s.slot(loop) + e + "}\n" + a
	case 'J':
		return b + "if " + s.cond() + " {\n" + e + "} else {\n" + body(loop) + e + "}\n" + a
	case 'K':
		return b + "if " + s.cond() + " {\n" + body(loop) + e + "} else if " + s.cond() + " {\n" + e + "} else if " + s.cond() + " {\n" + s.slot(loop) + e + "} else {\n" + e + "}\n" + a
	case 'S':
		return b + "switch x {\ncase a:\n" + e + "case 2:\n" + body(loop) + e + "default:\n" + s.slot(0) + e + "}\n" + a
	case 'T':
		return b + "switch {\ncase " + s.cond() + ":\n" + body(loop) + e + "case " + s.cond() + ":\n" + e + "}\n" + a
	}
	panic(kind)
}

func (s *marked) text(f string, loop int) (string, string) {
	var sb strings.Builder
	for len(f) > 0 && f[0] != ')' {
		k := f[0]
		f = f[2:]
		rest := f
		done := false
		sb.WriteString(s.build(k, loop, func(l int) string {
			if (k == 'S' || k == 'T') && l > 0 { // a break inside a switch is left open
				l = 0
			}
			t, r := s.text(f, l)
			rest, done = r, true
			return t
		}))
		if !done {
			panic("no body")
		}
		f = rest[1:]
	}
	return sb.String(), f
}

func markProg(forest string, seed int64, where int, lean bool) string {
	s := &marked{n: 1, inFn: where > 0, r: rand.New(rand.NewSource(seed)), lean: lean}
	t, _ := s.text(forest, 0)
	head := "a := 1\nok := true\nr := []int{1, 2}\nt := \"xy\"\n"
	switch where {
	case 1:
		return head + "func f(x int) int {\n" + s.pr("f", 1) + t + s.pr("g", 1) + "return x\n}\nprint(f(1))\n"
	case 2:
		u := &marked{n: 200, r: s.r, lean: lean}
		v, _ := u.text(forest, 0)
		v = cutSlots(v, 1)
		return head + "func f(x int) int {\n" + s.pr("f", 1) + t + s.pr("g", 1) + "return x\n}\nx := 0\nif f(2) == 1 {\n" + v + "}\n" + strings.ReplaceAll(v, "Q", "q")
	}
	return head + "x := 0\n" + t
}

// literals: every place of a string literal; # is the content.
var litPlaces = []string{
	"print(\"#\")", "print(\"#\", \"#\")", "t = \"#\"", "u := \"#\"\nprint(u)", "t = t + \"#\" + t", "t += \"#\"", "ok = t == \"#\"", "ok = \"#\" != \"a\"", "ok = \"#\" == \"#\"",
	"if t == \"#\" {\nprint(1)\n} else {\nprint(2)\n}", "if \"#\" == \"a\" || t == \"#\" {\n}", "for t != \"#\" {\nt = \"#\"\n}", "switch t {\ncase \"#\":\nprint(1)\ncase \"b\":\nprint(2)\ndefault:\nprint(3)\n}",
	"switch \"#\" {\ncase t:\nprint(1)\n}", "f(\"#\", 1)", "t = f(\"#\" + t, 2)", "l := []string{\"#\", \"b\", \"#\"}\nprint(l[0])", "s[2] = \"#\"", "s[0] = t + \"#\"", "for i, c := range \"#\" {\nprint(i, c)\n}", "print(len(\"#\"))", "print(\"#\"[0])",
	"print(\"#\"[1:2])", "n = len(t + \"#\")", "write(\"#\", \"a\")", "write(\"f\", \"#\")", "write(\"f\", \"#\", true)", "write(t + \"#\", t, ok)", "t = read(\"#\")", "t = read(\"a b/\" + \"#\")", "ok = exists(\"#\")", "if exists(\"#\") {\nprint(1)\n}", "t = input(\"#\")", "t = input(\"#\" + t)",
	"panic(\"#\")", "@\"#\"()", "@\"#\"(\"a\")", "@echo(\"#\")", "@echo(\"#\", t, \"#\")", "t, v, n = @echo(\"#\")", "t, v, n = @\"#\"(\"a b\")", "@echo(\"#\") | @cat(\"#\")", "t, v, n = @echo(\"#\") | @\"#\"() | @cat(\"b\")", "@echo(t + \"#\")", "print(itoa(n) + \"#\")", "var e error = \"#\"\nprint(e == nil)", "x, y := \"#\", \"b\"\nprint(x, y)", "a, b := \"b\", \"#\"\na, b = b, \"#\"",
}

// stmts: every statement and builtin, for helper combinations and placements. The names are those of formHead.
var formStmts = []string{
	"", "print(n)", "print()", "panic(\"p\")", "s[1] = \"x\"", "k[n] = 5", "copy(k, k)", "n = copy(s, s)", "n = len(s)", "n = len(t)", "n = len(\"lit\")", "t = t[0]", "t = t[1:n]", "t = t[:]", "t = s[0]", "s = []string{}", "s = []string{\"a\", t}",
	"write(\"f\", t)", "write(\"f\", t, true)", "t = read(\"f\")", "ok = exists(\"f\")", "t = input()", "t = input(\"p\")", "@echo(t)", "t, v, n = @echo(t)", "t, v, n = @echo(t) | @cat()", "@echo(t) | @cat()", "n = n * 2 % 3 - n / 4", "ok = !ok && n < 2 || t != \"a\"", "t = t + itoa(n)", "n++", "n -= 2", "t += \"x\"",
	"for i, c := range t {\nprint(c)\n}", "for i, c := range s {\nprint(c, i)\n}", "for n < 3 {\nn++\n}", "for {\nbreak\n}", "if ok {\n}", "if ok {\n} else if n == 1 {\n} else {\n}", "switch n {\ncase 1:\ncase 2:\ndefault:\n}", "switch {\ndefault:\n}", "switch t {\ncase \"a\":\nprint(1)\n}", "for i := 0; i < 2; i++ {\n}", "for ; ; {\nbreak\n}", "for i := 0; i < n; i++ {\nif i == 1 {\ncontinue\n}\nbreak\n}",
	"var z []int\nprint(len(z))", "g()", "n = h(n, t)", "n, t = m()", "for ok {\nok = false\n}", "if t[0] == \"a\" {\nn = len(t)\n}", "for i := len(t); i > 0; i-- {\nt = t[0:i]\n}", "print(len(s), len(t), s[0], t[0])", "n = copy(s, s) + len(s)", "for exists(\"f\") {\n}", "if read(\"f\") == \"a\" {\nwrite(\"g\", read(\"h\"))\n}", "switch input() {\ncase \"a\":\nwrite(\"f\", \"b\")\n}",
}

const formVars = "n := 1\nok := true\nt := \"txt\"\nv := \"\"\ns := []string{\"a\", \"b\"}\nk := []int{1}\n"
const formFuncs = "func g() {\n}\nfunc h(a int, b string) int {\nreturn a\n}\nfunc m() (int, string) {\nreturn 1, \"a\"\n}\n"

func litProg(i, where int, lit string) string {
	s := strings.Replace(litPlaces[i], "#", lit, 1) + "\n"
	s = strings.ReplaceAll(s, "#", "#)")
	head := ""
	for _, v := range []string{"n := 1\n", "t := \"txt\"\n", "ok := true\n", "v := \"\"\n", "s := []string{\"a\"}\n"} { // what the place needs
		x := v[:strings.IndexByte(v, ' ')]
		if strings.Contains("\n"+s, "\n"+x) || strings.Contains(s, " "+x) || strings.Contains(s, "("+x) || where == 3 && x == "n" || where != 0 && x == "ok" || where == 1 && x == "n" {
			head += v
		}
	}
	if strings.Contains(s, "f(\"") {
		head += "func f(a string, b int) string {\nreturn a\n}\n"
	}
	switch where {
	case 0:
		return head + s
	case 1:
		return head + "if ok {\n" + s + "} else if n == 2 {\nprint(\"e\")\n} else {\nprint(\")\")\n}\nprint(\"z\")\n"
	case 2:
		return head + "func w(t string) int {\nfor i := 0; i < 2; i++ {\nif ok {\n" + s + "}\n}\nreturn 1\n}\nprint(w(\"a\"))\n"
	default:
		return head + "for n < 3 {\nn++\nswitch n {\ncase 2:\n" + s + "default:\nprint(1)\n}\n}\n"
	}
}

// C16 lists the templates for the well-formedness of scripts.
func C16(th bool, seed int64) (out []Form) {
	fam := ""
	add := func(id, main string) *Form {
		out = append(out, Form{ID: fam + "/" + id, Fam: fam, Main: main, Max: 40000})
		return &out[len(out)-1]
	}
	nm := strings.NewReplacer("(", "-", ")", ".")

	fam = "marks" // jumps lead where they belong
	kinds, cuts := "FWRCEIJKST", 2
	if th {
		cuts = 4
	}
	for i := range kinds {
		for w := 0; w < 3; w++ {
			add(fmt.Sprintf("%c-%d", kinds[i], w), cutSlots(markProg(kinds[i:i+1]+"()", seed, w, false), 2)).Marks = true
		}
	}
	for i, f := range forests(2, kinds) {
		for w := 0; w < 3; w++ {
			if th || (i+w+int(seed))%3 == 0 {
				add(fmt.Sprintf("%s-%d", nm.Replace(f), w), cutSlots(markProg(f, seed+int64(i), w, true), cuts)).Marks = true
			}
		}
	}
	r := rand.New(rand.NewSource(seed*31 + 7))
	for size := 3; size <= 5; size++ {
		n := 60 * (6 - size)
		if th {
			n *= 6
		}
		all := forests(size, "F")
		for j := 0; j < n; j++ {
			f := []byte(all[r.Intn(len(all))])
			for q := range f {
				if f[q] == 'F' {
					f[q] = kinds[r.Intn(len(kinds))]
				}
			}
			add(fmt.Sprintf("%d-%d", size, j), cutSlots(markProg(string(f), seed+int64(j), j%3, true), cuts)).Marks = true
		}
	}
	for d := 3; d <= 9; d += 2 { // deep nesting
		for _, ks := range []string{"F", "I", "K", "T", "FI", "WJ", "EK", "RS", "CT", "FWRE", "IJKST"} {
			f := ""
			for j := 0; j < d; j++ {
				f += string(ks[j%len(ks)]) + "("
			}
			sl := markProg(f+strings.Repeat(")", d), seed, d%2, true)
			add(fmt.Sprintf("deep-%s-%d", ks, d), cutSlots(sl, cuts)).Marks = true
		}
	}
	for _, ks := range []string{"F", "I", "K", "S", "FIK", "WRT", "ECJ"} { // long sequences
		f := ""
		for j := 0; j < 24; j++ {
			f += string(ks[j%len(ks)]) + "()"
		}
		for w := 0; w < 3; w++ {
			add(fmt.Sprintf("long-%s-%d", ks, w), cutSlots(markProg(f, seed, w, true), cuts)).Marks = true
		}
	}

	fam = "empty" // empty blocks
	for i, sk := range scopeSkels {
		_ = i
		l := alt("", "print(2)")
		n := strings.Count(sk.src, "#\n")
		src := sk.src
		if n > 9 {
			k := 0
			for ; n > 9; n-- {
				src = strings.Replace(src, "#\n", "\n", 1)
			}
			_ = k
		}
		body := strings.ReplaceAll(src, "#\n", l+"\n")
		if strings.Contains(body, "n == 1") || strings.Contains(body, "switch n") {
			body = "n := 3\n" + body
		}
		add(sk.id, body)
	}
	for i, s := range []string{"for false {\n#}\n", "if false {\n#} else if false {\n#} else {\n#}\n", "for i := 0; i < 1; i++ {\n#}\n", "for k, v := range \"a\" {\n#}\n", "switch {\n#case true:\n#default:\n#}\n", "switch 1 {\ncase 1:\n#case 2:\n#}\n"} {
		s = strings.Replace(s, "switch {\n#", "switch {\n", 1)
		in := alt("", "if true {\n}", "for false {\n}", "switch {\ndefault:\n}", "print(1)", "var z int", "for k2, v2 := range \"\" {\n}")
		add(fmt.Sprint("nest", i), strings.ReplaceAll(s, "#", in+"\n"))
		add(fmt.Sprint("fn", i), "func f() {\n"+strings.ReplaceAll(s, "#", in+"\n")+"}\nf()\n")
		add(fmt.Sprint("fnlib", i), "import l \"l.tsh\"\nl.F()\n").Files = map[string]string{"l.tsh": "func F() {\n" + strings.ReplaceAll(s, "#", "") + "}\n"}
	}
	add("nothing", "\n")
	add("fn", "func f() {\n}\nfunc g() {\n}\n"+alt("", "f()", "g()")+"\n"+alt("", "f()", "g()")+"\n")

	fam = "helpers" // every statement in every place
	all := alt(formStmts...)
	few := alt("", "print(n)", "n = len(t)", "t = t[0]", "s[0] = \"a\"", "n = copy(s, s)", "n = len(s)", "t = read(\"f\")", "write(\"f\", t)", "panic(\"a\")", "t, v, n = @echo(t)", "ok = exists(\"f\")", "t = input()")
	places := map[string]string{
		"main":     formVars + formFuncs + "%s\n",
		"novars":   "n := 1\nt := \"a\"\nv := \"b\"\nok := true\nvar s []string\nvar k []int\n" + formFuncs + "%s\n",
		"fn":       formVars + formFuncs + "func f() {\n%s\n}\nf()\n",
		"retfn":    formVars + formFuncs + "func f(n int, t string) int {\n%s\nreturn n\n}\nprint(f(1, \"x\"))\n",
		"unused":   formVars + formFuncs + "func f() {\n%s\n}\nprint(1)\n",
		"unused2":  formVars + formFuncs + "func f() {\n%s\n}\nfunc f2() {\nf()\n}\nn = 2\n",
		"if":       formVars + formFuncs + "if n == 1 {\n%s\n} else if n == 2 {\n%s\n} else {\n%s\n}\n",
		"loop":     formVars + formFuncs + "for q := 0; q < 2; q++ {\n%s\n}\n",
		"local":    formFuncs + "func f() {\n" + formVars + "%s\n}\nf()\n",
		"case":     formVars + formFuncs + "switch n {\ncase 1:\n%s\ndefault:\n%s\n}\n",
		"deepfn":   formVars + formFuncs + "func f() int {\nfor q, c := range t {\nif n == 1 {\n%s\nreturn 1\n}\n}\nreturn 2\n}\nfor f() == 1 {\n%s\n}\n",
		"loopexpr": formVars + formFuncs + "for q := len(t); q < len(s); q += len(k) {\n%s\n}\n",
	}
	for _, p := range sortedKeys(places) {
		k := strings.Count(places[p], "%s")
		switch {
		case k == 1:
			add(p, strings.ReplaceAll(places[p], "%s", all))
		default:
			m := strings.Replace(places[p], "%s", few, 1) // other slots: a few
			add(p, strings.ReplaceAll(m, "%s", alt("", "s[0] = \"a\"", "t = t[0]", "t = read(\"f\")")))
		}
	}
	lib := "func Used() {\n%s\n}\nfunc Unused() {\n%s\n}\nfunc priv() {\n%s\n}\n"
	fv := strings.ReplaceAll(formVars, "n :=", "n :=")
	for i, c := range []string{"import l \"l.tsh\"\nl.Used()\n", "import l \"l.tsh\"\nprint(1)\n", "import l \"l.tsh\"\nimport m \"l.tsh\"\nm.Used()\nl.Used()\n", "import l \"l.tsh\"\nfunc f() {\nl.Unused()\n}\nl.Used()\n"} {
		for j, st := range formStmts {
			st2 := formStmts[(j*7+3)%len(formStmts)]
			st3 := formStmts[(j*11+5)%len(formStmts)]
			if !th && (i+j)%2 == 0 {
				continue
			}
			add(fmt.Sprintf("lib%d-%d", i, j), c).Files = map[string]string{"l.tsh": fv + formFuncs + fmt.Sprintf(lib, st, st2, st3)}
		}
	}
	for i := range formStmts { // pairs
		for j := range formStmts {
			if (i*7+j*3+int(seed))%5 != 0 && !th {
				continue
			}
			add(fmt.Sprintf("pair-%d-%d", i, j), formVars+formFuncs+"func f() {\n"+formStmts[j]+"\n}\n"+formStmts[i]+"\n"+alt("", "f()")+"\n")
		}
	}

	fam = "funcs" // many functions
	for _, n := range []int{3, 9, 12} {
		var sb strings.Builder
		for i := 0; i < n; i++ {
			call := "n++"
			if i > 0 {
				call = fmt.Sprintf("n = f%d(n)", i-1)
			}
			fmt.Fprintf(&sb, "func f%d(n int) int {\nif n == %d {\nprint(\"in\")\nreturn n\n}\n%s\nfor i := 0; i < n; i++ {\nif i == 3 {\nreturn i\n}\n}\nreturn n\n}\n", i, i, call)
		}
		var l []string
		for i := 0; i < n; i++ {
			l = append(l, fmt.Sprintf("print(f%d(1))", i))
		}
		add(fmt.Sprint("chain", n), sb.String()+alt(append(l, "")...)+"\n"+alt(append(l, "")...)+"\n")
	}
	for i, names := range [][]string{{"end", "eof"}, {"_ech", "_sls"}, {"_i0", "_f0"}, {"_e0", "_ret_f"}, {"_eo_f", "_stlhl"}, {"f", "F"}, {"ret", "eo"}, {"_stlhle", "_sah_loop"}, {"LF", "_dq"}, {"call", "goto"}, {"exit", "set"}, {"fi", "done"}, {"then", "esac"}, {"eval", "local"}, {"_", "__"}} {
		add(fmt.Sprint("names", i), fmt.Sprintf("func %s(a int) int {\nfor i := 0; i < a; i++ {\nif i == 2 {\nreturn i\n}\n}\nreturn len(\"abc\")\n}\nfunc %s() {\nprint(\"a\")\n}\n%s\n%s\n", names[0], names[1], alt("", "print("+names[0]+"(1))"), alt("", names[1]+"()")))
		add(fmt.Sprint("vars", i), fmt.Sprintf("%s := 1\nvar %s []string\n%s[0] = \"a\"\nif %s == 1 {\nprint(%s[0], len(%s))\n}\n", names[0], names[1], names[1], names[0], names[1], names[1]))
	}

	fam = "lits" // string literals of all contents in all places
	for i := range litPlaces {
		for w := 0; w < 4; w++ {
			if !th && (i+w+int(seed))%4 > 1 {
				continue
			}
			k := "\x01p"
			add(fmt.Sprintf("%d-%d", i, w), litProg(i, w, "x"+k+"y"))
			if th || w == 1 && i%3 == int(seed%3) {
				add(fmt.Sprintf("%d-%d-two", i, w), litProg(i, w, k+k))
			}
			if th || w == 2 && i%3 == int(seed%3) {
				add(fmt.Sprintf("%d-%d-esc", i, w), litProg(i, w, "a\\\x01q"+k))
			}
			if w == 1 && i%3 == int(seed+1)%3 || th {
				add(fmt.Sprintf("%d-%d-raw", i, w), strings.ReplaceAll(litProg(i, w, "\x01pb\x01p"), "\"\x01pb\x01p\"", "`\x01pb\x01p`"))
			}
		}
	}
	for i, s := range []string{"", ")", "(", "\\\"", "&", "|", "%", "%%", "!", "^", "a%b%c", "\\n", "\\\")", "%1", "%~1", "!LF!", "\\\\", "$(", "`", "${", "'", "\\\" & (", ":x", ":eof", "if", "a b", "-n", "#", "<", ">", ">>", "<<", "*", "~", ";", ";;", "=", "a=b", "%)%", "\\\"%\\\""} {
		for w := 0; w < 4; w++ {
			if w != 1 && !th && (i+w+int(seed))%3 != 0 {
				continue
			}
			l := []string{}
			for j := range litPlaces {
				if strings.Contains(litPlaces[j], "@\"#\"") && (s == "" || s == "if" || s == "-n") { // no names of programs
					continue
				}
				l = append(l, strings.ReplaceAll(litPlaces[j], "#", s))
			}
			add(fmt.Sprintf("fixed-%d-%d", i, w), strings.ReplaceAll(litProg(0, w, "QQ s = t = ok = v = n = f(\""), "print(\"QQ s = t = ok = v = n = f(\"\")", alt(l...)))
		}
	}

	fam = "std"
	calls := []string{"strings.Contains(t, \"b\")", "strings.Index(t, \"b\")", "strings.Repeat(t, 2)", "strings.HasPrefix(t, \"a\")", "strings.HasSuffix(t, \"a\")", "strings.Split(t, \",\")", "strings.Join(strings.Split(t, \",\"), \";\")", "strings.Replace(t, \"a\", \"b\", 1)", "strings.ReplaceAll(t, \"a\", \"b\")", "strings.TrimSpace(t)", "strings.Count(t, \"a\")", "strings.ToUpper(t)", "strings.ToLower(t)", "strings.Title(t)", "strings.LastIndex(t, \"a\")", "strings.Fields(t)", "strings.TrimLeft(t, \"a\")", "strings.TrimPrefix(t, \"a\")", "strings.EqualFold(t, \"A\")"}
	for i, c := range calls {
		for j, w := range []string{"r := %s\n", "func f(t string) {\nr := %s\nprint(1)\n}\nf(\"x\")\n", "for i := 0; i < 2; i++ {\nif i == 1 {\nr := %s\n}\n}\n"} {
			if j == 0 || th || (i+j+int(seed))%3 == 0 {
				add(fmt.Sprintf("%d-%d", i, j), "import \"strings\"\n\nt := \"abc\"\n"+fmt.Sprintf(w, c))
			}
		}
	}
	return
}

// cutSlots keeps the first n choices and takes the second alternative of the others.
func cutSlots(s string, n int) string {
	var sb strings.Builder
	k := 0
	for i := 0; i < len(s); i++ {
		if s[i] != 2 {
			sb.WriteByte(s[i])
			continue
		}
		end := i + strings.IndexByte(s[i:], 4)
		if k++; k <= n {
			sb.WriteString(s[i : end+1])
		} else if a := strings.Split(s[i+1:end], "\x03"); len(a) > 1 {
			sb.WriteString(a[1])
		}
		i = end
	}
	return sb.String()
}
