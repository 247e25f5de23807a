package gen

import (
	"fmt"
	"strings"

	"verif/ts"
)

// Accept is a template whose acceptance is decided.
type Accept struct {
	ID, Fam, Main string
	Files         map[string]string
	Max           int
}

// typePrelude declares one variable of every type and functions of every result.
var preVars = "i := 1\nb := true\ns := \"s\"\nvar e error = \"e\"\nx := []int{1}\ny := []bool{true}\nz := []string{\"a\"}\n"
var preFuncs = map[byte]string{
	'p': "func p() int {\n\treturn 1\n}\n", 'q': "func q() bool {\n\treturn true\n}\n", 'r': "func r() string {\n\treturn \"r\"\n}\n", 'u': "func u() []int {\n\treturn []int{1}\n}\n", 'v': "func v() {\n}\n",
	'w': "func w() []string {\n\treturn []string{\"w\"}\n}\n", 'g': "func g() []bool {\n\treturn []bool{}\n}\n", 'h': "func h() error {\n\treturn nil\n}\n", 'm': "func m() (int, string) {\n\treturn 1, \"m\"\n}\n"}

func preF() string {
	s := ""
	for _, c := range []byte("pqruvwghm") {
		s += preFuncs[c]
	}
	return s
}

// wraps put statements into every enclosing context (the first line is used at top level before the construct).
var wraps = []struct{ id, pre, post string }{
	{"top", "", ""},
	{"func", "func zf() {\n", "}\nzf()\n"},
	{"if", "if true {\n", "}\n"},
	{"else", "if false {\n} else {\n", "}\n"},
	{"elif", "if false {\n} else if true {\n", "}\n"},
	{"for", "for zi := 0; zi < 1; zi++ {\n", "}\n"},
	{"while", "for i < 0 {\n", "}\n"},
	{"range", "for zi, zv := range \"a\" {\n", "}\n"},
	{"switch", "switch i {\ncase 1:\n", "}\n"},
	{"default", "switch {\ndefault:\n", "}\n"},
	{"deep", "func zf() {\nif true {\nfor zi := 0; zi < 1; zi++ {\nswitch zi {\ncase 0:\n", "}\n}\n}\n}\nzf()\n"},
	{"intfunc", "func zf() int {\nif true {\n", "}\nreturn 1\n}\ni = zf()\n"},
}

// positions are statements with a typed position E.
var positions = []string{
	"var k int = E", "var k bool = E", "var k string = E", "var k error = E", "var k []int = E", "var k []bool = E", "var k []string = E", "var k, l int = E, 1", "var k, l string = \"a\", E", "var k = E", "var k, l = E", "k := E", "k, l := E", "k, l := 1, E", "k, l := E, E",
	"i = E", "b = E", "s = E", "e = E", "x = E", "y = E", "z = E", "i, s = E", "i, s = E, \"a\"", "i, s = 1, E", "s, i = E", "i, k := E", "s, k := 1, E",
	"i += E", "s += E", "b += E", "x += E", "i -= E", "s -= E", "i *= E", "i /= E", "i %= E", "e += E", "s *= E",
	"x[E] = 1", "x[0] = E", "y[0] = E", "z[0] = E", "z[E] = \"a\"", "s[0] = E", "i[0] = E",
	"if E {\n}", "if i == 1 {\n} else if E {\n}", "for E {\n\tbreak\n}", "for k := 0; E; k++ {\n\tbreak\n}", "for k := E; k < 1; k++ {\n}", "for k := 0; k < 1; k = E {\n}", "for k, l := range E {\n}", "for k := 0; k < 1; i += E {\n}",
	"switch E {\n}", "switch E {\ncase 1:\n}", "switch E {\ncase true:\n}", "switch E {\ncase \"a\":\n}", "switch i {\ncase E:\n}", "switch i {\ncase 1:\ncase E:\n}", "switch s {\ncase E:\n}", "switch b {\ncase E:\n}", "switch {\ncase E:\n}", "switch {\ncase true:\ncase E:\n}", "switch x {\ncase E:\n}",
	"print(E)", "print(1, E)", "f1(E)", "f2(E)", "f3(E)", "f4(1, E)", "f4(E, \"a\")", "f5(E, E)", "f6(1, true, E)", "f0(E)", "f1()", "f1(E, 1)", "f4(E)", "f5(E)", "f5(x, z, E)", "f7(E)", "f8(E)",
	"k := []int{E}", "k := []int{1, E}", "k := []bool{E}", "k := []string{E}", "k := []string{\"a\", \"b\", E}", "k := []error{E}",
	"k := len(E)", "k := copy(x, E)", "k := copy(y, E)", "k := copy(z, E)", "k := itoa(E)", "k := input(E)", "k := read(E)", "k := exists(E)", "write(E, \"a\")", "write(\"a\", E)", "write(\"a\", \"b\", E)", "write(E)", "write(\"a\", \"b\", true, E)", "k := len(E, E)", "k := itoa(E, 1)", "k := read(\"a\", E)", "k := exists(\"a\", E)", "k := input(\"a\", E)",
	"k := x[E]", "k := s[E]", "k := s[E:]", "k := s[:E]", "k := s[1:E]", "k := s[E:1]", "k := z[E]", "k := x[0:E]",
	"k := !E", "k := (E)", "k := !(E)", "var k bool = !E", "k := itoa(len(E))", "k := len(itoa(E))", "k := x[len(E)]", "f1(x[E])", "print(p() + E)", "k := x[x[E]]", "k := (i + (E))",
	"@echo(E)", "k, l, n := @echo(E)", "@echo(\"a\") | @cat(E)", "k := @echo(E)", "k, l := @echo(\"a\")", "var k int, l = E",
	"i = 1 + E", "i = E + 1", "s = s + E", "s = E + s", "b = E && true", "b = true && E", "b = E || false", "b = false || E", "b = 1 == E", "b = E == 1", "b = \"a\" != E", "b = E != \"a\"", "b = true == E", "b = E == true", "b = 1 < E", "b = E >= 1", "i = 2 * E", "i = E % 2", "b = i < E && b", "b = b && E < 1", "b = nil == E", "b = E != nil",
	"i = p() + (E * 2)", "s = \"a\" + (\"b\" + E)", "b = !(b && (b || E))", "i = x[0] + E", "k := []int{1 + E}", "f4(1 + E, s)", "f4(1, s + E)",
}

const posFuncs = "func f0() {\n}\nfunc f1(k int) {\n}\nfunc f2(k bool) {\n}\nfunc f3(k string) {\n}\nfunc f4(k int, l string) {\n}\nfunc f5(k []int, l []string) {\n}\nfunc f6(k int, l bool, n []bool) {\n}\nfunc f7(k error) {\n}\nfunc f8(k []error) {\n}\n"

// returns are result lists with return statements.
var retSpecs = []struct{ types, ret string }{
	{"int", "E"}, {"bool", "E"}, {"string", "E"}, {"error", "E"}, {"[]int", "E"}, {"[]bool", "E"}, {"[]string", "E"}, {"(int, string)", "E, \"a\""}, {"(int, string)", "1, E"}, {"(int, string)", "E"}, {"int", "E, E"}, {"int", "1, E"},
	{"(int, bool, []string)", "1, true, E"}, {"(int, bool, []string)", "1, E, z"}, {"", "E"}, {"(int, error)", "E, nil"}, {"([]int, error)", "E, nil"}, {"(int, error)", "1, E"}, {"(int)", "E"}, {"bool", "E && true"}, {"int", "i + E"}, {"string", "s + E"}, {"bool", "!E"}, {"(int, int)", "1, 2, E"},
}

// retWraps place a return statement R within a function body; the body ends with the valid return V.
var retWraps = []struct{ id, body string }{
	{"end", "R"}, {"if", "if true {\nR}\nV"}, {"else", "if false {\nV} else {\nR}\nV"}, {"elif", "if false {\n} else if true {\nR} else {\nV}\nV"}, {"for", "for true {\nR}\nV"}, {"for3", "for ki := 0; ki < 1; ki++ {\nR}\nV"}, {"range", "for ki, kv := range \"a\" {\nR}\nV"}, {"switch", "switch 1 {\ncase 1:\nR}\nV"}, {"default", "switch 1 {\ncase 1:\nV\ndefault:\nR}\nV"}, {"first", "R" + "V"},
	{"deep", "if true {\nfor true {\nswitch {\ncase true:\nif false {\n} else {\nR}\n}\n}\n}\nV"}, {"case2", "switch 1 {\ncase 1:\nV\ncase 2:\nif true {\nV}\ncase 3:\nR}\nV"}, {"mid", "if true {\nV}\nif true {\nR}\nif true {\nV}\nV"},
}

func validRet(types string) string {
	var vs []string
	for _, t := range strings.Split(strings.Trim(types, "()"), ",") {
		switch strings.TrimSpace(t) {
		case "int":
			vs = append(vs, "1")
		case "bool":
			vs = append(vs, "true")
		case "string", "error":
			vs = append(vs, "\"v\"")
		case "[]int":
			vs = append(vs, "[]int{1}")
		case "[]bool":
			vs = append(vs, "[]bool{}")
		case "[]string":
			vs = append(vs, "[]string{}")
		}
	}
	if len(vs) == 0 {
		return ""
	}
	return "return " + strings.Join(vs, ", ") + "\n"
}

// C06 lists typing templates.
func C06(thorough bool, seed int64) []Accept {
	var out []Accept
	fam := ""
	add := func(id, main string) *Accept {
		out = append(out, Accept{ID: fam + "/" + id, Fam: fam, Main: main})
		return &out[len(out)-1]
	}
	prel := func(body string) string {
		s := preVars
		if strings.Contains(body, "\x01F") || strings.Contains(body, "p()") {
			s += preF()
		}
		used := false
		for _, l := range strings.SplitAfter(posFuncs, "}\n") {
			if len(l) > 6 && strings.Contains(body, l[5:7]+"(") {
				s += l
				used = true
			}
		}
		_ = used
		return s
	}
	// offered expressions: a variable of any type, a call of any result, operations on two variables of any type
	offersSym := []struct{ id, e string }{{"var", sy("T")}, {"call", sy("F") + "()"}, {"lit", "L"}, {"elem", sy("T") + "[0]"}, {"group", "(" + sy("T") + ")"}, {"bin", sy("T") + " + " + sy("T")}, {"cmp", sy("T") + " == " + sy("T")}, {"neg", "!" + sy("T")}, {"groupcall", "(" + sy("F") + "())"}}
	lits := []string{"1", "-1", "\"a\"", "true", "nil", "[]int{}", "[]bool{}", "[]string{\"a\"}", "`r`", "len(s)", "itoa(1)", "exists(\"a\")", "input()", "read(\"a\")", "copy(x, x)", "i, s", "m()", "v()", "@a()", "[]error{}", "[]int{1}[0]", "1 < 2", "true && b", "\"a\" + s"}

	fam = "positions"
	for pi, pos := range positions {
		for wi, wr := range wraps {
			for oi, o := range offersSym {
				if oi == 2 {
					continue
				}
				// variables and calls everywhere in a few contexts; the others rotate
				main := (wi == pi%len(wraps) && (oi < 2 || oi == 3+pi%6)) || wi == 0 && oi < 2
				if !thorough && !main && (wi*7+oi*3+pi+int(seed))%37 != 0 {
					continue
				}
				if strings.Contains(pos, "E, E") && oi >= 5 {
					continue
				}
				body := wr.pre + strings.ReplaceAll(pos, "E", o.e) + "\n" + wr.post
				add(fmt.Sprintf("%d-%s-%s", pi, wr.id, o.id), prel(body)+body)
			}
			for li, l := range lits {
				if !thorough && (wi*5+pi*3+li+int(seed))%31 != 0 {
					continue
				}
				body := wr.pre + strings.ReplaceAll(pos, "E", l) + "\n" + wr.post
				add(fmt.Sprintf("%d-%s-lit%d", pi, wr.id, li), preVars+preF()+prel(body)[len(preVars):])
				out[len(out)-1].Main = preVars + preFuncs['m'] + preFuncs['v'] + strings.TrimPrefix(prel(body), preVars) + body
				if strings.Contains(prel(body), "func m()") {
					out[len(out)-1].Main = prel(body) + body
				}
			}
		}
	}

	ops := alt("+", "-", "*", "/", "%", "==", "!=", "<", ">", "<=", ">=", "&&", "||", "=", ":=", "+=", "-=", "*=", "/=", "%=", "++", "--", "!", "&", "|", "=<", "=>", "**", ",", ".", ":", "+-", "&&!", "==!", "+ +")
	fam = "operators" // every operator spelling between every pair of types, in every context
	for wi, wr := range wraps {
		for _, x := range []struct{ id, st string }{{"bin", "k := " + sy("T") + " " + sy("o") + " " + sy("T") + "\n"}, {"bin2", "k := " + sy("T") + " " + ops + " " + sy("T") + "\n"}, {"asg", sy("T") + " " + sy("oo") + " " + sy("T") + "\n"}, {"asg1", sy("T") + " = " + sy("T") + " + " + sy("T") + "\n"}, {"inc", sy("T") + ops + "\n"},
			{"cond", "if " + sy("T") + " " + ops + " " + sy("T") + " {\n}\n"}, {"mix", "k := i + 1 " + ops + " " + sy("T") + " " + sy("o") + " 2\n"}, {"elem", sy("T") + "[" + sy("T") + "] = " + sy("T") + "\n"}, {"sub", "k := " + sy("T") + "[" + sy("T") + ":" + sy("T") + "]\n"}, {"copy", "k := copy(" + sy("T") + ", " + sy("T") + ")\n"}, {"pair", sy("T") + ", " + sy("T") + " = " + sy("T") + ", 1\n"}, {"pairm", sy("T") + ", " + sy("T") + " = m()\n"}, {"pairn", "k, " + sy("T") + " := m()\n"}, {"range", "for k, l := range " + sy("T") + " {\n" + sy("T") + " = l\n}\n"}, {"rangei", "for k, l := range " + sy("T") + " {\n" + sy("T") + " = k\n}\n"}, {"switch", "switch " + sy("T") + " {\ncase " + sy("T") + ":\n}\n"}, {"call", "f4(" + sy("T") + ", " + sy("T") + ")\n"}, {"call5", "f5(" + sy("T") + ", " + sy("T") + ")\n"},
			{"app", sy("T") + ", " + sy("T") + ", " + sy("T") + " = @echo(\"a\")\n"}, {"len", sy("T") + " = len(" + sy("T") + ")\n"}, {"slice", sy("T") + " = []int{" + sy("T") + "}\n"}, {"slice2", "k := []string{" + sy("T") + ", " + sy("T") + "}\n"}, {"callasg", sy("T") + " = " + sy("F") + "()\n"}, {"elemasg", sy("T") + " = " + sy("T") + "[" + sy("T") + "]\n"}} {
			if !thorough && wi > 0 && (wi+len(x.id)+int(seed))%5 != 0 || wr.id == "while" {
				continue
			}
			if !thorough && wi > 0 && strings.Contains(x.st, sy("oo")) {
				continue
			}
			body := wr.pre + x.st + wr.post
			pre := prel(body)
			if strings.Contains(x.st, "= m()") && !strings.Contains(pre, "func m(") {
				pre += preFuncs['m']
			}
			add(x.id+"-"+wr.id, pre+body).Max = 12000
		}
	}

	fam = "returns"
	for ri, rs := range retSpecs {
		for wi, wr := range retWraps {
			for oi, o := range []string{sy("T"), sy("F") + "()", sy("T") + "[0]", "(" + sy("T") + " + " + sy("T") + ")"} {
				if !thorough && oi > 0 && (ri*3+wi*5+oi+int(seed))%6 != 0 {
					continue
				}
				if strings.Contains(rs.ret, "E, E") && oi > 1 {
					continue
				}
				v := validRet(rs.types)
				body := strings.NewReplacer("R", "return "+strings.ReplaceAll(rs.ret, "E", o)+"\n", "V", v).Replace(wr.body)
				fn := "func zf() " + rs.types + " {\n" + body + "}\n"
				if rs.types == "" {
					fn = "func zf() {\n" + body + "}\n"
				}
				add(fmt.Sprintf("%d-%s-%d", ri, wr.id, oi), prel(fn)+fn+"zf()\n")
			}
		}
	}
	// results of a function that is not used by the program
	for ri, rs := range retSpecs {
		if ri%3 == 0 || thorough {
			fn := "func zf() " + rs.types + " {\nreturn " + strings.ReplaceAll(rs.ret, "E", sy("T")) + "\n}\n"
			add(fmt.Sprintf("unused%d", ri), prel(fn)+fn)
		}
	}

	fam = "calls" // arity 0..3 against 0..4 arguments of any type
	for _, ps := range [][]string{{}, {"int"}, {"[]int"}, {"int", "int"}, {"string", "[]string"}, {"int", "bool", "string"}} {
		for n := 0; n <= len(ps)+1 && n <= 3; n++ {
			var pl, al []string
			for k, t := range ps {
				pl = append(pl, fmt.Sprintf("k%d %s", k, t))
			}
			for k := 0; k < n; k++ {
				al = append(al, sy("T"))
			}
			for wi, wr := range wraps {
				if !thorough && wi > 0 && (wi+n+len(ps))%6 != 0 {
					continue
				}
				add(fmt.Sprintf("%s-%d-%s", strings.ReplaceAll(strings.Join(ps, "_"), "[]", "s"), n, wr.id), preVars+"func zc("+strings.Join(pl, ", ")+") int {\n\treturn 1\n}\n"+wr.pre+"k := zc("+strings.Join(al, ", ")+")\n"+wr.post)
				if len(ps) == 2 {
					add(fmt.Sprintf("%s-%d-%s-nested", strings.ReplaceAll(strings.Join(ps, "_"), "[]", "s"), n, wr.id), preVars+"func zc("+strings.Join(pl, ", ")+") int {\n\treturn 1\n}\n"+wr.pre+"k := 1 + len(itoa(zc("+strings.Join(al, ", ")+")))\n"+wr.post)
				}
			}
		}
	}
	for i, s := range []string{"len", "copy", "itoa", "input", "read", "exists", "write", "print", "panic"} {
		for n := 0; n < 4; n++ {
			var al []string
			for k := 0; k < n; k++ {
				al = append(al, sy("T"))
			}
			st := s + "(" + strings.Join(al, ", ") + ")\n"
			if i < 6 {
				st = "k := " + st
			}
			add(fmt.Sprintf("builtin-%s%d", s, n), preVars+st)
		}
	}
	add("imported", preVars+"").Main = "import l \"l.tsh\"\n" + preVars + "k := l.F(" + sy("T") + ", " + sy("T") + ")\n"
	out[len(out)-1].Files = map[string]string{"l.tsh": "func F(a int, b []string) int {\n\treturn a\n}\n"}
	add("imported2", "").Main = "import l \"l.tsh\"\n" + preVars + sy("T") + " = l.F(1, z)\n"
	out[len(out)-1].Files = map[string]string{"l.tsh": "func F(a int, b []string) int {\n\treturn a\n}\n"}
	add("std", "").Main = "import \"strings\"\n" + preVars + sy("T") + " = strings.Contains(" + sy("T") + ", \"a\")\n"

	fam = "corrupt" // one operand of a valid program replaced by a variable of any type
	progs := Corpus()
	if thorough {
		for k, l := range [][]Prog{C01(false, seed), C02(false, seed), C03(false, seed), C04(false, seed)} {
			for i, p := range l {
				if (i+k)%17 == 0 && len(p.Src) < 1500 {
					progs = append(progs, p)
				}
			}
		}
	}
	ty := "zzi := 1\nzzb := true\nzzs := \"s\"\nzze := \"e\"\nzzx := []int{1}\nzzy := []bool{true}\nzzz := []string{\"a\"}\n"
	for pi, p := range progs {
		toks, err := ts.Tokenize(p.Src)
		if err != nil {
			continue
		}
		// the variables follow the imports
		at := 0
		if strings.Contains(p.Src, "import ") {
			at = strings.LastIndex(p.Src, "import ")
			if k := strings.Index(p.Src[at:], ")\n"); strings.HasPrefix(p.Src[at:], "import (") {
				at += k + 2
			} else {
				at += strings.Index(p.Src[at:], "\n") + 1
			}
		}
		for i, t := range toks {
			if t.Pos < at || t.Kind != ts.KIdent && t.Kind != ts.KInt && t.Kind != ts.KStr && !(t.Kind == ts.KKeyword && (t.Text == "true" || t.Text == "false" || t.Text == "nil")) {
				continue
			}
			if !thorough && (i+pi+int(seed))%3 != 0 || strings.Contains(p.Src, "\"strings\"") && i%4 != 0 {
				continue
			}
			add(fmt.Sprintf("%s.%d", p.ID, i), p.Src[:at]+ty+p.Src[at:t.Pos]+"zz"+sy("T")+p.Src[t.End:])
			out[len(out)-1].Files = p.Files
		}
	}
	return out
}
