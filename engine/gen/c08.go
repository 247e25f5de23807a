package gen

import (
	"fmt"
	"math/rand"
	"strings"
)

// c08Alphas are small alphabets of characters that only matter together.
var c08Alphas = []string{"$(){}a", "`ab\\", "\"'$a", "*?[]!~", " \t\n-x", "<>|&;", "%\\nsd", "-neE ", "={},", "$0@#*"}

// c08Sinks are statements on a string variable s (and a second one t).
var c08Sinks = map[string]string{
	"print":    "print(s)\n",
	"print3":   "print(s, t, s)\nprint(\"x\", s)\n",
	"assign":   "u := s\nvar w string = u\nu = t\nprint(w, u)\n",
	"multi":    "a, b := s, t\na, b = b, a\nprint(a, b)\n",
	"concat":   "u := s + t\nu += s\nprint(u)\nprint(\"[\" + s + \"]\")\nprint(s + \"\" + t + \"|\")\n",
	"eq":       "print(s == t, s != t, s == s, s == \"*\", s == \"\", \"-n\" == s)\n",
	"eqcat":    "print(s + t == t + s, s + \"a\" == t + \"a\", \"\" + s == s)\n",
	"if":       "if s == t {\n\tprint(\"eq\", s)\n} else if s == \"!\" {\n\tprint(\"bang\")\n} else {\n\tprint(\"ne\", t)\n}\n",
	"switch":   "switch s {\ncase \"(\":\n\tprint(\"paren\")\ncase t:\n\tprint(\"t\", t)\ncase \"-n\":\n\tprint(\"never\")\ndefault:\n\tprint(\"other\", s)\n}\n",
	"arg":      "func f(a string, b string, c string) {\n\tprint(a)\n\tprint(b)\n\tprint(c)\n}\nf(s, t, s)\nf(s + t, \"\", t)\n",
	"ret":      "func f(a string) string {\n\treturn a\n}\nfunc g(a string, b string) (string, int, string) {\n\treturn b, 1, a + \"x\"\n}\nprint(f(s), f(f(t)))\na, b, c := g(s, t)\nprint(a, b, c)\n",
	"global":   "var g string = \"\"\nfunc set(v string) {\n\tg = v\n\tg += v\n}\nset(s)\nprint(g)\nset(t)\nprint(g, s)\n",
	"slice":    "l := []string{s, t, \"\", s + t}\nprint(len(l), l[0], l[1], l[3])\nl[5] = s\nl[1] = l[0]\nprint(l[5], l[4] == \"\", l[1] == s)\nfor i, v := range l {\n\tprint(i, v)\n}\n",
	"sliceref": "func put(l []string, v string) {\n\tl[len(l)] = v\n}\nfunc get(l []string, i int) string {\n\treturn l[i]\n}\nl := []string{}\nput(l, s)\nput(l, t)\nprint(get(l, 0), get(l, 1), len(l))\nm := l\nm[0] = t\nprint(l[0])\n",
	"copy":     "l := []string{s, t}\nd := []string{}\nn := copy(d, l)\nprint(n, d[0], d[1], d[0] == s)\n",
	"range":    "for i, c := range s {\n\tprint(i, c, c == \"*\")\n}\nfor i, c := range s + t {\n\tprint(\"[\" + c + \"]\")\n}\n",
	"sub":      "print(s + \"abc\")\nu := s + \"abc\"\nprint(u[0], u[1], u[:2])\nprint(u[1:])\nprint(u[0:len(s)] == s)\nv := u[len(s):]\nprint(v)\n",
	"len":      "print(len(s), len(t), len(s + t), len(s + \"é\"))\n",
	"write":    "write(\"f\", s)\nprint(read(\"f\"), exists(\"f\"))\nwrite(\"f\", t, true)\nprint(read(\"f\") == s + \"\\n\" + t)\n",
	"path":     "write(\"p\" + s, t)\nprint(exists(\"p\" + s), read(\"p\" + s))\n",
	"panic":    "print(\"before\")\npanic(s)\n",
	"loop":     "for i := 0; i < 2; i++ {\n\tu := s\n\tif i == 1 {\n\t\tu = t + s\n\t}\n\tprint(u)\n}\nw := s\nfor w != s + \"..\" {\n\tw += \".\"\n\tprint(w)\n}\n",
	"app":      "@argv(s, t)\no, e, c := @say(s, t)\nprint(o, c)\n@say(s) | @wrap(t, \"\\n\")\n",
	"bool":     "b := s == t\nc := !(s == \"\") && b\nprint(b, c, !b)\nfor s != t && c {\n\tbreak\n}\n",
	"nested":   "func f(a string) string {\n\tif a == \"\" {\n\t\treturn \"empty\"\n\t}\n\tfor i, c := range a {\n\t\tif c == \" \" {\n\t\t\treturn a[i:]\n\t\t}\n\t}\n\treturn a + a\n}\nprint(f(s), f(t))\nprint(f(f(s)))\n",
}

// c08Sources define the variables s and t from the symbolic strings.
var c08Sources = map[string]func(p *Prog, n string, class string) string{
	"lit": func(p *Prog, n, class string) string {
		p.Strs = map[string][3]string{"SSA": {"0", n, class}, "SSB": {"0", "1", class}}
		return "s := \"SSA\"\nt := \"SSB\"\n"
	},
	"input": func(p *Prog, n, class string) string {
		p.Stdin = &[3]string{"0", n, class}
		return "s := input()\nt := input()\n"
	},
	"prompt": func(p *Prog, n, class string) string {
		p.Stdin = &[3]string{"0", n, class}
		p.Strs = map[string][3]string{"SSB": {"0", "1", class}}
		return "t := \"SSB\"\nvar s string\ns = input(\"name? \" + t)\n"
	},
	"file": func(p *Prog, n, class string) string {
		p.Pre = map[string][3]string{"a": {"0", n, class}, "b c": {"0", "1", class}}
		return "var s string = read(\"a\")\nt := read(\"b c\")\n"
	},
	"litprompt": func(p *Prog, n, class string) string {
		p.Stdin = &[3]string{"0", "1", class}
		p.Strs = map[string][3]string{"SSB": {"0", n, class}}
		return "t := \"SSB\"\ns := input(\"SSB\")\n"
	},
	"app": func(p *Prog, n, class string) string {
		p.Strs = map[string][3]string{"SSA": {"0", n, class}, "SSB": {"0", "1", class}}
		return "s, e0, c0 := @say(\"SSA\")\nt, e1, c1 := @sayln(\"SSB\")\n"
	},
}

// C08 enumerates the ways of a string through a program.
func C08(thorough bool, seed int64) []Prog {
	b := &B{}
	local := func(src string) bool { return !strings.Contains(src, "func ") }
	wrapFn := func(body string) string {
		return "func run() {\n\t" + strings.ReplaceAll(strings.TrimSpace(body), "\n", "\n\t") + "\n}\nrun()\n"
	}
	wrapParam := func(src, sink string) string {
		return "func run(s string, t string) {\n\t" + strings.ReplaceAll(strings.TrimSpace(sink), "\n", "\n\t") + "\n}\n" + src + "run(s, t)\n"
	}
	num := map[string]string{"lit": "2", "input": "3", "prompt": "2", "file": "3", "app": "2", "litprompt": "2"}
	heavy := map[string]bool{"switch": true, "if": true, "range": true, "nested": true, "eq": true, "eqcat": true, "path": true}
	for _, so := range sortedKeys(c08Sources) {
		b.Fam(so)
		for _, si := range sortedKeys(c08Sinks) {
			sink := c08Sinks[si]
			n := num[so]
			if heavy[si] && !thorough {
				n = "2"
			}
			if si == "path" {
				// no separators or parent directories in names
				p := b.P("path", "")
				p.Src = c08Sources[so](p, "1", "name") + sink
				continue
			}
			p := b.P(si, "")
			p.Src = c08Sources[so](p, n, "text") + sink
			if local(sink) {
				p := b.P(si+"-fn", "")
				p.Src = wrapFn(c08Sources[so](p, "1", "text") + sink)
				if so == "lit" || thorough {
					p = b.P(si+"-param", "")
					p.Src = wrapParam(c08Sources[so](p, "1", "text"), sink)
				}
			}
		}
	}
	// longer values over small alphabets
	b.Fam("alpha")
	long := []string{"print", "concat", "arg", "slice", "write", "ret", "eq", "app", "sub", "len"}
	for i, al := range c08Alphas {
		for j, si := range long {
			for k, so := range sortedKeys(c08Sources) {
				if !thorough && (i+j+k)%len(c08Sources) != 0 {
					continue
				}
				n := "4"
				if so == "lit" || so == "app" || so == "litprompt" || si == "eq" {
					n = "3"
				}
				if thorough && si != "eq" {
					n = "5"
				}
				p := b.P(fmt.Sprintf("%d-%s-%s", i, so, si), "")
				p.Src = c08Sources[so](p, n, "alpha:"+al) + c08Sinks[si]
			}
		}
	}
	// fixed values that need a certain length
	b.Fam("fixed")
	vals := []string{"$(echo pwned)", "`echo pwned`", "${HOME}", "$((1+1))", "$x", "\\\\$x", "a\\\"b", "\\\"; echo x; \\\"", "'; echo x; '", "-e \\\\n", "--", "{1..3}", "[[:alpha:]]*", "!!", "a\\\\", "\\\\\\\\", "$'\\\\n'", "$_h0", "${_h0}", "${v_s}", "$1", "$@", "*", "   ", "  a   b  ", "a\\n\\nb\\n", "\\n", "\\t\\t", "%s%d%n", "~root", "((", "))", "[ -z x ]", "# no comment", "x # y", "a=b", "<(ls)", ">&2", "|| true", "&& false", "é", "日本", "\\x41", "EOF", "-", "=", "!", "(", ")", "-a", "-o", "! -e", "-z"}
	for i, v := range vals {
		for j, si := range sortedKeys(c08Sinks) {
			if si == "path" {
				continue
			}
			if !thorough && (i+j)%4 != 0 {
				continue
			}
			w := vals[(i*5+3)%len(vals)]
			b.P(fmt.Sprintf("%02d-%s", i, si), "s := \""+v+"\"\nt := \""+w+"\"\n"+c08Sinks[si])
		}
		p := b.P(fmt.Sprintf("%02d-all", i), "s := \""+v+"\"\nl := []string{s, \""+v+"\", s + s}\nfunc id(a string) string {\n\treturn a\n}\nif s == id(l[1]) && s + \""+v+"\" == l[2] {\n\tprint(\"same\", s)\n}\nwrite(\"o\", id(s))\nprint(read(\"o\"), len(s), l[2])\nprint(\""+v+"\", id(\""+v+"\"))\n")
		_ = p
	}
	// raw literals
	for i, v := range []string{"a\"b", "$(x)", "a\\b", "\\", "\"", "a\nb", "'", "$x ${y}", "\\n", "\\\"", "  ", "*"} {
		b.P(fmt.Sprintf("raw%02d", i), "s := `"+v+"`\nprint(s, len(s), s == `"+v+"`)\nl := []string{s, `"+v+"`}\nprint(l[1], l[0] == l[1])\nwrite(\"f\", `"+v+"`)\n@argv(`"+v+"`)\n")
	}
	// values that pass through several stations
	b.Fam("path")
	r := rand.New(rand.NewSource(seed * 31))
	n := 60
	if thorough {
		n = 800
	}
	stations := []func(v, w string) (string, string){
		func(v, w string) (string, string) { return w + " := " + v + "\n", w },
		func(v, w string) (string, string) { return w + " := id(" + v + ")\n", w },
		func(v, w string) (string, string) { return w + " := " + v + " + \"\"\n", w },
		func(v, w string) (string, string) {
			return "l" + w + " := []string{\"x\", " + v + "}\n" + w + " := l" + w + "[1]\n", w
		},
		func(v, w string) (string, string) { return "g = " + v + "\n" + w + " := g\n", w },
		func(v, w string) (string, string) {
			return "write(\"" + w + "\", " + v + ")\n" + w + " := read(\"" + w + "\")\n", w
		},
		func(v, w string) (string, string) { return "x" + w + ", " + w + " := two(" + v + ")\n", w },
		func(v, w string) (string, string) {
			return w + ", e" + w + ", c" + w + " := @say(" + v + ", \"\\n\")\n", w
		},
		func(v, w string) (string, string) {
			return w + " := \"\"\nfor i, c := range " + v + " {\n\t" + w + " += c\n}\n", w
		},
		func(v, w string) (string, string) {
			return "q" + w + " := \"k\" + " + v + "\n" + w + " := q" + w + "[1:]\n", w
		},
		func(v, w string) (string, string) {
			return "l" + w + " := []string{}\nput(l" + w + ", " + v + ")\n" + w + " := l" + w + "[0]\n", w
		},
		func(v, w string) (string, string) {
			return "var " + w + " string\nif " + v + " == \"SSA\" {\n\t" + w + " = " + v + "\n} else {\n\t" + w + " = \"different\"\n}\n", w
		},
		func(v, w string) (string, string) {
			return "d" + w + " := []string{}\ncopy(d" + w + ", []string{" + v + "})\n" + w + " := d" + w + "[0]\n", w
		},
	}
	for k := 0; k < n; k++ {
		src := "var g string = \"\"\nfunc id(a string) string {\n\treturn a\n}\nfunc two(a string) (int, string) {\n\treturn 1, a\n}\nfunc put(l []string, a string) {\n\tl[len(l)] = a\n}\n"
		v := "\"SSA\""
		body := ""
		for i := 0; i < 5; i++ {
			s, w := stations[r.Intn(len(stations))](v, fmt.Sprintf("w%d", i))
			body += s
			v = w
		}
		body += "print(" + v + " == \"SSA\", len(" + v + "))\nprint(" + v + ")\n"
		if k%3 == 1 && !strings.Contains(body, "copy") {
			body = wrapFn(body)
		}
		p := b.P("", src+body)
		p.Strs = map[string][3]string{"SSA": {"0", "2", "text"}}
		if k%2 == 1 {
			p.Strs = map[string][3]string{"SSA": {"3", "3", "alpha:" + c08Alphas[k%len(c08Alphas)]}}
		}
	}
	return b.Out
}

// C17 enumerates programs on files.
func C17(thorough bool, seed int64) []Prog {
	b := &B{}
	fn := func(body string) string {
		return "func run() {\n\t" + strings.ReplaceAll(strings.TrimSpace(body), "\n", "\n\t") + "\n}\nrun()\n"
	}
	type spec = map[string][3]string
	add := func(id, body string, strs, pre spec) {
		for _, v := range []string{"", "-fn"} {
			src := body
			if v == "-fn" {
				if strings.Contains(body, "func ") {
					continue
				}
				src = fn(body)
			}
			p := b.P(id+v, src)
			p.Strs, p.Pre = strs, pre
		}
	}
	cont := func(n int) [3]string { return [3]string{"0", fmt.Sprint(n), "text"} }
	name := [3]string{"1", "2", "name"}

	b.Fam("content")
	add("wr", "write(\"f\", \"SSA\")\nprint(read(\"f\"))\nprint(read(\"f\") == \"SSA\", len(read(\"f\")))\n", spec{"SSA": cont(3)}, nil)
	add("app", "write(\"f\", \"SSA\")\nwrite(\"f\", \"SSB\", true)\nprint(read(\"f\") == \"SSA\" + \"\\n\" + \"SSB\")\nprint(read(\"f\"))\n", spec{"SSA": cont(2), "SSB": cont(2)}, nil)
	add("over", "write(\"f\", \"SSA\")\nwrite(\"f\", \"SSB\")\nprint(read(\"f\") == \"SSB\")\nwrite(\"f\", \"\")\nprint(len(read(\"f\")))\n", spec{"SSA": cont(2), "SSB": cont(2)}, nil)
	add("appnew", "write(\"f\", \"SSA\", true)\nprint(read(\"f\"), exists(\"f\"))\n", spec{"SSA": cont(2)}, nil)
	add("flag", "b := 8300001 == 1\nwrite(\"f\", \"a\", b)\nwrite(\"f\", \"SSA\", b)\nwrite(\"f\", \"c\", !b)\nprint(read(\"f\"))\n", spec{"SSA": cont(1)}, nil)
	add("false", "write(\"f\", \"SSA\", false)\nwrite(\"f\", \"b\", false)\nwrite(\"f\", \"SSA\", 1 == 1)\nprint(read(\"f\"))\nwrite(\"f\", \"z\", len(\"SSA\") > 1 && true)\nprint(read(\"f\"))\n", spec{"SSA": cont(2)}, nil)
	add("many", "for i := 0; i < 4; i++ {\n\twrite(\"f\", itoa(i) + \"SSA\", i > 8200001)\n}\nprint(read(\"f\"))\n", spec{"SSA": cont(1)}, nil)
	add("self", "write(\"f\", \"SSA\")\nwrite(\"f\", read(\"f\") + \"x\")\nprint(read(\"f\"))\nwrite(\"f\", read(\"f\"), true)\nprint(read(\"f\"))\n", spec{"SSA": cont(2)}, nil)
	add("two", "write(\"a\", \"SSA\")\nwrite(\"b\", \"SSB\")\nwrite(\"a\", read(\"b\"), true)\nwrite(\"b\", read(\"a\"))\nprint(read(\"a\") == read(\"b\"))\nprint(read(\"b\"))\n", spec{"SSA": cont(1), "SSB": cont(2)}, nil)
	for i, al := range c08Alphas {
		add(fmt.Sprintf("alpha%d", i), "s := \"SSA\"\nwrite(\"f\", s)\nwrite(\"f\", s, true)\nr := read(\"f\")\nprint(r, r == s + \"\\n\" + s)\n", spec{"SSA": {"3", "4", "alpha:" + al}}, nil)
	}
	add("expr", "write(\"f\", \"SSA\" + \"SSB\")\ns := read(\"f\") + \"!\"\nprint(s, len(read(\"f\")), read(\"f\") == \"SSA\")\nfor i, c := range read(\"f\") {\n\tprint(i, c)\n}\n", spec{"SSA": cont(1), "SSB": cont(1)}, nil)
	add("cond", "write(\"f\", \"SSA\")\nif read(\"f\") == \"x\" || exists(\"SSA\" + \"f\") {\n\tprint(\"yes\")\n} else {\n\tprint(\"no\")\n}\nfor !exists(\"g\") {\n\twrite(\"g\", \"1\")\n\tprint(\"loop\")\n}\n", spec{"SSA": {"0", "1", "name"}}, nil)

	b.Fam("pre")
	add("read", "s := read(\"data\")\nprint(s, len(s))\nprint(s + \"|\")\n", nil, spec{"data": cont(4)})
	add("append", "write(\"data\", \"SSA\", true)\nprint(read(\"data\"))\n", spec{"SSA": cont(1)}, spec{"data": cont(3)})
	add("nothing", "print(read(\"data\") == \"x\", exists(\"data\"), exists(\"other\"))\nwrite(\"other\", read(\"data\"))\n", nil, spec{"data": cont(3), "other.txt": cont(1)})
	add("copy", "write(\"copy\", read(\"data\"))\nprint(read(\"copy\") == read(\"data\"))\n", nil, spec{"data": cont(3)})
	add("exists", "print(exists(\"data\"), exists(\"dat\"), exists(\"data2\"), exists(\"dat\" + \"a\"), exists(\"\"), exists(\"d\"), exists(\"d/data\"), exists(\"d/none\"), exists(\".\"), exists(\"none/x\"))\nif exists(\"data\") && !exists(\"x\") {\n\tprint(\"ok\")\n}\n", nil, spec{"data": cont(1), "d/data": cont(0)})
	add("empty", "print(exists(\"e\"), \"[\" + read(\"e\") + \"]\", len(read(\"e\")))\nwrite(\"e\", \"\", true)\nprint(len(read(\"e\")))\n", nil, spec{"e": {"0", "0", "text"}})
	add("dir", "print(exists(\"d\"))\nwrite(\"d/new\", \"SSA\")\nprint(read(\"d/new\"), exists(\"d/new\"), exists(\"new\"))\nwrite(\"d/old\", \"SSA\", true)\nprint(read(\"d/old\"))\n", spec{"SSA": cont(1)}, spec{"d/old": cont(1)})

	b.Fam("path")
	add("sym", "write(\"SSA\", \"SSB\")\nprint(exists(\"SSA\"), read(\"SSA\") == \"SSB\")\nprint(exists(\"SSA\" + \"x\"))\n", spec{"SSA": name, "SSB": cont(1)}, nil)
	add("app", "write(\"SSA\", \"SSB\")\nwrite(\"SSA\", \"SSB\", true)\nprint(read(\"SSA\"))\n", spec{"SSA": name, "SSB": {"0", "1", "text"}}, nil)
	add("two", "write(\"SSA\", \"1\")\nwrite(\"SSB\", \"2\")\nprint(read(\"SSA\"), read(\"SSB\"), exists(\"SSA\" + \"SSB\"))\n", spec{"SSA": {"1", "1", "name"}, "SSB": {"1", "1", "name"}}, nil)
	add("other", "write(\"SSA\", \"new\", 8300001 == 1)\nprint(exists(\"a\"), exists(\"b\"), exists(\"SSA\"))\n", spec{"SSA": {"1", "2", "name"}}, spec{"a": cont(1), "b": cont(1)})
	add("exists", "print(exists(\"SSA\"))\nif exists(\"SSA\") {\n\tprint(read(\"SSA\"))\n}\n", spec{"SSA": {"1", "2", "name"}}, spec{"a": cont(1), "-e": cont(1), "=": {"1", "1", "text"}, "(": {"1", "1", "text"}, "!": {"1", "1", "text"}})
	add("var", "p := \"SSA\"\nq := p + \".txt\"\nwrite(q, p)\nprint(read(q), exists(p), exists(q))\nl := []string{q}\nprint(read(l[0]), exists(l[0]))\n", spec{"SSA": name}, nil)
	for i, al := range []string{"$(){}a", "`ab\\", "\"'$a", "*?[]!~", " \t\n-x", "<>|&;", "-neE ", "={},"} {
		add(fmt.Sprintf("alpha%d", i), "p := \"SSA\"\nwrite(p, \"1\")\nwrite(p, \"2\", true)\nprint(exists(p), read(p))\n", spec{"SSA": {"3", "3", "alpha:" + al}}, nil)
	}
	for i, n := range []string{"a b", "  x  ", "-n", "--", "-", "$HOME", "$(x)", "`x`", "*", "?", "[ab]", "a'b", "a\\\"b", "a\\\\b", "a;b", "a&b", "a|b", ">x", "<x", "(", "!", "=", "~", "#", "{a,b}", "x\\ny", "\\t", "./f", "d/../f", "d/./x y", "é", "-e", "-z", "a.b.c", ".hidden", "%s"} {
		add(fmt.Sprintf("lit%02d", i), "write(\""+n+"\", \"one\")\nprint(exists(\""+n+"\"), read(\""+n+"\"))\np := \""+n+"\"\nwrite(p, \"two\", true)\nprint(read(p), exists(p))\nprint(exists(\"one\"), exists(\"two\"))\n", nil, spec{"d/x": {"0", "0", "text"}})
	}

	b.Fam("func")
	b.P("params", "func save(p string, s string, a bool) {\n\twrite(p, s, a)\n}\nfunc load(p string) string {\n\treturn read(p)\n}\nfunc has(p string) bool {\n\treturn exists(p)\n}\nprint(has(\"SSA\"))\nsave(\"SSA\", \"SSB\", 8300001 == 1)\nsave(\"SSA\", \"x\", true)\nprint(load(\"SSA\"), has(\"SSA\"))\nsave(\"SSA\", load(\"SSA\"), false)\nprint(load(\"SSA\"))\n").Strs = spec{"SSA": name, "SSB": cont(1)}
	b.P("order", "func p(s string) string {\n\tprint(\"eval\", s)\n\treturn s\n}\nfunc t() bool {\n\tprint(\"flag\")\n\treturn true\n}\nwrite(p(\"f\"), p(\"SSA\"), t())\nwrite(p(\"f\"), p(read(p(\"f\"))), t())\nprint(exists(p(\"f\")), read(p(\"f\")))\n").Strs = spec{"SSA": cont(2)}
	b.P("locals", "f := \"top\"\nfunc g() {\n\tp := \"inner\"\n\twrite(p, f)\n\tfor i := 0; i < 2; i++ {\n\t\twrite(p, \"SSA\", i == 8200001)\n\t\ts := read(p)\n\t\tprint(s, i)\n\t}\n}\ng()\nprint(read(\"inner\"), exists(f))\n").Strs = spec{"SSA": cont(2)}
	b.P("global", "var log string = \"log file\"\nfunc out(s string) {\n\twrite(log, s, true)\n}\nout(\"SSA\")\nout(\"SSB\")\nlog = \"second\"\nout(\"SSA\")\nprint(read(\"log file\"), read(log))\n").Strs = spec{"SSA": cont(1), "SSB": cont(1)}

	// random histories over three paths
	b.Fam("rand")
	r := rand.New(rand.NewSource(seed * 57))
	n := 60
	if thorough {
		n = 900
	}
	for k := 0; k < n; k++ {
		paths := []string{`"a"`, `"b c"`, `"SSP"`}
		vals := []string{`"SSA"`, `"SSB"`, `""`, `"x\ny"`}
		known := []string{}
		infn := r.Intn(3) == 0
		var sb strings.Builder
		for i := 0; i < 6+r.Intn(4); i++ {
			p := paths[r.Intn(len(paths))]
			v := vals[r.Intn(len(vals))]
			switch x := r.Intn(8); {
			case x < 3:
				sb.WriteString("write(" + p + ", " + v + ")\n")
				known = append(known, p)
			case x < 5:
				sb.WriteString("write(" + p + ", " + v + ", true)\n")
				known = append(known, p)
			case x == 5:
				sb.WriteString("print(exists(" + p + "))\n")
			case x == 6 && len(known) > 0:
				q := known[r.Intn(len(known))]
				sb.WriteString("print(read(" + q + "))\n")
			case len(known) > 0:
				q := known[r.Intn(len(known))]
				w := fmt.Sprintf("v%d", i)
				sb.WriteString(w + " := read(" + q + ")\n")
				vals = append(vals, w)
			}
		}
		for _, q := range known {
			sb.WriteString("print(read(" + q + "))\n")
		}
		src := sb.String()
		if infn {
			src = fn(src)
		}
		p := b.P("", src)
		p.Strs = spec{"SSA": {"0", "1", "text"}, "SSB": {"0", "1", "text"}, "SSP": {"1", "1", "name"}}
		if r.Intn(2) == 0 {
			p.Pre = spec{"a": {"0", "1", "text"}}
		}
	}
	return b.Out
}
