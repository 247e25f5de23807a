package gen

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
)

// C09 enumerates programs over several files.
func C09(thorough bool, seed int64) []Prog {
	b := &B{}
	add := func(id, main string, files map[string]string, hash bool) *Prog {
		p := b.P(id, main)
		p.Files = files
		if hash {
			for _, n := range sortedKeys(files) {
				p.Hash = append(p.Hash, n)
			}
		}
		return p
	}
	imports := importBlock

	b.Fam("hash")
	lib := "g := 8100001\nfunc p(x int) int {\n\tg += x\n\treturn g\n}\nfunc F(x int) int {\n\ty := p(x) + 1\n\treturn y\n}\nfunc S(s string) string {\n\treturn \"<\" + s + \">\"\n}\nprint(\"init\", g)\n"
	add("one", imports(`l "l.tsh"`)+"g := 5\nprint(l.F(8100002), g)\nprint(l.F(1), l.S(\"x\"), g)\n", map[string]string{"l.tsh": lib}, true)
	add("slice", imports(`l "l.tsh"`)+"s := l.Mk(3)\nl.Set(s, 5, \"x\")\nprint(len(s), s[0], s[5], l.Len(s))\n", map[string]string{"l.tsh": "all := []string{}\nfunc Mk(n int) []string {\n\tr := []string{}\n\tfor i := 0; i < n; i++ {\n\t\tr[i] = \"e\" + itoa(i)\n\t}\n\treturn r\n}\nfunc Set(s []string, i int, v string) {\n\ts[i] = v\n\tall[len(all)] = v\n}\nfunc Len(s []string) int {\n\treturn len(s) + len(all)\n}\n"}, true)
	add("two", imports(`l "l.tsh"`, `m "m.tsh"`)+"print(l.F(1), m.F(2), l.F(3))\n", map[string]string{"l.tsh": lib, "m.tsh": strings.ReplaceAll(lib, "8100001", "8100002")}, true)
	add("same", imports(`l "l.tsh"`, `m "m.tsh"`)+"print(l.F(1), m.F(2), l.F(3))\n", map[string]string{"l.tsh": lib, "m.tsh": lib}, true)
	add("nest", imports(`l "l.tsh"`)+"print(l.F(1), l.F(8100002))\n", map[string]string{"l.tsh": imports(`m "m.tsh"`) + "g := m.F(2)\nfunc F(x int) int {\n\treturn m.F(x) + g\n}\n", "m.tsh": lib}, true)
	add("globals", imports(`l "l.tsh"`)+"func get() int {\n\treturn 1\n}\nl.Inc()\nl.Inc()\nprint(l.Get(), get(), l.Name())\n", map[string]string{"l.tsh": "var n int\nvar name string = \"a\"\nvar list []int\nlist[2] = 4\nfor i, v := range list {\n\tn += v + i\n}\nif n > 3 {\n\tlocal := n\n\tname = \"b\" + itoa(local)\n}\nfunc Inc() {\n\tn++\n\tlist[len(list)] = n\n}\nfunc Get() int {\n\treturn n + len(list)\n}\nfunc Name() string {\n\treturn name\n}\n"}, true)
	add("case", imports(`l "l.tsh"`)+"print(l.FAb(), l.FAB())\n", map[string]string{"l.tsh": "aB := 1\nAb := 2\nab := 3\nfunc fAb() int {\n\treturn aB\n}\nfunc FAb() int {\n\treturn fAb()\n}\nfunc FAB() int {\n\treturn Ab + ab\n}\n"}, true)

	b.Fam("paths")
	for i, ps := range [][2]string{{"l.tsh", "./l.tsh"}, {"l.tsh", "x/../l.tsh"}, {"l.tsh", "l.tsh"}, {"x/l.tsh", "x//l.tsh"}, {"x/l.tsh", "./x/./l.tsh"}} {
		f := strings.TrimPrefix(ps[0], "./")
		add(fmt.Sprintf("alias%d", i), imports(`a "`+ps[0]+`"`, `b "`+ps[1]+`"`)+"print(a.F(1), b.F(2), a.F(3))\n", map[string]string{f: lib, "x/other.tsh": ""}, false)
	}
	add("deep", imports(`a "x/a.tsh"`, `b "x/y/b.tsh"`)+"print(a.F(), b.F())\n", map[string]string{"x/a.tsh": imports(`b "y/b.tsh"`, `c "../c.tsh"`) + "func F() int {\n\treturn b.F() + c.F()\n}\n", "x/y/b.tsh": imports(`c "../../c.tsh"`) + "n := 0\nfunc F() int {\n\tn++\n\treturn c.F() * 10 + n\n}\n", "c.tsh": "n := 8100001\nprint(\"c\")\nfunc F() int {\n\tn += 1\n\treturn n\n}\n"}, false)
	add("samebase", imports(`a "x/l.tsh"`, `b "y/l.tsh"`, `c "l.tsh"`)+"print(a.F(1), b.F(2), c.F(3), a.F(4))\n", map[string]string{"x/l.tsh": lib, "y/l.tsh": strings.ReplaceAll(lib, "8100001", "20"), "l.tsh": lib}, false)
	add("ext", imports(`a "l"`, `b "l.txt"`)+"print(a.F(1), b.F(2))\n", map[string]string{"l": lib, "l.txt": strings.ReplaceAll(lib, "8100001", "7")}, false)
	add("blank", imports(`a "my lib/the file.tsh"`)+"print(a.F(1))\n", map[string]string{"my lib/the file.tsh": lib}, false)

	b.Fam("std")
	add("plain", imports(`"strings"`)+"print(strings.Contains(\"abc\", \"bc\"), strings.Repeat(\"ab\", 3))\n", nil, false)
	add("alias", imports(`s "strings"`)+"strings := \"x\"\nprint(s.HasPrefix(\"abc\", \"ab\"), strings)\n", nil, false)
	add("ext", imports(`s "strings.tsh"`)+"print(s.HasPrefix(\"abc\", \"ab\"))\n", nil, false)
	add("both", imports(`"strings"`, `s "strings"`, `l "l.tsh"`)+"print(strings.Index(\"abc\", \"c\"), s.Index(\"abc\", \"b\"), l.F(\"a\"))\n", map[string]string{"l.tsh": imports(`str "strings"`) + "func Index(a string, b string) int {\n\treturn 77\n}\nfunc F(s string) int {\n\treturn str.Index(\"xa\", s) + Index(\"\", \"\")\n}\n"}, false)
	add("shadow", imports(`strings "strings.tsh"`)+"print(strings.Contains(\"abc\", \"x\"))\n", map[string]string{"strings.tsh": "func Contains(a string, b string) bool {\n\treturn true\n}\n"}, false)
	add("names", imports(`"strings"`)+"func Index(a string, b string) int {\n\treturn -5\n}\nfunc HasPrefix(a string, b string) bool {\n\treturn true\n}\ns := \"abcabc\"\nold := \"b\"\nrep := 3\nprint(strings.Replace(s, old, \"x\", -1), Index(s, old), strings.Contains(s, \"q\"), strings.Count(s, old), rep, s)\n", nil, false)
	add("unused", imports(`"strings"`)+"print(\"nothing\")\n", nil, false)
	add("os", imports(`"os"`, `"strings"`)+"print(strings.TrimSpace(\" x \"))\n", nil, false)

	// every DAG over three imported files
	b.Fam("graph")
	edges := [][2]string{{"m", "a"}, {"m", "b"}, {"m", "c"}, {"a", "b"}, {"a", "c"}, {"b", "c"}}
	for mask := 1; mask < 64; mask++ {
		if mask&7 == 0 {
			continue
		}
		src := map[string]string{}
		for k, f := range []string{"c", "b", "a", "m"} {
			var imp []string
			var calls, tops string
			for i, e := range edges {
				if mask>>i&1 == 1 && e[0] == f {
					al := e[1]
					if mask%3 == 1 {
						al = map[string]string{"a": "x", "b": "y", "c": "x2"}[e[1]]
					}
					if mask%3 == 2 { // aliases that mean other files elsewhere
						al = map[string]string{"ma": "b", "mb": "c", "mc": "a", "ab": "c", "ac": "b", "bc": "a"}[e[0]+e[1]]
					}
					imp = append(imp, fmt.Sprintf(`%s "%s.tsh"`, al, e[1]))
					calls += fmt.Sprintf(" + %s.F(x)", al)
					tops += fmt.Sprintf("print(\"%s top\", %s.F(%d))\n", f, al, k+1)
				}
			}
			if mask>>4&1 == 1 {
				sort.Sort(sort.Reverse(sort.StringSlice(imp)))
			}
			body := imports(imp...)
			body += fmt.Sprintf("g := 8100001 + %d\nfunc p(x int) int {\n\tg += x\n\treturn g\n}\nfunc unused() int {\n\treturn p(1)\n}\nfunc F(x int) int {\n\tx += %d\n\treturn p(x)%s\n}\n", k*100, k, calls)
			body += tops
			if f == "m" {
				body += "print(F(2), g)\n"
			} else {
				body += fmt.Sprintf("for i := 0; i < 2; i++ {\n\tprint(\"%s\", p(i))\n}\n", f)
			}
			if f == "a" {
				body += "func Z() {\n\tprint(\"Z\")\n}\n"
			}
			src[f] = body
		}
		files := map[string]string{}
		for _, f := range []string{"a", "b", "c"} {
			files[f+".tsh"] = src[f]
		}
		add(fmt.Sprintf("%02d", mask), src["m"], files, false)
	}

	// which functions are kept
	b.Fam("used")
	uses := map[string]string{
		"stmt": "@f(1)\n", "assign": "x := @f(1)\nprint(x)\n", "opassign": "x := 1\nx += @f(2)\nprint(x)\n", "print": "print(@f(1), 2, @f(3))\n", "arg": "print(@f(@f(1)))\n", "group": "print((@f(1)))\n", "bin": "print(1 + @f(1) * 2)\n", "cmp": "print(@f(1) == 1)\n", "and": "print(@f(1) == 1 && @f(2) == 2)\n", "not": "print(!(@f(1) == 1))\n",
		"if": "if @f(1) == 1 {\n\tprint(\"y\")\n}\n", "elseif": "if false {\n} else if @f(1) > 0 {\n\tprint(\"y\")\n}\n", "body": "if true {\n\t@f(1)\n}\n", "else": "if false {\n} else {\n\tprint(@f(1))\n}\n", "for": "for i := @f(0); i < @f(2); i += @f(1) {\n\tprint(i)\n}\n", "forc": "i := 0\nfor @f(i) < 2 {\n\ti++\n\tprint(i)\n}\n", "forb": "for i := 0; i < 2; i++ {\n\tprint(@f(i))\n}\n",
		"range": "for i, v := range []int{@f(1), 2} {\n\tprint(i, v)\n}\n", "rangeb": "for i, v := range []int{1} {\n\tprint(@f(v))\n}\n", "ranges": "for i, c := range itoa(@f(123)) {\n\tprint(i, c)\n}\n", "switch": "switch @f(1) {\ncase 1:\n\tprint(\"one\")\n}\n", "case": "switch 1 {\ncase @f(1):\n\tprint(\"one\")\n}\n", "caseb": "switch 1 {\ncase 1:\n\tprint(@f(1))\n}\n", "default": "switch 1 {\ncase 2:\n\tprint(2)\ndefault:\n\tprint(@f(1))\n}\n",
		"slice": "s := []int{@f(1), @f(2)}\nprint(s[0], s[1])\n", "index": "s := []int{5, 6, 7}\nprint(s[@f(1)])\n", "setidx": "s := []int{5, 6, 7}\ns[@f(1)] = 9\nprint(s[1])\n", "setval": "s := []int{5, 6, 7}\ns[1] = @f(9)\nprint(s[1])\n", "sub": "s := \"hello\"\nprint(s[@f(1):@f(3)], s[@f(2):], s[:@f(1)])\n", "len": "print(len(itoa(@f(1))))\n", "itoa": "print(itoa(@f(1)) + \"x\")\n", "copy": "d := []int{}\nprint(copy(d, []int{@f(1)}))\n", "panic": "panic(itoa(@f(1)))\n", "write": "write(itoa(@f(1)), itoa(@f(2)), @f(3) == 3)\n", "read": "write(\"1\", \"x\")\nprint(read(itoa(@f(1))), exists(itoa(@f(1))))\n",
		"multi": "a, b := @f(1), @f(2)\na, b = b, @f(3)\nprint(a, b)\n", "var": "var a int = @f(1)\nvar b, c int = @f(2), @f(3)\nprint(a, b, c)\n", "nested": "for i := 0; i < 1; i++ {\n\tif true {\n\t\tswitch i {\n\t\tdefault:\n\t\t\tfor j := 0; j < 1; j++ {\n\t\t\t\tprint(@f(j))\n\t\t\t}\n\t\t}\n\t}\n}\n", "two": "a, b := @g(1)\nprint(a, b)\n", "twoset": "var a int\nvar b string\na, b = @g(1)\nprint(a, b)\n", "multiarg": "@h(@g(1))\n", "printmulti": "print(@g(1))\n",
	}
	defs := "func f0(x int) int {\n\treturn x\n}\nfunc f(x int) int {\n\treturn f0(x)\n}\nfunc g0(x int) (int, string) {\n\treturn x, \"g\"\n}\nfunc g(x int) (int, string) {\n\tn, s := g0(x)\n\treturn n, s\n}\nfunc h(x int) {\n\tprint(\"h\", x)\n}\nfunc dead(x int) int {\n\treturn f(x)\n}\n"
	up := func(s string) string {
		for _, n := range []string{"f", "g", "h"} {
			s = strings.ReplaceAll(s, "@"+n, "l."+strings.ToUpper(n))
		}
		return s
	}
	for _, n := range sortedKeys(uses) {
		u := uses[n]
		if n == "multiarg" { // not part of the language
			u = "@h(@f(3))\n"
		}
		local := strings.ReplaceAll(u, "@", "")
		b.P("top-"+n, defs+local)
		if n != "panic" {
			b.P("fn-"+n, defs+"func run() {\n\t"+strings.ReplaceAll(strings.TrimSpace(local), "\n", "\n\t")+"\n}\nrun()\n")
			b.P("chain-"+n, defs+"func r3() {\n\t"+strings.ReplaceAll(strings.TrimSpace(local), "\n", "\n\t")+"\n}\nfunc r2() {\n\tr3()\n}\nfunc r1() int {\n\tr2()\n\treturn 1\n}\nfunc never() {\n\tr1()\n}\nif r1() == 1 {\n\tprint(\"done\")\n}\n")
		}
		d := defs
		for _, f := range []string{"f", "g", "h"} {
			d = strings.ReplaceAll(d, "func "+f+"(", "func "+strings.ToUpper(f)+"(")
		}
		d = strings.ReplaceAll(d, "return f(x)", "return F(x)")
		add("imp-"+n, imports(`l "l.tsh"`)+up(u), map[string]string{"l.tsh": d}, false)
		// used by the imported file only
		add("lib-"+n, imports(`l "l.tsh"`)+"print(\"main\")\nl.Run()\n", map[string]string{"l.tsh": defs + "func run() {\n\t" + strings.ReplaceAll(strings.TrimSpace(local), "\n", "\n\t") + "\n}\nfunc Run() {\n\trun()\n}\n"}, false)
		add("libtop-"+n, imports(`l "l.tsh"`)+"print(\"main\")\n", map[string]string{"l.tsh": defs + local}, false)
	}
	// functions of the same name in different files, only some of them used
	for mask := 0; mask < 16; mask++ {
		call := func(i int, s string) string {
			if mask>>i&1 == 1 {
				return s
			}
			return ""
		}
		add(fmt.Sprintf("same%02d", mask), imports(`a "a.tsh"`, `b "b.tsh"`)+"func F() {\n\tprint(\"main F\")\n}\n"+call(0, "F()\n")+call(1, "a.F()\n")+call(2, "b.F()\n")+"print(\"end\")\n", map[string]string{
			"a.tsh": "func g() {\n\tprint(\"a g\")\n}\nfunc F() {\n\tprint(\"a F\")\n\tg()\n}\n", "b.tsh": imports(`a "a.tsh"`) + "func g() {\n\tprint(\"b g\")\n" + call(3, "\ta.F()\n") + "}\nfunc F() {\n\tg()\n\tprint(\"b F\")\n}\n"}, false)
	}

	// name clashes across files
	b.Fam("clash")
	for i, n := range []string{"x", "f", "F", "g", "_h0", "i", "s"} {
		v := func(k int) string { return fmt.Sprintf("%s := %d\n", n, k) }
		fn := n
		if n == "f" || n == "F" || n == "g" {
			v = func(k int) string { return "" }
		}
		_ = fn
		add(fmt.Sprintf("var%d", i), imports(`a "a.tsh"`, `b "b.tsh"`)+v(1)+"func loc() int {\n\tv := 10\n\treturn v\n}\nprint(loc(), a.Get(), b.Get())\na.Set(7)\nprint(loc(), a.Get(), b.Get())\n", map[string]string{
			"a.tsh": v(2) + "state := 8100001\nfunc loc() int {\n\tv := state\n\treturn v\n}\nfunc Set(state2 int) {\n\tstate = state2\n}\nfunc Get() int {\n\treturn loc()\n}\n", "b.tsh": v(3) + "state := 8100002\nfunc loc() int {\n\tv := state + 1\n\treturn v\n}\nfunc Set(n int) {\n\tstate = n\n}\nfunc Get() int {\n\treturn loc()\n}\n"}, false)
	}
	add("alias-names", imports(`print2 "a.tsh"`, `f "b.tsh"`, `x "c.tsh"`)+"x := 1\nfunc f() int {\n\treturn 3\n}\nprint(x, f(), print2.F(), f.F(), x.F())\n", map[string]string{"a.tsh": "func F() int {\n\treturn 4\n}\n", "b.tsh": "func F() int {\n\treturn 5\n}\n", "c.tsh": "func F() int {\n\treturn 6\n}\n"}, false)
	add("blocks", imports(`a "a.tsh"`)+"for i := 0; i < 2; i++ {\n\tv := a.F(i)\n\tif v > 1 {\n\t\tw := a.F(v)\n\t\tprint(w)\n\t}\n\tprint(i, v)\n}\n", map[string]string{"a.tsh": "i := 5\nv := 6\nw := 7\nfunc F(n int) int {\n\tfor k := 0; k < 1; k++ {\n\t\tt := n + k\n\t\tn = t + w\n\t}\n\tw++\n\treturn n + i + v\n}\n"}, false)
	add("top", imports(`a "a.tsh"`, `b "b.tsh"`)+"v := 1\nfor i := 0; i < 2; i++ {\n\tprint(\"m\", i, v)\n}\na.P()\nb.P()\nprint(v)\n", map[string]string{
		"a.tsh": "v := 2\nfor i := 0; i < 2; i++ {\n\tprint(\"a\", i, v)\n\tv++\n}\nif v == 4 {\n\tw := v\n\tprint(w)\n}\nfunc P() {\n\tprint(\"a\", v)\n}\n", "b.tsh": imports(`x "a.tsh"`) + "x.P()\nv := 3\nfor i := 0; i < 2; i++ {\n\tprint(\"b\", i, v)\n\tv += 2\n}\nfunc P() {\n\tv++\n\tx.P()\n\tprint(\"b\", v)\n}\nP()\n"}, false)

	// random modules
	b.Fam("rand")
	r := rand.New(rand.NewSource(seed * 991))
	n := 300
	if thorough {
		n = 1000
	}
	fnames := []string{"F", "G", "f", "g", "Inc", "inc", "X"}
	gnames := []string{"n", "m", "N", "f_", "x"}
	for k := 0; k < n; k++ {
		nf := 2 + r.Intn(3)
		type modl struct {
			name string
			pub  []string
		}
		var mods []modl
		files := map[string]string{}
		var main string
		for i := nf; i >= 0; i-- {
			var imp []string
			type target struct{ call string }
			var ts []target
			al := 0
			for _, m := range mods {
				if r.Intn(2) == 0 && !(i == 0 && len(imp) == 0) {
					continue
				}
				times := 1
				if r.Intn(6) == 0 {
					times = 2
				}
				for ; times > 0; times-- {
					a := []string{"l", "a", "b", "F", "n", "z"}[al]
					al++
					if al > 5 {
						al = 5
						break
					}
					imp = append(imp, fmt.Sprintf(`%s "%s"`, a, m.name))
					for _, f := range m.pub {
						ts = append(ts, target{a + "." + f})
					}
				}
			}
			r.Shuffle(len(imp), func(x, y int) { imp[x], imp[y] = imp[y], imp[x] })
			src := imports(imp...)
			var globs []string
			var pub []string
			used := map[string]bool{}
			for j := 0; j < 1+r.Intn(2); j++ {
				g := gnames[r.Intn(len(gnames))]
				if used[g] {
					continue
				}
				used[g] = true
				src += fmt.Sprintf("%s := 8100001 + %d\n", g, r.Intn(100))
				globs = append(globs, g)
			}
			for j := 0; j < 2+r.Intn(3); j++ {
				f := fnames[r.Intn(len(fnames))]
				if used[f] || used["fn"+f] {
					continue
				}
				used["fn"+f] = true
				expr := "v"
				for q := r.Intn(3); q > 0; q-- {
					if len(ts) > 0 && r.Intn(2) == 0 {
						expr += " + " + ts[r.Intn(len(ts))].call + "(v)"
					} else {
						expr += " + " + globs[r.Intn(len(globs))]
					}
				}
				g := globs[r.Intn(len(globs))]
				src += fmt.Sprintf("func %s(v int) int {\n\tloc := %s\n\t%s += loc\n\treturn loc + %d\n}\n", f, expr, g, j)
				ts = append(ts, target{f})
				if f[0] < 'Z' {
					pub = append(pub, f)
				}
			}
			for j := r.Intn(3); j > 0 || i == 0 && j > -3; j-- {
				if len(ts) > 0 {
					src += fmt.Sprintf("print(\"%d\", %s(%d), %s)\n", i, ts[r.Intn(len(ts))].call, r.Intn(5), globs[r.Intn(len(globs))])
				}
			}
			if i == 0 {
				main = src
			} else {
				nm := fmt.Sprintf("f%d.tsh", i)
				files[nm] = src
				mods = append(mods, modl{nm, pub})
			}
		}
		add("", main, files, k%3 == 0 && nf <= 3)
	}
	return b.Out
}

// C09Accept enumerates programs over several files that use private, undefined and public names.
func C09Accept(thorough bool, seed int64) []Accept {
	var out []Accept
	add := func(id, main string, files map[string]string, hash bool) {
		out = append(out, Accept{ID: "reject/" + id, Fam: "reject", Main: main, Files: files, Max: 4000})
	}
	imports := importBlock
	// private and undefined names
	rl := "v := 8100001\nfunc f(x int) int {\n\treturn x + v\n}\nfunc _F(x int) int {\n\treturn f(x)\n}\nfunc fF(x int) int {\n\treturn f(x)\n}\nfunc F(x int) int {\n\treturn fF(x) + _F(x)\n}\n"
	rm := imports(`l "l.tsh"`) + "func g(x int) int {\n\treturn l.F(x)\n}\nfunc G(x int) int {\n\treturn g(x)\n}\n"
	two := map[string]string{"l.tsh": rl, "m.tsh": rm}
	ctxs := map[string]string{
		"stmt": "%s\n", "expr": "print(1 + %s)\n", "if": "if %s == 1 {\n\tprint(1)\n}\n", "fn": "func q() int {\n\treturn %s\n}\nprint(q())\n", "deadfn": "func q() int {\n\treturn %s\n}\nprint(1)\n", "loop": "for i := %s; i < 3; i++ {\n\tprint(i)\n\ti = 5\n}\n", "arg": "print(itoa(%s))\n", "asg": "x := %s\nprint(x)\n", "slice": "x := []int{1, %s}\nprint(x[1])\n",
	}
	names := []string{"l.F(1)", "l.f(1)", "l._F(1)", "l.fF(1)", "l.G(1)", "l.Missing(1)", "m.G(1)", "m.g(1)", "m.F(1)", "m.l(1)", "F(1)", "f(1)", "G(1)", "g(1)", "l(1)", "k.F(1)", "L.F(1)", "main(1)", "l.f0(1)", "v", "l", "m"}
	for _, cn := range sortedKeys(ctxs) {
		{
			n := alt(names...)
			i := 0
			for k, imp := range []string{imports(`l "l.tsh"`, `m "m.tsh"`), imports(`m "m.tsh"`), imports(`l "l.tsh"`)} {
				if k > 0 && cn != "expr" && cn != "deadfn" {
					continue
				}
				add(fmt.Sprintf("main-%s-%02d-%d", cn, i, k), imp+strings.Replace(ctxs[cn], "%s", n, 1), two, false)
			}
		}
	}
	// inside an imported file: names of the importer and of siblings
	for _, cn := range []string{"expr", "deadfn", "fn"} {
		for i, n := range []string{"mf(1)", "Mf(1)", "mv", "a.A(1)", "a.a(1)", "A(1)", "c.C(1)", "c.c(1)", "C(1)", "bf(1)", "b.bf(1)", "b.Bf(1)", "m.Mf(1)"} {
			lib := imports(`c "c.tsh"`) + "bv := 1\nfunc bf(x int) int {\n\treturn x + bv\n}\nfunc Bf(x int) int {\n\treturn bf(x) + c.C(x)\n}\n" + strings.Replace(ctxs[cn], "%s", n, 1)
			add(fmt.Sprintf("lib-%s-%02d", cn, i), imports(`a "a.tsh"`, `b "b.tsh"`)+"mv := 1\nfunc mf(x int) int {\n\treturn x\n}\nfunc Mf(x int) int {\n\treturn mf(x) + mv\n}\nprint(a.A(1), b.Bf(2), Mf(3))\n", map[string]string{
				"a.tsh": "func a(x int) int {\n\treturn x\n}\nfunc A(x int) int {\n\treturn a(x)\n}\n", "b.tsh": lib, "c.tsh": "func c(x int) int {\n\treturn x\n}\nfunc C(x int) int {\n\treturn c(x) + 8100001\n}\n"}, false)
		}
	}
	// calls across files are checked like local ones
	for i, n := range []string{alt("x := l.F()", "x := l.F(1, 2)", "x := l.F(\"a\")", "x := l.F(true)", "x := l.F([]int{1})", "x := l.S(\"a\")", "x := l.S(1)", "x, y := l.F(1)", "x, y := l.T(1)", "x := l.T(1)", "x := l.V(1)", "l.V(1)\nx := 1", "var x string = l.F(1)", "x := l.F(1) + \"a\"", "x := len(l.Sl(1))", "x := len(l.F(1))", "x := l.Arg([]int{1})", "x := l.Arg([]string{})", "x := l.Arg(1)")} {
		add(fmt.Sprintf("types%02d", i), imports(`l "l.tsh"`)+n+"\nprint(x)\n", map[string]string{"l.tsh": "func F(x int) int {\n\treturn x\n}\nfunc S(s string) string {\n\treturn s + \"x\"\n}\nfunc T(x int) (int, string) {\n\treturn x, \"t\"\n}\nfunc V(x int) {\n\tprint(x)\n}\nfunc Sl(x int) []int {\n\tr := []int{x, 1}\n\treturn r\n}\nfunc Arg(a []int) int {\n\treturn len(a)\n}\n"}, false)
	}
	for i, imp := range []string{"import \"l.tsh\"\n", "import l \"missing.tsh\"\n", "import l \"dir\"\n", "import \"nope\"\n", "import (\n\tl \"l.tsh\"\n\tl \"m.tsh\"\n)\n", "import (\n\tl \"l.tsh\"\n\tl \"l.tsh\"\n)\n", "import (\n\t\"strings\"\n\tstrings \"l.tsh\"\n)\n", "import (\n\t\"strings\"\n\t\"strings\"\n)\n", "import l \"dir/l.tsh\"\n", "import l \"L.tsh\"\n", "import l \"../l.tsh\"\n"} {
		add(fmt.Sprintf("import%02d", i), imp+"print(1)\n", map[string]string{"l.tsh": rl, "m.tsh": rm, "dir/x.tsh": rl}, false)
	}
	// an error anywhere in an imported file
	for i, bad := range []string{"x := \"a\" + 1\n", "func F() int {\n}\n", "y = 1\n", "func F() {\n}\nfunc F() {\n}\n", "x := 1\nx := 2\n", "break\n", "return 1\n", "x :=\n", "F2()\n", "if 1 {\n}\n", ""} {
		for k, main := range []string{imports(`b "b.tsh"`) + "print(1)\n", imports(`a "a.tsh"`) + "print(1)\n", imports(`a "a.tsh"`, `b "b.tsh"`) + "print(1)\n"} {
			add(fmt.Sprintf("bad%02d-%d", i, k), main, map[string]string{"a.tsh": imports(`b "b.tsh"`) + "print(2)\n", "b.tsh": "print(3)\n" + bad}, false)
		}
	}

	return out
}

func importBlock(l ...string) string {
	switch len(l) {
	case 0:
		return ""
	case 1:
		return "import " + l[0] + "\n\n"
	}
	return "import (\n\t" + strings.Join(l, "\n\t") + "\n)\n\n"
}
