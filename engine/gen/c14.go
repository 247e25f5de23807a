package gen

import (
	"fmt"
	"sort"
	"strings"
)

// PureProg, Place and Pure mirror chk.PureCase.
type PureProg struct {
	Files map[string]string
	Order []string
}

type Place struct {
	Root, Cwd, Arg, Main, Exe string
	Extra                     map[string]string
}

type Pure struct {
	ID, Fam string
	Progs   []PureProg
	Steps   int
	Places  []Place
	Maps    int
	Max     int
}

func pureProg(main string, files map[string]string) PureProg {
	p := PureProg{Files: map[string]string{"main.tsh": main}}
	for n, s := range files {
		p.Files[n] = s
	}
	for n := range p.Files {
		p.Order = append(p.Order, n)
	}
	sort.Strings(p.Order)
	return p
}

// C14 lists purity cases.
func C14(thorough bool, seed int64) []Pure {
	var out []Pure
	corpus := map[string]PureProg{}
	var names []string
	for _, p := range append(Corpus(), Rejected()...) {
		corpus[p.ID] = pureProg(p.Src, p.Files)
		names = append(names, p.ID)
	}
	lib := map[string]string{"l.tsh": "n := 1\nfunc F(a int) int {\n\treturn a + n\n}\nfunc G() {\n\tprint(\"G\")\n}\n"}
	lib2 := map[string]string{"l.tsh": "n := 5\nfunc F(a int) int {\n\treturn a * n\n}\nfunc G() {\n\tF(1)\n}\n"}
	mainL := "import l \"l.tsh\"\nl.G()\nprint(l.F(2))\n"
	many := pureProg("import (\n\ta \"x/a.tsh\"\n\tb \"x/b.tsh\"\n\tc \"x/c.tsh\"\n\t\"strings\"\n)\nfunc f1() {\n\ta.A()\n\tb.B()\n}\nfunc f2() {\n\tf1()\n\tc.C()\n}\nfunc f3() {\n\tf2()\n}\nfunc un() {\n\tf3()\n}\nv := 1\nw := \"w\"\nx := []int{1}\nf3()\nif v == 1 {\n\ty := 2\n\tfor i := 0; i < y; i++ {\n\t\tprint(i, strings.ToUpper(w), len(x))\n\t}\n}\n", map[string]string{
		"x/a.tsh": "import (\n\tb \"b.tsh\"\n\td \"d.tsh\"\n)\ng := 1\nfunc A() {\n\tb.B()\n\td.D(g)\n}\nfunc A2() {\n\tA()\n}\nA()\n", "x/b.tsh": "import d \"d.tsh\"\nfunc b() {\n\td.D(2)\n}\nfunc B() {\n\tb()\n}\nfunc B2() {\n\tB()\n}\n",
		"x/c.tsh": "import (\n\tx \"a.tsh\"\n\ty \"d.tsh\"\n)\nh := \"c\"\nfunc C() {\n\tx.A()\n\tx.A2()\n\ty.D(3)\n\tprint(h)\n}\n", "x/d.tsh": "func D(n int) {\n\tprint(n)\n}\nfunc Dead() {\n\tD(0)\n}\n"})
	symb := pureProg("import l \"l.tsh\"\nx := "+sy("d")+"\nprint(\""+sy("l")+"\", x, l.F("+sy("d")+"))\n", map[string]string{"l.tsh": "func F(n int) int {\n\treturn n + " + sy("d") + "\n}\n"})
	symb2 := pureProg("x := \""+sy("p")+"\"\nfunc f() string {\n\treturn x + \""+sy("l")+"\"\n}\nfor i, c := range f() {\n\tprint(i, c[0])\n}\n", nil)

	names2 := names
	// histories over sets of programs
	hist := func(id string, steps int, ps ...PureProg) *Pure {
		out = append(out, Pure{ID: "histories/" + id, Fam: "histories", Progs: ps, Steps: steps})
		return &out[len(out)-1]
	}
	c := func(n string) PureProg {
		p, ok := corpus[n]
		if !ok {
			panic("no corpus program " + n)
		}
		return p
	}
	L := 3
	hist("libs", L, pureProg(mainL, lib), pureProg(mainL, lib2), pureProg("import l \"l.tsh\"\nl.G()\n", lib), pureProg("print(1)\n", nil))
	hist("calls", L, c("corpus/funcs"), c("corpus/funcs2"), c("corpus/apps"))
	hist("loops", L, c("corpus/for"), c("corpus/range"), c("corpus/switch"))
	hist("data", L, c("corpus/slices"), c("corpus/substr"), c("corpus/builtins"))
	hist("errors", L, pureProg("x := 1\nprint(x\n", nil), pureProg("func f() {\n\tprint(1)\n}\nf()\nprint(y)\n", nil), pureProg("func f() {\n\tprint(1)\n}\nf()\nx := 1\n", nil), pureProg("import l \"l.tsh\"\nl.F()\n", map[string]string{"l.tsh": "func F() {\nbreak\n}\n"}))
	hist("many", 2, many, c("corpus/import"), c("corpus/std"))
	hist("symbolic", 2, symb, symb2)
	hist("symbolic2", 2, symb2, pureProg(mainL, lib))
	hist("long", 5, pureProg("s := []int{1}\ns[0] = 2\nprint(s[0], len(\"a\"))\n", nil)).Max = 4000
	for i := 0; i+1 < len(names2); i++ {
		j := (i*7 + 3 + int(seed)) % len(names2)
		if j == i {
			j = (j + 1) % len(names2)
		}
		if !thorough && i%2 == 0 {
			continue
		}
		h := hist(fmt.Sprintf("pair%d-%d", i, j), 2, c(names2[i]), c(names2[j]))
		if thorough {
			h.Steps = 3
		}
	}
	if thorough {
		hist("libs4", 4, pureProg(mainL, lib), pureProg(mainL, lib2), c("corpus/funcs"))
		hist("mix4", 4, c("corpus/slices"), c("corpus/for"), c("corpus/funcs2"))
		hist("many3", 3, many, c("corpus/import"), c("corpus/std"), symb2)
	}

	// relocated copies
	places := []Place{
		{Root: "/a", Cwd: "/a", Arg: "/a/main.tsh"}, {Root: "/deep/er/dir", Cwd: "/", Arg: "deep/er/dir/main.tsh"}, {Root: "/with blank/x", Cwd: "/with blank", Arg: "x/main.tsh"}, {Root: "/work", Cwd: "/work", Arg: "main.tsh"}, {Root: "/work", Cwd: "/work", Arg: "./main.tsh"},
		{Root: "/work", Cwd: "/work/sub", Arg: "../main.tsh"}, {Root: "/work", Cwd: "/tmp", Arg: "/work/../work/main.tsh"}, {Root: "/x.tsh", Cwd: "/x.tsh", Arg: "main.tsh"}, {Root: "/work", Cwd: "/work", Arg: "/work/other name.tsh", Main: "other name.tsh"}, {Root: "/work", Cwd: "/work", Arg: "/work/noext", Main: "noext"},
		{Root: "/work", Cwd: "/work", Arg: "/work/main.tsh", Exe: "/usr/local/bin/tsh"}, {Root: "/std", Cwd: "/std", Arg: "/std/main.tsh"}, {Root: "/0123abc", Cwd: "/0123abc", Arg: "main.tsh", Exe: "/0123abc/bin/tsh"},
		{Root: "/work", Cwd: "/work", Arg: "/work/main.tsh", Extra: map[string]string{"/work/z.tsh": "print(9)\n", "/work/std/none.tsh": "print(1)\n", "/work/main.sh": "old"}},
		{Root: "/a/b", Cwd: "/a", Arg: "b/../b//main.tsh"},
	}
	for i := range places {
		if places[i].Main == "" {
			places[i].Main = "main.tsh"
		}
		if places[i].Exe == "" {
			places[i].Exe = "/opt/tsh/tsh"
		}
	}
	for i, n := range names {
		if !thorough && i%3 == 1 && !strings.Contains(n, "import") {
			continue
		}
		out = append(out, Pure{ID: "places/" + n, Fam: "places", Progs: []PureProg{c(n)}, Places: places})
	}
	out = append(out, Pure{ID: "places/many", Fam: "places", Progs: []PureProg{many}, Places: places})
	out = append(out, Pure{ID: "places/symbolic", Fam: "places", Progs: []PureProg{symb}, Places: places})
	out = append(out, Pure{ID: "places/history", Fam: "places", Progs: []PureProg{pureProg(mainL, lib), pureProg(mainL, lib2)}, Places: places[:6], Steps: 2})

	// iteration orders
	for i, n := range names {
		for mode := 1; mode <= 2; mode++ {
			if !thorough && mode == 2 && i%3 != 0 {
				continue
			}
			mx := 1500
			if thorough {
				mx = 20000
			}
			out = append(out, Pure{ID: fmt.Sprintf("orders/%s-%d", n, mode), Fam: "orders", Progs: []PureProg{c(n)}, Maps: mode, Max: mx})
		}
	}
	for mode := 1; mode <= 2; mode++ {
		out = append(out, Pure{ID: fmt.Sprintf("orders/many-%d", mode), Fam: "orders", Progs: []PureProg{many}, Maps: mode, Max: 20000})
		out = append(out, Pure{ID: fmt.Sprintf("orders/libs-%d", mode), Fam: "orders", Progs: []PureProg{pureProg(mainL, lib), pureProg(mainL, lib2)}, Maps: mode, Max: 20000})
	}
	return out
}
