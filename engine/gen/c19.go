package gen

import "fmt"

// CLIFile and CLI describe one call of the command (see chk.CLICase).
type CLIFile struct {
	Path, Text           string
	Dir, NoRead, NoWrite bool
}

type CLI struct {
	ID, Fam string
	Args    [][]string
	FS      []CLIFile
	Fault   bool
	Cwd     string
}

// C19 lists calls of the command.
func C19(thorough bool, seed int64) []CLI {
	var out []CLI
	fam := ""
	add := func(id string, fs []CLIFile, args ...[]string) *CLI {
		out = append(out, CLI{ID: fam + "/" + id, Fam: fam, Args: args, FS: fs})
		return &out[len(out)-1]
	}
	okText := "import \"strings\"\nimport l \"lib.tsh\"\nprint(\"hi\", l.F(2), strings.Contains(\"abc\", \"b\"))\n"
	fs := []CLIFile{
		{Path: "/w/ok.tsh", Text: okText}, {Path: "/w/lib.tsh", Text: "func F(n int) int {\n\treturn n * 2\n}\n"}, {Path: "/w/a.b.tsh", Text: "print(1)\n"}, {Path: "/w/noext", Text: "x := 1\nprint(x)\n"}, {Path: "/w/with blank.tsh", Text: "print(\"blank\")\n"},
		{Path: "/w/lex.tsh", Text: "print(#)\n"}, {Path: "/w/syn.tsh", Text: "print(1\n"}, {Path: "/w/typ.tsh", Text: "var x int = \"a\"\n"}, {Path: "/w/secret.tsh", Text: "print(2)\n", NoRead: true}, {Path: "/w/empty.tsh", Text: ""}, {Path: "/w/imp.tsh", Text: "import \"nope.tsh\"\n"},
		{Path: "/w/p.sh", Text: "print(3)\n"}, {Path: "/w/p.bat", Text: "print(4)\n"}, {Path: "/w/.tsh", Text: "print(5)\n"}, {Path: "/w/sub/ok.tsh", Text: "print(6)\n"}, {Path: "/w/x.sh.tsh", Text: "print(7)\n"}, {Path: "/w/x.", Text: "print(8)\n"},
		{Path: "/w/out", Dir: true}, {Path: "/w/out2", Dir: true}, {Path: "/w/out/lex.sh", Text: "old contents"}, {Path: "/w/out/typ.sh", Text: "old"}, {Path: "/w/out/a.b.sh", Text: "previous output that is much longer than the new one\n#\n#\n#\n#\n#\n#\n#\n#\n#\n#\n#\n#\n"}, {Path: "/w/out/noext.bat", Text: "old"}, {Path: "/w/out/secret.sh", Text: "old"},
		{Path: "/w/ro", Dir: true, NoWrite: true}, {Path: "/w/blk", Dir: true}, {Path: "/w/blk/ok.sh", Dir: true}, {Path: "/w/blk/a.b.sh", Text: "old", NoWrite: true}, {Path: "/w/d.ir", Dir: true},
	}
	opts := []string{"-i", "--in", "-o", "--out", "-t", "--type", "-x", "", "--i", "-I", "i", "--", "--types"}
	vals := []string{"/w/ok.tsh", "/w/a.b.tsh", "/w/typ.tsh", "/w/out", "/w/ro", "bash", "batch", "", "/w/none", "sh", "Bash"}
	short := []string{"-i", "-o", "-t"}

	fam = "options" // every sequence of options and values
	if !thorough {
		vals = []string{"/w/ok.tsh", "/w/typ.tsh", "/w/out", "bash", "batch", "", "/w/none"}
		opts = []string{"-i", "--in", "-o", "--out", "-t", "--type", "-x", "--types"}
	}
	for n := 0; n <= 5; n++ {
		var l [][]string
		for k := 0; k < n; k++ {
			if k%2 == 0 {
				l = append(l, opts)
			} else {
				l = append(l, vals)
			}
		}
		add(fmt.Sprintf("n%d", n), fs, l...)
	}
	// three and more pairs: split by the first option
	for i, o := range short {
		for j, v := range [][]string{{"/w/ok.tsh", "/w/a.b.tsh"}, {"/w/out", "/w/out2"}, {"bash", "batch"}}[i] {
			add(fmt.Sprintf("n6-%s-%d", o, j), fs, []string{o}, []string{v}, opts, vals, opts, vals)
			add(fmt.Sprintf("n7-%s-%d", o, j), fs, []string{o}, []string{v}, short, vals, short, vals, opts)
			add(fmt.Sprintf("n8-%s-%d", o, j), fs, []string{o}, []string{v}, short, []string{"/w/ok.tsh", "/w/typ.tsh", "/w/out", "bash", "batch"}, short, []string{"/w/ok.tsh", "/w/typ.tsh", "/w/out", "bash", "batch"}, short, []string{"/w/ok.tsh", "/w/typ.tsh", "/w/out", "bash", "batch"})
		}
	}
	if thorough {
		five := []string{"/w/ok.tsh", "/w/out", "bash", "batch"}
		for i, o := range short {
			for j, v := range [][]string{{"/w/ok.tsh", "/w/a.b.tsh"}, {"/w/out", "/w/out2"}, {"bash", "batch"}}[i] {
				add(fmt.Sprintf("n10-%s-%d", o, j), fs, []string{o}, []string{v}, short, five, short, five, short, five, short, five)
			}
		}
	}

	fam = "inputs" // every input, output directory and list of targets in every order
	ins := []string{}
	for _, f := range fs {
		if !f.Dir {
			ins = append(ins, f.Path)
		}
	}
	ins = append(ins, "/w/sub", "/w/ok.tsh/", "/w/./ok.tsh", "/w/sub/../ok.tsh", "//w/ok.tsh", "/w/none.tsh", "/w/d.ir/none")
	outs := []string{"/w/out", "/w/out/", "/w/out2", "/w/ro", "/w/blk", "/w", "/w/sub", "/w/d.ir", "/w/./out", "/w/ok.tsh", "/none"}
	tg := []string{"bash", "batch"}
	add("iot", fs, []string{"-i"}, ins, []string{"-o"}, outs, []string{"-t"}, tg)
	add("toi", fs, []string{"-t"}, tg, []string{"-o"}, outs, []string{"-i"}, ins)
	add("otit", fs, []string{"-o"}, outs, []string{"-t"}, tg, []string{"-i"}, ins, []string{"-t"}, tg)
	add("ttio", fs, []string{"--type"}, tg, []string{"-t"}, tg, []string{"--in"}, ins, []string{"--out"}, outs)
	add("iottt", fs, []string{"-i"}, ins, []string{"-o"}, []string{"/w/out", "/w"}, []string{"-t"}, tg, []string{"-t"}, tg, []string{"-t"}, tg)
	a := add("relative", fs, []string{"-i"}, []string{"ok.tsh", "./ok.tsh", "sub/ok.tsh", "../w/a.b.tsh", ".tsh", "noext", "p.sh", "p.bat", "none.tsh", "with blank.tsh"}, []string{"-o"}, []string{".", "out", "./out2", "../w", "sub", "ro", "", "none", "noext"}, []string{"-t"}, tg, []string{"-t"}, tg)
	a.Cwd = "/w"
	a = add("relative2", fs, []string{"-t"}, tg, []string{"-i"}, []string{"../ok.tsh", "ok.tsh", "./../sub/ok.tsh", "/w/p.sh", "../p.sh"}, []string{"-o"}, []string{".", "..", "../out", "/w/out"}, []string{"-t"}, tg)
	a.Cwd = "/w/sub"

	fam = "contents" // symbolic programs
	for i, t := range []string{"print(\"" + sy("pp") + "\")\n", "x := " + sy("dd") + "\nprint(x)\n", sy("p") + sy("p"), "var x " + alt("int", "string", "bool", "[]int", "nope") + " = " + alt("1", "\"a\"", "true", "[]int{1}", "x") + "\nprint(x)\n", "print(\"a\")" + sy("a") + "\n", "func f() {\n\tprint(\"" + sy("l") + "\")\n}\n" + alt("f()", "g()", "f(", "break", "") + "\n", "import l \"" + alt("lib", "ok1", "non") + ".tsh\"\nl.F()\n", alt("print(1)", "x := 1", "", "}", "@ls()", "var") + "\n"} {
		f2 := []CLIFile{{Path: "/w/ok.tsh", Text: t}, {Path: "/w/lib.tsh", Text: "func F() {\n\tprint(1)\n}\n"}, {Path: "/w/ok1.tsh", Text: "func f() {\n}\n"}, {Path: "/w/out", Dir: true}, {Path: "/w/out/ok.sh", Text: "old"}, {Path: "/w/out/ok.bat", Text: "older"}}
		add(fmt.Sprintf("%d-one", i), f2, []string{"-i"}, []string{"/w/ok.tsh"}, []string{"-o"}, []string{"/w/out"}, []string{"-t"}, tg)
		add(fmt.Sprintf("%d-two", i), f2, []string{"-t"}, tg, []string{"-o"}, []string{"/w/out"}, []string{"-t"}, tg, []string{"-i"}, []string{"/w/ok.tsh"})
		if thorough {
			add(fmt.Sprintf("%d-three", i), f2, []string{"-t"}, tg, []string{"-o"}, []string{"/w/out"}, []string{"-t"}, tg, []string{"-i"}, []string{"/w/ok.tsh"}, []string{"-t"}, tg)
		}
	}

	fam = "faults" // a write fails
	a = add("one", fs, []string{"-i"}, []string{"/w/ok.tsh", "/w/a.b.tsh", "/w/noext"}, []string{"-o"}, []string{"/w/out", "/w/out2", "/w"}, []string{"-t"}, tg)
	a.Fault = true
	a = add("two", fs, []string{"-t"}, tg, []string{"-t"}, tg, []string{"-i"}, []string{"/w/ok.tsh", "/w/a.b.tsh", "/w/typ.tsh"}, []string{"-o"}, []string{"/w/out", "/w"})
	a.Fault = true
	return out
}
