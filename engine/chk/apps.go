package chk

import (
	"os"
	"path/filepath"
	"strconv"

	"verif/bashsym"
	"verif/sym"
)

// app is one of the commands installed for the programs of C08 and C18.
type app struct {
	run func(p *sym.Path, args []sym.Str, stdin sym.Str) (sym.Str, int)
	sh  string // the command itself
}

func arg(args []sym.Str, i int) sym.Str {
	if i < len(args) {
		return args[i]
	}
	return nil
}

var apps = map[string]app{
	// argv prints the number of its arguments and every argument.
	"argv": {func(p *sym.Path, a []sym.Str, in sym.Str) (sym.Str, int) {
		o := sym.Lit(strconv.Itoa(len(a)) + "\n")
		for _, x := range a {
			o = sym.Cat(o, sym.Lit("["), x, sym.Lit("]\n"))
		}
		return o, 0
	}, `printf '%d\n' $#
for a; do printf '[%s]\n' "$a"; done
`},
	// say prints its arguments without separators and without a newline.
	"say": {func(p *sym.Path, a []sym.Str, in sym.Str) (sym.Str, int) {
		return sym.Cat(a...), 0
	}, `for a; do printf '%s' "$a"; done
`},
	// sayln prints every argument on a line.
	"sayln": {func(p *sym.Path, a []sym.Str, in sym.Str) (o sym.Str, st int) {
		for _, x := range a {
			o = sym.Cat(o, x, sym.Lit("\n"))
		}
		return o, 0
	}, `for a; do printf '%s\n' "$a"; done
`},
	// pass copies its input.
	"pass": {func(p *sym.Path, a []sym.Str, in sym.Str) (sym.Str, int) { return in, 0 }, "exec cat\n"},
	// wrap copies its input between its two arguments.
	"wrap": {func(p *sym.Path, a []sym.Str, in sym.Str) (sym.Str, int) {
		return sym.Cat(arg(a, 0), in, arg(a, 1)), 0
	}, `printf '%s' "$1"; cat; printf '%s' "$2"
`},
	// fail copies its input, prints its second argument and ends with the status of its first.
	"fail": {func(p *sym.Path, a []sym.Str, in sym.Str) (sym.Str, int) {
		n := arg(a, 0)
		st := 0
		if len(n) == 1 && n[0].IsItoa() {
			st = int(p.Concretize(n[0].T, 300))
		} else {
			c, ok := n.Concrete()
			if !ok {
				p.Unsupported("symbolic status")
			}
			st, _ = strconv.Atoi(c)
		}
		return sym.Cat(in, arg(a, 1)), st & 255
	}, `[ $# -gt 2 ] || cat
printf '%s' "$2"; exit "$1"
`},
	// err prints its first argument as an error, then the others, and copies its input.
	"err": {func(p *sym.Path, a []sym.Str, in sym.Str) (sym.Str, int) {
		if len(a) == 0 {
			return in, 0
		}
		return sym.Cat(append(append([]sym.Str{}, a[1:]...), in)...), 0
	}, `[ $# -eq 0 ] || { printf '%s' "$1" >&2; shift; }
for a; do printf '%s' "$a"; done
cat
`},
	// drop ignores its input.
	"drop": {func(p *sym.Path, a []sym.Str, in sym.Str) (sym.Str, int) { return sym.Lit("dropped\n"), 0 }, "cat >/dev/null; echo dropped\n"},
}

// appAlias: further names of the commands, which a shell could take for something else.
var appAlias = map[string]string{"while": "argv", "time": "argv", "my app": "argv", "_sah": "argv", "x$y": "argv", "a*": "argv", "function": "argv", "select": "argv", "coproc": "argv", "a;b": "argv", "q\"q": "argv", "-dash": "argv", "select2": "pass", "[x": "argv", "{": "argv", "}": "argv"}

func findApp(name string) (app, bool) {
	if b, ok := appAlias[name]; ok {
		name = b
	}
	a, ok := apps[name]
	return a, ok
}

// refApps models the commands installed for replays.
func refApps(p *sym.Path) func(name string, args []sym.Str, stdin sym.Str) (sym.Str, *sym.Term) {
	return func(name string, args []sym.Str, stdin sym.Str) (sym.Str, *sym.Term) {
		a, ok := findApp(name)
		if !ok {
			p.Unsupported("command %s", name)
		}
		if name == "fail" && len(args) > 2 {
			stdin = nil
		}
		o, st := a.run(p, args, stdin)
		return o, p.F.BV(int64(st), 64)
	}
}

func bashApps(p *sym.Path) map[string]bashsym.Cmd {
	m := map[string]bashsym.Cmd{}
	add := func(name string) {
		a, _ := findApp(name)
		m[name] = func(in *bashsym.Interp, args []sym.Str, stdin *bashsym.Stdin) (sym.Str, int) {
			s := stdin.S
			if name == "err" {
				in.WriteErr(arg(args, 0))
			}
			switch {
			case name == "argv" || name == "say" || name == "sayln" || name == "fail" && len(args) > 2 || appAlias[name] == "argv":
				s = nil
			default:
				stdin.S = nil
			}
			return a.run(p, args, s)
		}
	}
	for n := range apps {
		add(n)
	}
	for n := range appAlias {
		add(n)
	}
	return m
}

func installApps(dir string) {
	if _, err := os.Stat(filepath.Join(dir, "argv")); err == nil {
		return
	}
	os.MkdirAll(dir, 0755)
	put := func(n, s string) { os.WriteFile(filepath.Join(dir, n), []byte("#!/bin/bash\n"+s), 0755) }
	for n, a := range apps {
		put(n, a.sh)
	}
	for n, b := range appAlias {
		put(n, apps[b].sh)
	}
}
