// Command symrun executes the transpiler in the symbolic machine on files (debugging aid).
package main

import (
	"fmt"
	"os"
	"time"

	"verif/gosym"
	"verif/harness"
	"verif/sym"
)

func main() {
	P, err := gosym.Load(harness.RepoDir, ".", "./lexer", "./parser", "./transpiler", "./converters/...")
	if err != nil {
		panic(err)
	}
	f := sym.NewFactory()
	s := sym.NewSolver(f)
	defer s.Close()
	m := gosym.NewMachine(P, f)
	for _, fn := range os.Args[2:] {
		b, _ := os.ReadFile(fn)
		x := &sym.Explorer{F: f, S: s}
		x.Run(func(p *sym.Path) {
			defer func() {
				if e := recover(); e != nil {
					fmt.Println(fn, "abort", e)
				}
			}()
			m.FS = gosym.NewVFS()
			m.FS.PutString("/work/a.tsh", string(b))
			m.Begin(p)
			t1 := time.Now()
			o := m.Protect(func() gosym.Value { return harness.Transpile(m, "/work/a.tsh", os.Args[1]) })
			if o.Panic != nil {
				fmt.Println(fn, "panic", o.Panic.Runtime)
				return
			}
			if o.Limit != "" {
				fmt.Println(fn, "limit", o.Limit)
				return
			}
			r := o.Ret.(gosym.Tuple)
			e, bad := m.ErrText(r[1])
			fmt.Println(fn, bad, e, harness.StrOf(r[0]).String(), time.Since(t1))
		})
	}
}
