// Command batrun runs a Batch script in the model of cmd.exe (debugging aid).
package main

import (
	"fmt"
	"os"

	"verif/batsym"
	"verif/sym"
)

func main() {
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	f := sym.NewFactory()
	s := sym.NewSolver(f)
	defer s.Close()
	x := &sym.Explorer{F: f, S: s, MaxPaths: 1}
	x.Run(func(p *sym.Path) {
		defer func() {
			if e := recover(); e != nil {
				fmt.Println("ABORT", e)
			}
		}()
		r := batsym.Run(p, sym.Lit(string(b)), batsym.Options{MaxSteps: 200000})
		fmt.Print(r.Out.Eval(nil))
		fmt.Printf("--- status %d err %q syntax %q steps %d\n", int64(sym.Eval(r.Status, nil, nil)), r.Err.Eval(nil), r.Syntax, r.Steps)
	})
}
