package chk

import (
	"verif/batsym"
	"verif/harness"
	"verif/sym"
	"verif/ts"
)

// batchConcrete runs a natively emitted Batch script in the model of cmd.exe (no cmd.exe is available here).
// ok is false if the script is outside the model.
func (w *Worker) batchConcrete(script string, in *inst, m sym.Model) (g harness.RunResult, files map[string]string, ok bool) {
	ok = true
	x := &sym.Explorer{F: w.F, S: w.S, MaxPaths: 1}
	x.Run(func(p *sym.Path) {
		defer func() {
			if e := recover(); e != nil {
				a, ok := e.(sym.Abort)
				if !ok {
					panic(e)
				}
				if a.Kind == "bound" {
					g.TimedOut = true
				} else {
					ok = false
					w.R.Note("outside the model of cmd.exe: "+a.Error(), in.c.ID)
				}
			}
		}()
		fs := &ts.Files{}
		for _, k := range sortedStr(in.pre) {
			fs.Put(sym.Lit(k), sym.Lit(in.pre[k].Eval(m)))
		}
		ex := func(n sym.Str) bool { return fs.Exists(p, n) }
		r := batsym.Run(p, sym.Lit(script), batsym.Options{MaxSteps: 200000, Stdin: sym.Lit(in.stdin.Eval(m)), Exist: ex})
		g.Stdout = r.Out.Eval(nil)
		g.Stderr = r.Err.Eval(nil)
		g.Exit = int(sym.Eval(r.Status, nil, nil)) & 255
		if r.Syntax != "" {
			g.Stderr += r.Syntax
		}
	})
	return g, map[string]string{}, ok
}

// batchCompare is the condition that the Batch script prints what the reference prints and ends with its status.
func (w *Worker) batchCompare(p *sym.Path, in *inst, sc Script, ref *ts.Result) *sym.Term {
	f := w.F
	fs := &ts.Files{}
	for _, k := range sortedStr(in.pre) {
		fs.Put(sym.Lit(k), in.pre[k])
	}
	ex := func(n sym.Str) bool { return fs.Exists(p, n) }
	text := sc.Out
	var names *batsym.Names
	if len(in.hash)+len(in.names) > 0 {
		text, names = batsym.Opaque(p, text)
	}
	r := batsym.Run(p, text, batsym.Options{Names: names, MaxSteps: 6000 + 200*ref.Steps, Stdin: in.stdin, Exist: ex})
	if r.Syntax != "" || len(r.Err) > 0 {
		return f.False
	}
	return f.And(p.StrEq(r.Out, ref.Out), f.Eq(f.Trunc(r.Status, 8), f.Trunc(ref.Status, 8)))
}
