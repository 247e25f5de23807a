package chk

import (
	"fmt"
	"path/filepath"

	"verif/gosym"
	"verif/harness"
	"verif/sym"
)

// bytesTmpl transpiles sources whose main file is a template.
func (w *Worker) transpileText(p *sym.Path, main sym.Str, files map[string]string, target string) Script {
	m := w.M
	m.IntHoles, m.StrHoles, m.HashHoles = nil, nil, nil
	m.FS = gosym.NewVFS()
	m.FS.Put("/work/main.tsh", main)
	for n, s := range files {
		m.FS.PutString(filepath.Join("/work", n), s)
	}
	for n, s := range w.R.StdFiles() {
		m.FS.PutString("/opt/tsh/std/"+n, s)
	}
	m.Begin(p)
	o := m.Protect(func() gosym.Value { return harness.Transpile(m, "/work/main.tsh", target) })
	w.R.Add("transpilations", 1)
	switch {
	case o.Panic != nil:
		return Script{Crash: "panic: " + o.Panic.Runtime}
	case o.Limit != "":
		return Script{Crash: "limit: " + o.Limit}
	case o.Exit != nil:
		return Script{Crash: "exit"}
	}
	t := o.Ret.(gosym.Tuple)
	e, isErr := m.ErrText(t[1])
	return Script{Out: harness.StrOf(t[0]), Err: harness.StrOf(e), IsErr: isErr}
}

// nativeText transpiles a concrete main file natively.
func (w *Worker) nativeText(main string, files map[string]string, target string) harness.Result {
	fs := map[string]string{"/work/main.tsh": main}
	for n, s := range files {
		fs[filepath.Join("/work", n)] = s
	}
	w.R.Add("native_replays", 1)
	return w.R.N.Transpile(w.materialise(fs, "/work/main.tsh"), target)
}

// Layout decides one re-layout: acceptance and script equal those of the original.
func (w *Worker) Layout(id string, files map[string]string, src string, base Script, t Tmpl, target string) {
	sampled := false
	x := &sym.Explorer{F: w.F, S: w.S, MaxPaths: 4000}
	x.Run(func(p *sym.Path) {
		if w.R.Stopped() || w.jobBad {
			return
		}
		text := t.Source(p)
		replay := func(m sym.Model, must bool) {
			s := text.Eval(m)
			a := w.nativeText(src, files, target)
			b := w.nativeText(s, files, target)
			d := ""
			switch {
			case a.Panic != b.Panic:
				d = "original: " + a.Panic + ", re-laid-out: " + b.Panic
			case a.IsErr != b.IsErr:
				d = fmt.Sprintf("original: error %q, re-laid-out: error %q", a.Err, b.Err)
			case a.Out != b.Out:
				d = "the scripts differ: " + firstDiff(a.Out, b.Out)
			}
			if d != "" {
				w.jobBad = true
				fs := map[string]string{"original/main.tsh": src, "relaid/main.tsh": s}
				for n, c := range files {
					fs["original/"+n] = c
					fs["relaid/"+n] = c
				}
				w.R.Violate(id, fmt.Sprintf("%s target, layout %q: %s", target, t.ID, d)+"\nre-laid-out program:\n"+s, fs)
			} else if must {
				w.R.Note("model mismatch", id+" "+t.ID)
			}
		}
		defer func() {
			if e := recover(); e != nil {
				a, ok := e.(sym.Abort)
				if !ok || a.Kind == "infeasible" {
					panic(e)
				}
				w.R.Note("inconclusive: "+head(a.Error(), 90), id+" "+t.ID)
				w.R.Add("inconclusive_paths", 1)
				if m, ok := p.Model(); ok && w.replays < 40 {
					w.replays++
					replay(m, false)
				}
				panic(e)
			}
		}()
		sc := w.transpileText(p, text, files, target)
		w.R.Add("paths", 1)
		ok := w.F.True
		if sc.Crash != base.Crash || sc.IsErr != base.IsErr {
			ok = w.F.False
		} else if !sc.IsErr {
			ok = p.StrEq(sc.Out, base.Out)
		}
		res, m := p.Check(ok)
		switch res {
		case sym.Unsat:
			w.R.Add("discharged", 1)
			if !sampled && w.replays < 3 {
				sampled = true
				w.replays++
				if m, ok := p.Model(); ok {
					w.R.Add("native_samples", 1)
					replay(m, false)
					w.R.Sample(map[string]any{"program": id, "layout": t.ID, "text": text.Eval(m)})
				}
			}
		default:
			if m == nil {
				m, _ = p.Model()
			}
			replay(m, res == sym.Sat)
		}
	})
	w.finishExplorer(id+" "+t.ID, x)
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string {
		lo := i - 40
		if lo < 0 {
			lo = 0
		}
		hi := i + 40
		if hi > len(s) {
			hi = len(s)
		}
		if lo > hi {
			lo = hi
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("%q versus %q", cut(a), cut(b))
}

// BaseScript transpiles the original.
func (w *Worker) BaseScript(src string, files map[string]string, target string) (sc Script) {
	x := &sym.Explorer{F: w.F, S: w.S, MaxPaths: 3}
	x.Run(func(p *sym.Path) { sc = w.transpileText(p, sym.Lit(src), files, target) })
	return
}
