package chk

import (
	"fmt"
	"path/filepath"

	"verif/gosym"
	"verif/harness"
	"verif/sym"
	"verif/ts"
)

// AcceptCase is a template of a program: for every value of its symbolic bytes both targets accept
// exactly what the reference accepts.
type AcceptCase struct {
	ID    string
	Main  string
	Files map[string]string
	Max   int
}

// refAccepts: 1 accepted, 0 rejected, -1 left open.
func (w *Worker) refAccepts(main string, files map[string]string) (int, string) {
	fs := map[string]string{"/work/main.tsh": main}
	for n, s := range files {
		fs[filepath.Join("/work", n)] = s
	}
	prog, rej := ts.Compile(w.R.Sources(fs), "/work/main.tsh")
	switch {
	case rej != nil && rej.Syntax:
		return -1, "syntax"
	case rej != nil: // whatever else is left open, this reason stands
	case len(prog.Unsure) > 0:
		return -1, prog.Unsure[0]
	default:
		return 1, ""
	}
	return 0, rej.Msg
}

// Accept decides one template.
func (w *Worker) Accept(c *AcceptCase) {
	mx := c.Max
	if mx == 0 {
		mx = 4000
	}
	x := &sym.Explorer{F: w.F, S: w.S, MaxPaths: mx}
	t := Tmpl{ID: c.ID, Text: c.Main}
	seen := map[string]int{}
	var input *sym.Term
	var covers []*sym.Term

	x.Run(func(p *sym.Path) {
		if w.R.Stopped() || w.jobBad {
			return
		}
		m := w.M
		text, vars := t.SourceVars(p)
		input = p.F.True
		for _, l := range p.PC() {
			input = p.F.And(input, l)
		}
		native := func(src string) (string, bool) {
			exp, why := w.refAccepts(src, c.Files)
			if exp < 0 {
				return "", false
			}
			for _, tg := range []string{"bash", "batch"} {
				r := w.nativeText(src, c.Files, tg)
				d := ""
				switch {
				case r.Panic != "":
					d = r.Panic
				case r.IsErr && exp == 1:
					d = "rejected a valid program: " + r.Err
				case !r.IsErr && exp == 0:
					d = "accepted an invalid program: " + why
				case r.IsErr && r.Out != "":
					d = "returned a script with the error " + r.Err
				}
				if d != "" {
					fs := map[string]string{"main.tsh": src}
					for n, s := range c.Files {
						fs[n] = s
					}
					w.jobBad = true
					w.R.Violate(c.ID, tg+" target "+d+"\n"+src, fs)
					return d, true
				}
			}
			return "", false
		}
		defer func() {
			if e := recover(); e != nil {
				a, ok := e.(sym.Abort)
				if !ok || a.Kind == "infeasible" {
					panic(e)
				}
				w.R.Note("inconclusive: "+head(a.Error(), 90), c.ID)
				w.R.Add("inconclusive_paths", 1)
				if md, ok := p.Model(); ok && w.replays < 40 {
					w.replays++
					native(text.Eval(md))
				}
				panic(e)
			}
		}()
		type res struct {
			acc bool
			bad string
		}
		run := func(target string) (r res) {
			m.IntHoles, m.StrHoles, m.HashHoles = nil, nil, nil
			m.OpaqueHash = true
			m.FS = gosym.NewVFS()
			m.FS.Put("/work/main.tsh", text)
			for f, s := range c.Files {
				m.FS.PutString(filepath.Join("/work", f), s)
			}
			for f, s := range w.R.StdFiles() {
				m.FS.PutString("/opt/tsh/std/"+f, s)
			}
			m.Begin(p)
			o := m.Protect(func() gosym.Value { return harness.Transpile(m, "/work/main.tsh", target) })
			m.OpaqueHash = false
			w.R.Add("transpilations", 1)
			switch {
			case o.Panic != nil:
				r.bad = "panic: " + o.Panic.Runtime
			case o.Limit != "":
				r.bad = "limit: " + o.Limit
			case o.Exit != nil:
				r.bad = "the process ends"
			default:
				tp := o.Ret.(gosym.Tuple)
				_, isErr := m.ErrText(tp[1])
				r.acc = !isErr
				if isErr && len(harness.StrOf(tp[0])) != 0 {
					r.bad = "error and script"
				}
			}
			return
		}
		ra := run("bash")
		// a program that is rejected before any converter method has been called is rejected alike for
		// the other target: nothing the run did depends on the target
		rb := ra
		if ra.acc || ra.bad != "" || m.ConvCalls > 0 || w.R.Tier == "thorough" {
			rb = run("batch")
		}
		w.R.Add("paths", 1)
		// the path fixes the outcome; the reference is asked for each program on it
		inner := &sym.Explorer{F: w.F, S: w.S, Base: append([]*sym.Term{}, p.PC()...), BaseM: p.M, MaxPaths: 2000}
		inner.Run(func(p *sym.Path) {
			if w.R.Stopped() || w.jobBad {
				return
			}
			md := sym.Model{}
			for _, v := range vars {
				md[v] = p.Concretize(v, 300)
			}
			s := text.Eval(md)
			if _, dup := seen[s]; dup {
				w.R.Note("internal error", "program met twice: "+c.ID)
			}
			seen[s] = 1
			exp, why := w.refAccepts(s, c.Files)
			w.R.Add("programs", 1)
			pc := p.F.True
			for _, l := range p.PC() {
				pc = p.F.And(pc, l)
			}
			covers = append(covers, pc)
			bad := ""
			switch {
			case ra.bad+rb.bad != "":
				bad = ra.bad + " / " + rb.bad
			case exp < 0:
				w.R.Add("unspecified", 1)
				w.R.Note("unspecified: "+why, c.ID)
				if ra.acc != rb.acc {
					w.R.Note("targets differ on an unspecified program", s)
				}
				return
			case ra.acc != (exp == 1) || rb.acc != (exp == 1):
				bad = fmt.Sprintf("bash accepts: %v, batch accepts: %v, expected: %v (%s)", ra.acc, rb.acc, exp == 1, why)
			}
			if exp == 1 {
				w.R.Add("accepted", 1)
			} else {
				w.R.Add("rejected", 1)
			}
			if bad == "" {
				w.R.Add("discharged", 1)
				if w.replays < 2 {
					w.replays++
					w.R.Add("native_samples", 1)
					native(s)
					w.R.Sample(map[string]any{"case": c.ID, "program": s, "accepted": exp == 1})
				}
				return
			}
			if d, ok := native(s); !ok {
				w.R.Note("model mismatch", c.ID+": "+bad+" "+d+"\n"+s)
			}
		})
		w.finishExplorer(c.ID, inner)
	})
	if len(seen) > 1 && len(covers) <= 300 {
		w.coverage(c.ID, x, input, covers)
	}
	w.finishExplorer(c.ID, x)
}
