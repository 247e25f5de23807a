package chk

import (
	"fmt"
	"path/filepath"
	"strings"

	"verif/gosym"
	"verif/harness"
	"verif/sym"
)

// TotalCase is a set of files (templates, see Tmpl) that is transpiled from main.tsh.
type TotalCase struct {
	ID, Fam string
	Files   map[string]string
	Order   []string // order in which symbolic bytes are created
	Both    bool     // transpile for Batch even when Bash reports an error
	Max     int      // path bound
}

// Total decides that transpilation returns a script or an error for every value of the symbolic bytes.
func (w *Worker) Total(c *TotalCase) {
	mx := c.Max
	if mx == 0 {
		mx = 3000
	}
	x := &sym.Explorer{F: w.F, S: w.S, MaxPaths: mx}
	sampled := false
	var input *sym.Term
	var covers []*sym.Term
	lits := 0
	x.Run(func(p *sym.Path) {
		if w.R.Stopped() || w.jobBad {
			return
		}
		m := w.M
		texts := map[string]sym.Str{}
		n := 0
		for _, f := range c.Order {
			var s sym.Str
			t := c.Files[f]
			for i := 0; i < len(t); i++ {
				if t[i] != 1 {
					s = append(s, sym.Ch{B: t[i]})
					continue
				}
				i++
				v := p.F.Var(fmt.Sprintf("b%d", n), 8)
				n++
				p.Assume(kindTerm(p.F, v, t[i]))
				s = append(s, sym.Ch{T: v})
			}
			texts[f] = s
		}
		input = p.F.And(p.F.True, p.F.True)
		for _, t := range p.PC() {
			input = p.F.And(input, t)
		}
		eval := func(md sym.Model) map[string]string {
			fs := map[string]string{}
			for f, s := range texts {
				fs[filepath.Join("/work", f)] = s.Eval(md)
			}
			return fs
		}
		native := func(md sym.Model, target, why string) {
			fs := eval(md)
			w.R.Add("native_replays", 1)
			r := w.R.N.Transpile(w.materialise(fs, "/work/main.tsh"), target)
			d := ""
			switch {
			case r.Panic != "":
				d = r.Panic
			case r.IsErr && r.Err == "":
				d = "the error is empty"
			case r.IsErr && r.Out != "":
				d = "an error and a script are returned"
			}
			if d != "" {
				w.jobBad = true
				w.R.Violate(c.ID, fmt.Sprintf("%s target: %s\n%s", target, d, fs["/work/main.tsh"]), strip(fs))
			} else if why != "" {
				w.R.Note("model mismatch", c.ID+" "+target+": "+why+": "+fs["/work/main.tsh"])
			}
		}
		target := "bash"
		defer func() {
			if e := recover(); e != nil {
				a, ok := e.(sym.Abort)
				if !ok || a.Kind == "infeasible" {
					panic(e)
				}
				w.R.Note("inconclusive: "+head(a.Error(), 90), c.ID)
				w.R.Add("inconclusive_paths", 1)
				if md, ok := p.Model(); ok && w.replays < 40 {
					w.replays++
					native(md, target, "")
				}
				panic(e)
			}
		}()
		accepted := false
		for _, target = range []string{"bash", "batch"} {
			if target == "batch" && !accepted && !c.Both {
				continue
			}
			m.IntHoles, m.StrHoles, m.HashHoles = nil, nil, nil
			m.OpaqueHash = true
			m.FS = gosym.NewVFS()
			for f, s := range texts {
				m.FS.Put(filepath.Join("/work", f), s)
			}
			for f, s := range w.R.StdFiles() {
				m.FS.PutString("/opt/tsh/std/"+f, s)
			}
			m.Begin(p)
			o := m.Protect(func() gosym.Value { return harness.Transpile(m, "/work/main.tsh", target) })
			m.OpaqueHash = false
			w.R.Add("transpilations", 1)
			bad := ""
			switch {
			case o.Panic != nil:
				bad = "panic: " + o.Panic.Runtime
			case o.Limit != "":
				bad = "limit: " + o.Limit
			case o.Exit != nil:
				bad = "the process ends"
			}
			if bad == "" {
				t := o.Ret.(gosym.Tuple)
				e, isErr := m.ErrText(t[1])
				accepted = !isErr
				if isErr {
					w.R.Add("rejected_paths", 1)
					if len(harness.StrOf(e)) == 0 {
						bad = "empty error"
					} else if len(harness.StrOf(t[0])) != 0 {
						bad = "an error and a script"
					}
				} else {
					w.R.Add("accepted_paths", 1)
				}
			}
			// the outcome is the same for every value on this path; the solver confirms that the path is inhabited
			if bad == "" {
				w.R.Add("discharged", 1)
				if !sampled && w.replays < 2 {
					sampled = true
					w.replays++
					if md, ok := p.Model(); ok {
						w.R.Add("native_samples", 1)
						native(md, target, "")
						w.R.Sample(map[string]any{"case": c.ID, "main": eval(md)["/work/main.tsh"], "accepted": accepted})
					}
				}
				continue
			}
			if md, ok := p.Model(); ok {
				native(md, target, bad)
			}
			accepted = false
		}
		w.R.Add("paths", 1)
		if n > 0 {
			pc := p.F.True
			for _, t := range p.PC() {
				pc = p.F.And(pc, t)
			}
			covers = append(covers, pc)
			lits += len(p.PC())
		}
	})
	if lits < 4000 {
		w.coverage(c.ID, x, input, covers)
	}
	w.finishExplorer(c.ID, x)
}

func strip(fs map[string]string) map[string]string {
	o := map[string]string{}
	for n, s := range fs {
		r, err := filepath.Rel("/work", n)
		if err != nil {
			r = filepath.Base(n)
		}
		o[r] = s
	}
	return o
}

// coverage asks the solver whether some input lies on none of the completed paths.
func (w *Worker) coverage(id string, x *sym.Explorer, input *sym.Term, covers []*sym.Term) {
	if x.Truncated || len(x.Aborts) > 0 && !(len(x.Aborts) == 1 && x.Aborts["infeasible"] > 0) || w.jobBad || len(covers) == 0 || w.R.Stopped() {
		return
	}
	for _, c := range covers { // auxiliary variables (digits of numbers) would have to be quantified
		for _, v := range w.F.VarsOf(c) {
			if strings.Contains(v.Name, "!") {
				return
			}
		}
	}
	q := []*sym.Term{w.F.Domains(input)}
	for _, c := range covers {
		q = append(q, w.F.Not(w.F.Domains(c)))
	}
	switch r, m := w.S.Check(q); r {
	case sym.Unsat:
		w.R.Add("coverage_proved", 1)
	case sym.Sat:
		w.R.Note("internal error", fmt.Sprintf("%s: an input is on no explored path: %v", id, m))
	default:
		w.R.Note("coverage query unknown", id)
	}
}
