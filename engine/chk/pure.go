package chk

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/gosym"
	"verif/harness"
	"verif/sym"
)

// PureProg is a program (templates) whose main file is main.tsh.
type PureProg struct {
	Files map[string]string
	Order []string
}

// Place is where a program lies and how the transpiler is called.
type Place struct {
	Root, Cwd, Arg string // Arg is the path that is passed (relative to Cwd when not absolute)
	Main           string // name of the main file
	Exe            string
	Extra          map[string]string // unrelated files
}

// PureCase compares transpilations of the same content.
type PureCase struct {
	ID     string
	Progs  []PureProg
	Steps  int // histories of this length
	Places []Place
	Maps   int // 1: orders per iterating statement, 2: orders of one single iteration
	Max    int
}

var home = Place{Root: "/work", Cwd: "/work", Arg: "/work/main.tsh", Main: "main.tsh", Exe: "/opt/tsh/tsh"}

// Pure decides one case.
func (w *Worker) Pure(c *PureCase) {
	mx := c.Max
	if mx == 0 {
		mx = 20000
	}
	x := &sym.Explorer{F: w.F, S: w.S, MaxPaths: mx}
	targets := []string{"bash", "batch"}
	cache := map[string]Script{}
	type stepT struct {
		prog  int
		tg    string
		fresh bool
		pl    Place
	}
	x.Run(func(p *sym.Path) {
		if w.R.Stopped() || w.jobBad {
			return
		}
		m := w.M
		// symbolic sources
		texts := make([]map[string]sym.Str, len(c.Progs))
		conc := make([]bool, len(c.Progs))
		nb := 0
		source := func(k int) {
			if texts[k] != nil {
				return
			}
			texts[k] = map[string]sym.Str{}
			conc[k] = true
			for _, f := range c.Progs[k].Order {
				var s sym.Str
				t := c.Progs[k].Files[f]
				for i := 0; i < len(t); i++ {
					if t[i] != 1 {
						s = append(s, sym.Ch{B: t[i]})
						continue
					}
					i++
					v := p.F.Var(fmt.Sprintf("p%db%d", k, nb), 8)
					nb++
					p.Assume(kindTerm(p.F, v, t[i]))
					s = append(s, sym.Ch{T: v})
					conc[k] = false
				}
				texts[k][f] = s
			}
		}
		pick := func(name string, n int) int {
			if n <= 1 {
				return 0
			}
			v := p.F.Var(name, 8)
			p.Assume(p.F.Ule(v, p.F.BV(int64(n-1), 8)))
			return int(p.Concretize(v, n+1))
		}
		var steps []stepT
		setup := func(k int, pl Place) {
			source(k)
			m.FS = gosym.NewVFS()
			m.Cwd, m.ExePath = pl.Cwd, pl.Exe
			m.FS.MkdirAll(pl.Cwd)
			for f, s := range texts[k] {
				if f == "main.tsh" {
					f = pl.Main
				}
				m.FS.Put(filepath.Join(pl.Root, f), s)
			}
			for f, s := range pl.Extra {
				m.FS.PutString(f, s)
			}
			for f, s := range w.R.StdFiles() {
				m.FS.PutString(filepath.Join(filepath.Dir(pl.Exe), "std", f), s)
			}
		}
		script := func(o gosym.Outcome) Script {
			w.R.Add("transpilations", 1)
			switch {
			case o.Panic != nil:
				return Script{Crash: "panic: " + o.Panic.Runtime}
			case o.Limit != "":
				return Script{Crash: "limit: " + o.Limit}
			case o.Exit != nil:
				return Script{Crash: "exit"}
			}
			t := o.Ret.(gosym.Tuple)
			e, isErr := m.ErrText(t[1])
			return Script{Out: harness.StrOf(t[0]), Err: harness.StrOf(e), IsErr: isErr}
		}
		begin := func() {
			m.IntHoles, m.StrHoles, m.HashHoles = nil, nil, nil
			m.OpaqueHash = true
			m.MapOrder, m.NDEnv = nil, false
			m.Begin(p)
		}
		base := func(k int, tg string) Script {
			source(k)
			key := fmt.Sprint(k, tg)
			if s, ok := cache[key]; ok {
				return s
			}
			begin()
			setup(k, home)
			s := script(m.Protect(func() gosym.Value { return harness.Transpile(m, home.Arg, tg) }))
			if conc[k] {
				cache[key] = s
			}
			return s
		}
		natFiles := func(root string, k int, pl Place, md sym.Model) map[string][]byte {
			r := map[string][]byte{}
			for f, s := range texts[k] {
				if f == "main.tsh" {
					f = pl.Main
				}
				r[filepath.Join(root, pl.Root, f)] = []byte(s.Eval(md))
			}
			for f, s := range pl.Extra {
				r[filepath.Join(root, f)] = []byte(s)
			}
			return r
		}
		natStep := func(root string, s stepT, md sym.Model) harness.Step {
			a := s.pl.Arg
			if filepath.IsAbs(a) {
				a = filepath.Join(root, a)
			}
			fs := natFiles(root, s.prog, s.pl, md)
			fs[filepath.Join(root, s.pl.Cwd, ".keep")] = nil
			return harness.Step{Path: a, Target: s.tg, Cwd: filepath.Join(root, s.pl.Cwd), Fresh: s.fresh, Clear: root, Files: fs}
		}
		// replay runs the history in a new process and every step in a process of its own
		replay := func(md sym.Model) bool {
			w.R.Add("native_replays", 1)
			root := filepath.Join(w.Dir, "pure")
			defer os.RemoveAll(root)
			var seq []harness.Step
			for _, s := range steps {
				seq = append(seq, natStep(root, s, md))
			}
			if len(steps) == 1 { // many iterations orders
				for i := 0; i < 30; i++ {
					seq = append(seq, seq[0])
				}
			}
			got := w.R.N.TranspileSeq(seq, "VERIF_X=value", "HOME=/nonexistent", "USER=other", "LANG=C")
			for i := range seq {
				s := steps[min(i, len(steps)-1)]
				hs := s
				hs.pl, hs.fresh = home, false
				want := w.R.N.TranspileSeq([]harness.Step{natStep(root, hs, md)})
				if len(want.Outs) != 1 {
					return false
				}
				var g harness.Result
				if i < len(got.Outs) {
					g = got.Outs[i]
				} else {
					g.Panic = got.Panic
				}
				e := want.Outs[0]
				d := ""
				switch {
				case g.Panic != e.Panic && !(g.Panic != "" && e.Panic != ""):
					d = "panic: " + g.Panic + " against " + e.Panic
				case g.IsErr != e.IsErr:
					d = fmt.Sprintf("error %q against %q", g.Err, e.Err)
				case g.Out != e.Out:
					d = "the scripts differ: " + firstDiff(e.Out, g.Out)
				}
				if d == "" {
					continue
				}
				fs := map[string]string{}
				h := ""
				for n, s := range steps {
					h += fmt.Sprintf("step %d: program %d as %s (in %s, root %s), target %s, new object: %v\n", n, s.prog, s.pl.Arg, s.pl.Cwd, s.pl.Root, s.tg, s.fresh)
					for f, t := range texts[s.prog] {
						fs[fmt.Sprintf("prog%d/%s", s.prog, f)] = t.Eval(md)
					}
				}
				w.jobBad = true
				w.R.Violate(c.ID, fmt.Sprintf("the result of step %d differs from that of a single run in a fresh process: %s\n%s", i, d, h), fs)
				return true
			}
			return false
		}
		defer func() {
			m.MapOrder, m.NDEnv, m.Cwd, m.ExePath = nil, false, home.Cwd, home.Exe
			if e := recover(); e != nil {
				a, ok := e.(sym.Abort)
				if !ok || a.Kind == "infeasible" {
					panic(e)
				}
				w.R.Note("inconclusive: "+head(a.Error(), 90), c.ID)
				w.R.Add("inconclusive_paths", 1)
				if md, ok := p.Model(); ok && w.replays < 40 && len(steps) > 0 {
					w.replays++
					replay(md)
				}
				panic(e)
			}
		}()
		var outs []Script
		n := max(c.Steps, 1)
		var ses *harness.Session
		for k := 0; k < n; k++ {
			s := stepT{pl: home}
			s.prog = pick(fmt.Sprintf("prog%d", k), len(c.Progs))
			s.tg = targets[pick(fmt.Sprintf("target%d", k), 2)]
			if n > 1 && k > 0 {
				s.fresh = pick(fmt.Sprintf("fresh%d", k), 2) == 1
			}
			if len(c.Places) > 0 {
				s.pl = c.Places[pick(fmt.Sprintf("place%d", k), len(c.Places))]
			}
			source(s.prog)
			steps = append(steps, s)
			if k == 0 {
				begin()
				ses = harness.NewSession(m)
				m.NDEnv = true
				if c.Maps > 0 {
					m.MapOrder = orders(p, c.Maps)
				}
			}
			setup(s.prog, s.pl)
			outs = append(outs, script(m.Protect(func() gosym.Value {
				if s.fresh {
					return harness.Transpile(m, s.pl.Arg, s.tg)
				}
				return ses.Transpile(m, s.pl.Arg, s.tg)
			})))
		}
		m.MapOrder, m.NDEnv = nil, false
		ok := p.F.True
		for i, s := range steps {
			b := base(s.prog, s.tg)
			g := outs[i]
			switch {
			case g.Crash != b.Crash || g.IsErr != b.IsErr:
				ok = p.F.False
			case !g.IsErr:
				ok = p.F.And(ok, p.StrEq(g.Out, b.Out))
			case len(g.Out) != 0:
				ok = p.F.False
			}
		}
		w.R.Add("paths", 1)
		res, md := p.Check(ok)
		switch res {
		case sym.Unsat:
			w.R.Add("discharged", 1)
			if w.replays < 3 {
				w.replays++
				if md, k := p.Model(); k {
					w.R.Add("native_samples", 1)
					replay(md)
					w.R.Sample(map[string]any{"case": c.ID, "steps": len(steps)})
				}
			}
		default:
			if md == nil {
				md, _ = p.Model()
			}
			if w.replays < 60 {
				w.replays++
				if !replay(md) {
					w.R.Note("model mismatch", c.ID)
				}
			}
		}
	})
	w.finishExplorer(c.ID, x)
}

// orders chooses iteration orders of maps with symbolic selectors.
func orders(p *sym.Path, mode int) func(ssa.Instruction, int) []int {
	perm := func(n, k int) []int {
		r := make([]int, n)
		for i := range r {
			r[i] = i
		}
		switch {
		case k == 0:
			return nil
		case k == 1:
			for i := range r {
				r[i] = n - 1 - i
			}
		case k == 2:
			for i := range r {
				r[i] = (i + 1) % n
			}
		case k-3 < n-1: // neighbours
			r[k-3], r[k-2] = r[k-2], r[k-3]
		default: // another rotation
			d := k - 3 - (n - 1) + 2
			for i := range r {
				r[i] = (i + d) % n
			}
		}
		return r
	}
	count := 0
	used := 0
	sites := map[ssa.Instruction]int{}
	return func(site ssa.Instruction, n int) []int {
		if mode == 1 {
			k, ok := sites[site]
			if !ok {
				if used < 2 {
					v := p.F.Var(fmt.Sprintf("site%d", len(sites)), 8)
					p.Assume(p.F.Ule(v, p.F.BV(3, 8)))
					k = int(p.Concretize(v, 8))
					if k > 0 {
						used++
					}
				}
				sites[site] = k
			}
			if k == 3 && n < 2 {
				k = 0
			}
			return perm(n, k)
		}
		// a single iteration in any order
		if used > 0 {
			return nil
		}
		count++
		num := n + 1
		if n > 3 {
			num = min(2*n-1, 12)
		}
		v := p.F.Var(fmt.Sprintf("iter%d", count), 8)
		p.Assume(p.F.Ule(v, p.F.BV(int64(num-1), 8)))
		k := int(p.Concretize(v, num+1))
		if k > 0 {
			used++
		}
		if n == 2 && k > 1 {
			k = 1
		}
		return perm(n, k)
	}
}

var _ = strings.Join
