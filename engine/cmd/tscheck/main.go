// Command tscheck decides the properties of /verif/properties.jsonl by symbolic execution.
package main

import (
	"flag"
	"fmt"
	"os"
	"regexp"
	"runtime/pprof"
	"strconv"
	"strings"
	"time"

	"verif/chk"
	"verif/gen"
	"verif/harness"
)

type check struct {
	opts []string
	run  func(r *chk.Run, thorough bool) int
}

var checks = map[string]check{}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	repo := flag.String("repo", "/repo", "tree to check")
	verif := flag.String("verif", "/verif", "verification root")
	limit := flag.Duration("limit", 0, "time limit")
	only := flag.String("only", "", "only jobs with this id substring")
	maxv := flag.Int("maxviol", 1, "stop after this many violations")
	dump := flag.Bool("dump", false, "print programs")
	prof := flag.String("cpuprofile", "", "write a CPU profile")
	flag.Parse()
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	harness.RepoDir = *repo
	chk.VerifDir = *verif
	c, ok := checks[*prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	l := *limit
	if l == 0 {
		l = 240 * time.Second
		if *tier == "thorough" {
			l = 780 * time.Second
		}
	}
	r, err := chk.NewRun(*prop, *tier, l, c.opts...)
	if err != nil {
		fmt.Fprintln(os.Stderr, "setup:", err)
		os.Exit(2)
	}
	r.Only = *only
	r.Dump = *dump
	r.MaxViol = *maxv
	r.Seed = 1
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		r.Seed = s
	}
	code := c.run(r, *tier == "thorough")
	r.Close()
	if *prof != "" {
		pprof.StopCPUProfile()
	}
	os.Exit(code)
}

func spec(v [3]string) chk.StrSpec {
	lo, _ := strconv.Atoi(v[0])
	hi, _ := strconv.Atoi(v[1])
	return chk.StrSpec{Min: lo, Max: hi, Class: v[2]}
}

// semJobs turns skeletons into jobs.
func semJobs(ps []gen.Prog, target string, mod func(p gen.Prog, c *chk.Case)) []chk.Job {
	var js []chk.Job
	for _, p := range ps {
		p := p
		id := p.ID
		if target == "batch" {
			id = "batch:" + id
		}
		js = append(js, chk.Job{ID: id, Family: p.Fam, Do: func(w *chk.Worker) {
			c := &chk.Case{ID: id, Fam: p.Fam, Src: p.Src, Files: p.Files, Target: target, Paths: p.Paths, Steps: p.Steps, Hash: p.Hash}
			for k, v := range p.Strs {
				if c.Strs == nil {
					c.Strs = map[string]chk.StrSpec{}
				}
				c.Strs[k] = spec(v)
			}
			for k, v := range p.Pre {
				if c.Pre == nil {
					c.Pre = map[string]chk.StrSpec{}
				}
				c.Pre[k] = spec(v)
			}
			if p.Stdin != nil {
				s := spec(*p.Stdin)
				c.Stdin = &s
			}
			if mod != nil {
				mod(p, c)
			}
			w.Sem(c)
		}})
	}
	return js
}

var semAssume = []string{
	"Bash is modelled by verif/bashsym (agreement with the installed bash is tested on concrete snippets and on one replayed path per job)",
	"program skeletons are enumerated; integers, booleans and marked strings in them are symbolic over their whole range",
	"division by zero, out-of-range indices and integer literals beyond 64 bits are excluded (Go leaves no result)",
}

func semCheck(target string, g func(bool, int64) []gen.Prog) check {
	return check{run: func(r *chk.Run, th bool) int {
		r.Do(semJobs(g(th, int64(r.Seed)), target, nil))
		return r.Finish("model_checking", map[string]any{"states": r.Stats["paths"], "transitions": r.Stats["transpilations"], "traces_validated_against_impl": r.Stats["native_samples"],
			"bounds": "skeletons as enumerated; loops bounded by symbolic trip counts 0..3 or constants; 64-bit integers"}, semAssume)
	}}
}

func lexCheck(r *chk.Run, th bool) int {
	var js []chk.Job
	for _, t := range gen.C11(th, int64(r.Seed)) {
		t := t
		js = append(js, chk.Job{ID: t.ID, Family: t.Fam, Do: func(w *chk.Worker) {
			n := 60000
			if th {
				n = 400000
			}
			w.Lex(chk.Tmpl(t), n)
		}})
	}
	r.Do(js)
	return r.Finish("model_checking", map[string]any{"states": r.Stats["paths"], "transitions": r.Stats["tokenisations"], "traces_validated_against_impl": r.Stats["native_samples"],
		"bounds": "source templates with up to 5 symbolic bytes (each ranging over its whole class, up to all 256 values)"},
		[]string{"the reference scanner verif/ts.SymTokenize states the token grammar (Go's lexical rules for the shared tokens)", "left open: fractions such as 1.5, block comments without an end"})
}

func layoutCheck(r *chk.Run, th bool) int {
	var js []chk.Job
	for _, p := range gen.C12(th, int64(r.Seed)) {
		p := p
		// one job per program and group of layouts
		const group = 40
		for k := 0; k*group < len(p.Variants); k++ {
			vs := p.Variants[k*group : min(len(p.Variants), (k+1)*group)]
			k := k
			js = append(js, chk.Job{ID: fmt.Sprintf("%s.%d", p.ID, k), Family: p.Fam, Do: func(w *chk.Worker) {
				for _, tg := range []string{"bash", "batch"} {
					if tg == "batch" && k > 0 && !th {
						continue
					}
					base := w.BaseScript(p.Src, p.Files, tg)
					if base.IsErr && p.Fam != "rejected" {
						r.Note("corpus program rejected", p.ID+": "+base.Err.String())
					}
					for _, v := range vs {
						w.Layout(p.ID, p.Files, p.Src, base, chk.Tmpl(v), tg)
						r.Add("layouts", 1)
					}
				}
			}})
		}
	}
	r.Do(js)
	return r.Finish("model_checking", map[string]any{"states": r.Stats["paths"], "transitions": r.Stats["transpilations"], "traces_validated_against_impl": r.Stats["native_samples"],
		"bounds": "programs as listed; whole-file re-layouts plus, at each gap and line break, up to 3 symbolic bytes (blanks, line breaks, comment contents over all bytes)"},
		[]string{"a re-layout is admitted when the reference tokeniser gives the same tokens up to repeated line breaks", "block comments that span lines are only placed on lines of their own"})
}

func totalCheck(r *chk.Run, th bool) int {
	cs := gen.C13(th, int64(r.Seed))
	var js []chk.Job
	// small cases are grouped
	for i := 0; i < len(cs); {
		k := i + 1
		for k < len(cs) && k < i+12 && cs[k].Fam == cs[i].Fam && cs[i].Fam != "imports" && cs[i].Fam != "depth" {
			k++
		}
		g := cs[i:k]
		i = k
		if r.Only != "" {
			var h []gen.Total
			for _, c := range g {
				if r.Selected(c.ID) {
					h = append(h, c)
				}
			}
			if g = h; len(g) == 0 {
				continue
			}
		}
		js = append(js, chk.Job{ID: g[0].ID, Family: g[0].Fam, Do: func(w *chk.Worker) {
			for _, c := range g {
				w.Total(&chk.TotalCase{ID: c.ID, Fam: c.Fam, Files: c.Files, Order: c.Order(), Both: c.Both, Max: c.Max})
				r.Add("templates", 1)
			}
		}})
	}
	r.Do(js)
	return r.Finish("model_checking", map[string]any{"states": r.Stats["paths"], "transitions": r.Stats["transpilations"], "traces_validated_against_impl": r.Stats["native_samples"],
		"bounds": "templates with up to 8 symbolic bytes (single bytes range over all 256 values); nesting depth up to 300; import graphs over 4 files; at most 40 million interpreted SSA instructions per transpilation"},
		[]string{"digests of symbolic file contents are arbitrary fixed values", "for each template the solver confirms that the explored paths cover every value of the symbolic bytes (coverage_proved)"})
}

func acceptCheck(g func(bool, int64) []gen.Accept, group int, bounds string, assume ...string) check {
	return check{run: func(r *chk.Run, th bool) int {
		js := acceptJobs(r, g(th, int64(r.Seed)), group)
		r.Only = ""
		r.Do(js)
		return r.Finish("model_checking", map[string]any{"states": r.Stats["paths"], "transitions": r.Stats["transpilations"], "traces_validated_against_impl": r.Stats["native_samples"], "bounds": bounds}, assume)
	}}
}

func acceptJobs(r *chk.Run, cs []gen.Accept, group int) (js []chk.Job) {
	for i := 0; i < len(cs); {
		k := i + 1
		for k < len(cs) && k < i+group && cs[k].Fam == cs[i].Fam && cs[i].Max <= 4000 {
			k++
		}
		var g []gen.Accept
		for _, c := range cs[i:k] {
			if r.Selected(c.ID) {
				g = append(g, c)
			}
		}
		i = k
		if len(g) == 0 {
			continue
		}
		js = append(js, chk.Job{ID: g[0].ID, Family: g[0].Fam, Do: func(w *chk.Worker) {
			for _, c := range g {
				w.Accept(&chk.AcceptCase{ID: c.ID, Main: c.Main, Files: c.Files, Max: c.Max})
				r.Add("templates", 1)
			}
		}})
	}
	return
}

func init() {
	checks["C06"] = acceptCheck(gen.C06, 10, "statement templates in which operands, targets, operators and callees are symbolic bytes ranging over one name per type / function result / operator byte; enclosing contexts and statement forms are enumerated",
		"the reference type checker verif/ts states the typing rules", "forms outside the grammar and those listed as unspecified are not asserted", "for each template the solver confirms that the explored paths cover every value of the symbolic bytes (coverage_proved)")
	checks["C13"] = check{run: totalCheck}
	checks["C12"] = check{run: layoutCheck}
	checks["C11"] = check{opts: []string{"lexer"}, run: lexCheck}
	checks["C01"] = semCheck("bash", gen.C01)
	checks["C02"] = semCheck("bash", gen.C02)
	checks["C03"] = semCheck("bash", gen.C03)
	checks["C04"] = semCheck("bash", gen.C04)
}

func init() {
	checks["C07"] = acceptCheck(gen.C07, 4, "block structures as enumerated with up to 3 slots whose statements are selected by symbolic bytes out of up to 60 alternatives each, and symbolic names; one to three files",
		"the reference scope rules verif/ts state the property", "forms outside the grammar and those listed as unspecified are not asserted", "for each template the solver confirms that the explored paths cover every value of the symbolic bytes (coverage_proved)")
}

func cliCheck(r *chk.Run, th bool) int {
	var js []chk.Job
	for _, c := range gen.C19(th, int64(r.Seed)) {
		c := c
		js = append(js, chk.Job{ID: c.ID, Family: c.Fam, Do: func(w *chk.Worker) {
			k := &chk.CLICase{ID: c.ID, Args: c.Args, Fault: c.Fault, Cwd: c.Cwd}
			for _, f := range c.FS {
				k.FS = append(k.FS, chk.CLIFile(f))
			}
			w.CLI(k)
		}})
	}
	r.Do(js)
	return r.Finish("model_checking", map[string]any{"states": r.Stats["paths"], "transitions": r.Stats["runs"], "traces_validated_against_impl": r.Stats["native_samples"],
		"bounds": "up to 10 arguments, each a symbolic choice out of up to 35 values; file systems as listed; main files with up to 2 symbolic bytes or choices; at most one failing write"},
		[]string{"the file system calls of the command are modelled (gosym/osmodel.go); paths are replayed with the built command as an unprivileged user", "an option given twice with different values is left open"})
}

func init() {
	checks["C19"] = check{opts: []string{"tsh"}, run: cliCheck}
}

func pureCheck(r *chk.Run, th bool) int {
	var js []chk.Job
	for _, c := range gen.C14(th, int64(r.Seed)) {
		c := c
		js = append(js, chk.Job{ID: c.ID, Family: c.Fam, Do: func(w *chk.Worker) {
			k := &chk.PureCase{ID: c.ID, Steps: c.Steps, Maps: c.Maps, Max: c.Max}
			for _, p := range c.Progs {
				k.Progs = append(k.Progs, chk.PureProg(p))
			}
			for _, p := range c.Places {
				k.Places = append(k.Places, chk.Place(p))
			}
			w.Pure(k)
		}})
	}
	r.Do(js)
	return r.Finish("model_checking", map[string]any{"states": r.Stats["paths"], "transitions": r.Stats["transpilations"], "traces_validated_against_impl": r.Stats["native_samples"],
		"bounds": "histories of up to 5 transpilations over up to 4 programs, both targets, one or several transpiler objects; 15 locations; iteration orders: at most two iterating statements (4 orders each) or one single iteration (up to 12 orders) differ from insertion order"},
		[]string{"what the environment supplies (variables, process id, random numbers) is an unknown value; sources outside the modelled ones end a path, which is then replayed natively in processes with different environments"})
}

func init() {
	checks["C14"] = check{run: pureCheck}
}

func init() {
	checks["C18"] = check{run: func(r *chk.Run, th bool) int {
		r.Do(semJobs(gen.C18(th, int64(r.Seed)), "bash", func(p gen.Prog, c *chk.Case) {
			c.Apps, c.Paths, c.AnyErr = true, 4000, strings.Contains(p.Src, "@err(")
		}))
		return r.Finish("model_checking", map[string]any{"states": r.Stats["paths"], "transitions": r.Stats["transpilations"], "traces_validated_against_impl": r.Stats["native_samples"],
			"bounds": "command calls as enumerated; up to 12 arguments, chains of up to 5 commands; symbolic arguments of up to 5 bytes over printable ASCII, tab and newline; exit statuses 0..3 and listed ones up to 255"},
			append([]string{"the called programs are fixed small scripts, modelled in chk/apps.go and installed for replays"}, semAssume...))
	}}
}

func init() {
	checks["C08"] = check{run: func(r *chk.Run, th bool) int {
		r.Do(semJobs(gen.C08(th, int64(r.Seed)), "bash", func(p gen.Prog, c *chk.Case) { c.Apps, c.Paths = true, 6000 }))
		return r.Finish("model_checking", map[string]any{"states": r.Stats["paths"], "transitions": r.Stats["transpilations"], "traces_validated_against_impl": r.Stats["native_samples"],
			"bounds": "sources x sinks x context as enumerated; symbolic strings of up to 3 bytes over printable ASCII, tab and newline, up to 5 bytes over small alphabets of metacharacters"},
			append([]string{"the called programs are fixed small scripts, modelled in chk/apps.go and installed for replays"}, semAssume...))
	}}
	checks["C17"] = check{run: func(r *chk.Run, th bool) int {
		r.Do(semJobs(gen.C17(th, int64(r.Seed)), "bash", func(p gen.Prog, c *chk.Case) { c.Paths = 6000 }))
		return r.Finish("model_checking", map[string]any{"states": r.Stats["paths"], "transitions": r.Stats["transpilations"], "traces_validated_against_impl": r.Stats["native_samples"],
			"bounds": "operation histories as enumerated; symbolic contents of up to 4 bytes over printable ASCII, tab and newline; symbolic file names of up to 3 bytes without / and ."}, semAssume)
	}}
}

func libCheck(r *chk.Run, th bool) int {
	var js []chk.Job
	for _, l := range gen.C15(th, int64(r.Seed)) {
		js = append(js, semJobs([]gen.Prog{l.Prog}, "bash", func(p gen.Prog, c *chk.Case) {
			c.Paths, c.Force = 20000, true
			c.Oracle = chk.StringsOracle(l.Fn, l.Keys, l.Hole, l.Add)
		})...)
	}
	r.Do(js)
	return r.Finish("model_checking", map[string]any{"states": r.Stats["paths"], "transitions": r.Stats["transpilations"], "traces_validated_against_impl": r.Stats["native_samples"],
		"bounds": "every function on symbolic ASCII strings (printable and white space) of all lengths up to 2..5 (separators up to 2..3), counts -2..5"},
		append([]string{"the oracle (chk/golib.go) is compared with Go's package strings on a model of every path"}, semAssume...))
}

func init() {
	checks["C15"] = check{run: libCheck}
}

func init() {
	checks["C09"] = check{run: func(r *chk.Run, th bool) int {
		js := acceptJobs(r, gen.C09Accept(th, int64(r.Seed)), 4)
		var sj []chk.Job
		for _, j := range semJobs(gen.C09(th, int64(r.Seed)), "bash", func(p gen.Prog, c *chk.Case) { c.Paths = 4000 }) {
			if r.Selected(j.ID) {
				sj = append(sj, j)
			}
		}
		var neutral []gen.Prog
		for _, p := range gen.C09(th, int64(r.Seed)) {
			all := p.Src
			for _, f := range p.Files {
				all += f
			}
			if !fileOps.MatchString(all) {
				neutral = append(neutral, p)
			}
		}
		for _, j := range semJobs(neutral, "batch", func(p gen.Prog, c *chk.Case) { c.Paths = 4000 }) {
			if r.Selected(j.ID) {
				sj = append(sj, j)
			}
		}
		r.Only = ""
		r.Do(append(sj, js...))
		return r.Finish("model_checking", map[string]any{"states": r.Stats["paths"], "transitions": r.Stats["transpilations"], "traces_validated_against_impl": r.Stats["native_samples"],
			"bounds": "every import graph over up to 4 files, random modules; the first 32 bits of the digests of imported files are symbolic where listed; symbolic integers"}, semAssume)
	}}
}

func renameJobs(r *chk.Run, th bool, target string) (js []chk.Job) {
	ps, jobs := gen.C10(th, int64(r.Seed))
	for i, p := range ps {
		for _, j := range jobs[i] {
			id := "rename/" + p.ID + "." + j.ID
			if target == "batch" {
				id = "batch:" + id
				if p.ID == "files" || p.ID == "command" { // outside what the model of cmd covers
					continue
				}
			}
			if !r.Selected(id) {
				continue
			}
			c := &chk.Case{ID: id, Fam: "rename", Src: p.Src, Files: p.Files, Target: target, Apps: p.Apps, Paths: 6000, Names: map[string]chk.StrSpec{}}
			if p.Stdin != "" {
				c.Stdin = &chk.StrSpec{Vals: []string{p.Stdin}}
			}
			for n, s := range p.Pre {
				if c.Pre == nil {
					c.Pre = map[string]chk.StrSpec{}
				}
				c.Pre[n] = chk.StrSpec{Vals: []string{s}}
			}
			for n, s := range j.Names {
				sp := chk.StrSpec{Min: s.Min, Max: s.Max, Vals: s.Vals}
				if s.Upper {
					sp.Class = "upper"
				}
				c.Names[n] = sp
			}
			js = append(js, chk.Job{ID: id, Family: p.ID, Do: func(w *chk.Worker) {
				for n, sp := range c.Names {
					if !j.Words {
						break
					}
					words := w.ScriptWords(c)
					seen := map[string]bool{}
					for _, w := range sp.Vals {
						seen[w] = true
					}
					for k, w := range words {
						if len(words) > 120 && !th && k%(len(words)/60) != i%2 { // the library's own names
							continue
						}
						if !seen[w] && (n[0] != 'Q' || w[0] >= 'A' && w[0] <= 'Z') {
							sp.Vals = append(sp.Vals, w)
						}
					}
					c.Names[n] = sp
				}
				w.Sem(c)
			}})
		}
	}
	return
}

func init() {
	checks["C10"] = check{run: func(r *chk.Run, th bool) int {
		js := append(renameJobs(r, th, "bash"), renameJobs(r, th, "batch")...)
		r.Only = ""
		r.Do(js)
		return r.Finish("model_checking", map[string]any{"states": r.Stats["paths"], "transitions": r.Stats["transpilations"], "traces_validated_against_impl": r.Stats["native_samples"],
			"bounds": "programs as listed; one identifier symbolic with up to 2 (thorough: 4) bytes, two with up to 2+1; about 250 words and every word of the emitted script for each identifier; related pairs"}, semAssume)
	}}
}

// fileOps are the calls outside what the model of cmd executes.
var fileOps = regexp.MustCompile(`\b(read|write|input)\(|(^|[^@])@[a-z]`)

var intRe = regexp.MustCompile(`[0-9]{10,}`)
var strRe = regexp.MustCompile("\"(\\\\.|[^\"\\\\])*\"|`[^`]*`")

// neutral tells whether a program has 32-bit integers, literals of the alphabet and none of the builtins whose effects
// are not modelled for Batch.
func neutral(src string) bool {
	for _, n := range intRe.FindAllString(src, -1) {
		if v, err := strconv.ParseInt(n, 10, 64); err != nil || v > 1<<31-1 {
			return false
		}
	}
	for _, l := range strRe.FindAllString(src, -1) {
		if strings.ContainsAny(l[1:len(l)-1], chk.CmdSpecial+"\t\n\r") || strings.Contains(l, "\\n") || strings.Contains(l, "\\t") {
			return false
		}
	}
	for _, c := range []string{"write(", "read(", "input(", "@"} {
		if strings.Contains(strRe.ReplaceAllString(src, ""), c) {
			return false
		}
	}
	return true
}

// batchProgs are the programs of the scalar, function, slice and string fragments for the Batch target.
func batchProgs(r *chk.Run, th bool, seed int64) []gen.Prog {
	var ps []gen.Prog
	for i, g := range []func(bool, int64) []gen.Prog{gen.C01, gen.C02, gen.C03, gen.C04, gen.C05} {
		for _, p := range g(th, seed) {
			p.ID = fmt.Sprintf("C0%d/", i+1) + p.ID
			if !neutral(p.Src) {
				r.Add("outside_fragment", 1)
				continue
			}
			for k, s := range p.Strs {
				if s[2] == "print" || s[2] == "text" || s[2] == "line" || s[2] == "ascii" {
					s[2] = "cmd"
					p.Strs[k] = s
				}
			}
			ps = append(ps, p)
		}
	}
	return ps
}

func init() {
	checks["C05"] = check{run: func(r *chk.Run, th bool) int {
		js := semJobs(batchProgs(r, th, int64(r.Seed)), "batch", nil)
		r.Do(js)
		return r.Finish("model_checking", map[string]any{"states": r.Stats["paths"], "transitions": r.Stats["transpilations"], "traces_validated_against_impl": r.Stats["native_samples"],
			"bounds": "the skeletons of C01-C04; symbolic 32-bit integers (holes 0..2^31-1), strings of cmd-neutral characters"}, semAssume)
	}}
}

// formJobs are the templates of C16: its own, those of C06, C07, C09, C11 and C13 and the programs of the other checks
// with one string literal made symbolic.
func formJobs(r *chk.Run, th bool) (js []chk.Job) {
	seed := int64(r.Seed)
	add := func(f gen.Form) {
		js = append(js, chk.Job{ID: f.ID, Family: f.Fam, Do: func(w *chk.Worker) {
			w.Form(&chk.FormCase{ID: f.ID, Main: f.Main, Files: f.Files, Max: f.Max, Marks: f.Marks})
		}})
	}
	for _, f := range gen.C16(th, seed) {
		add(f)
	}
	every := func(i, n int) bool { return th || (i+int(seed))%n == 0 }
	for i, a := range gen.C07(false, seed) {
		if every(i, 12) {
			add(gen.Form{ID: "C07/" + a.ID, Fam: "C07", Main: a.Main, Files: a.Files, Max: 2500})
		}
	}
	for i, a := range gen.C06(false, seed) {
		if every(i, 10) {
			add(gen.Form{ID: "C06/" + a.ID, Fam: "C06", Main: a.Main, Files: a.Files, Max: 2500})
		}
	}
	for i, a := range gen.C09Accept(false, seed) {
		if every(i, 3) {
			add(gen.Form{ID: "C09/" + a.ID, Fam: "C09", Main: a.Main, Files: a.Files, Max: 2500})
		}
	}
	n := 0
	for k, g := range []func(bool, int64) []gen.Prog{gen.C01, gen.C02, gen.C03, gen.C04, gen.C05, gen.C08, gen.C09, gen.C17, gen.C18, func(bool, int64) []gen.Prog { return gen.Corpus() }} {
		for i, p := range g(false, seed) {
			if k < 5 && !every(i, 5) {
				continue
			}
			src := p.Src
			lits := strRe.FindAllStringIndex(src, -1)
			if k := strings.LastIndex(src, "import"); k >= 0 { // the paths of imports stay
				var l [][]int
				for _, m := range lits {
					line := src[:m[0]]
					line = line[strings.LastIndex(line, "\n")+1:]
					if !strings.Contains(line, "import") && !strings.HasPrefix(line, "\t") {
						l = append(l, m)
					}
				}
				lits = l
			}
			if len(lits) > 0 {
				m := lits[n%len(lits)]
				src = src[:m[1]-1] + "\x01p" + src[m[1]-1:]
			}
			n++
			add(gen.Form{ID: fmt.Sprintf("prog%d/%s", k, p.ID), Fam: fmt.Sprintf("prog%d", k), Main: src, Files: p.Files, Max: 600})
		}
	}
	return
}

func init() {
	checks["C16"] = check{run: func(r *chk.Run, th bool) int {
		r.Do(formJobs(r, th))
		return r.Finish("model_checking", map[string]any{"states": r.Stats["paths"], "transitions": r.Stats["transpilations"], "traces_validated_against_impl": r.Stats["native_samples"],
			"bounds": "templates with up to 9 nested or 24 consecutive constructs, 13 functions; up to 9 places with symbolically selected statements; literals with up to 2 symbolic bytes (printable ASCII, tab, CR, LF)"},
			[]string{"the grammar of Bash is bashsym's (every accepted path is sampled with the real bash -n), that of cmd.exe batsym's", "programs called by the script are not named like cmd keywords"})
	}}
}
