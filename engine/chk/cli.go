package chk

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"verif/gosym"
	"verif/harness"
	"verif/sym"
)

// CLIFile is an entry of the file system the command runs on.
type CLIFile struct {
	Path    string
	Text    string // template
	Dir     bool
	NoRead  bool
	NoWrite bool
}

// CLICase: the command is run with N arguments, each out of its own list.
type CLICase struct {
	ID    string
	Args  [][]string
	FS    []CLIFile
	Fault bool // one of the writes may fail
	Cwd   string
}

const cliRoot = "/w"

// cliExpect states what the command has to do.
type cliExpect struct {
	fail    bool // must fail
	open    bool // the statement leaves the outcome open
	why     string
	outs    []string // written files in order (absolute)
	targets []string
	in      string
	failing int // index of the target that fails, len(targets) if none
}

var cliExt = map[string]string{"bash": "sh", "batch": "bat"}

// expectCLI reads the arguments from left to right.
func expectCLI(n int, arg func(int) string, look func(string) *CLIFile, abs func(string) string, lib func(in, target string) bool) (e cliExpect) {
	bad := func(w string) cliExpect { return cliExpect{fail: true, why: w} }
	var ins, dirs []string
	for i := 0; i < n; i += 2 {
		if i+1 >= n {
			return bad("option without value")
		}
		o := arg(i)
		v := ""
		switch o {
		case "-i", "--in":
			v = arg(i + 1)
			f := look(v)
			if f == nil || f.Dir {
				return bad("input is no file: " + v)
			}
			ins = append(ins, v)
		case "-o", "--out":
			v = arg(i + 1)
			f := look(v)
			if f == nil || !f.Dir {
				return bad("output is no directory: " + v)
			}
			dirs = append(dirs, v)
		case "-t", "--type":
			v = arg(i + 1)
			if cliExt[v] == "" {
				return bad("unknown target " + v)
			}
			e.targets = append(e.targets, v)
		default:
			return bad("unknown option " + o)
		}
	}
	if len(ins) == 0 || len(dirs) == 0 || len(e.targets) == 0 {
		return bad("an option is missing")
	}
	for _, l := range [][]string{ins, dirs} {
		for _, v := range l[1:] {
			if v != l[0] {
				return cliExpect{open: true, why: "an option is given twice with different values"}
			}
		}
	}
	e.in = ins[0]
	base := filepath.Base(abs(e.in))
	if x := strings.LastIndexByte(base, '.'); x >= 0 {
		base = base[:x]
	}
	e.failing = len(e.targets)
	for k, t := range e.targets {
		out := filepath.Join(abs(dirs[0]), base+"."+cliExt[t])
		e.outs = append(e.outs, out)
		f := look(out)
		d := look(dirs[0])
		w := ""
		switch {
		case look(e.in).NoRead:
			w = "unreadable input"
		case !lib(e.in, t):
			w = "the library rejects the program"
		case out == abs(e.in):
			w = "the output is the input"
		case f != nil && f.Dir:
			w = "the output is a directory"
		case f != nil && f.NoWrite || f == nil && d.NoWrite:
			w = "the output can't be written"
		}
		if w != "" && e.failing == len(e.targets) {
			e.fail, e.why, e.failing = true, w, k
		}
	}
	return e
}

func sorted(m map[string]bool) (r []string) {
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return
}

// judge compares the files before and after; eq tells whether a file has the library's output for a target.
func (e *cliExpect) judge(exit int, before, after map[string]bool, same func(path string) bool, isOut func(path, target string) bool) string {
	if e.open {
		for _, p := range sorted(before) {
			if !strings.HasPrefix(p, cliRoot+"/out") && (!after[p] || !same(p)) {
				return "a file is changed: " + p
			}
		}
		return ""
	}
	var changed []string
	for _, p := range sorted(before) {
		if !after[p] || !same(p) {
			changed = append(changed, p)
		}
	}
	for _, p := range sorted(after) {
		if !before[p] {
			changed = append(changed, p)
		}
	}
	sort.Strings(changed)
	if e.fail && exit == 0 {
		return "exit status 0, expected a failure: " + e.why
	}
	if !e.fail && exit != 0 {
		return fmt.Sprintf("exit status %d for a valid call", exit)
	}
	tgt := map[string]string{}
	for k, o := range e.outs {
		tgt[o] = e.targets[k]
	}
	for _, p := range changed {
		t, ok := tgt[p]
		if !ok {
			return "an unrelated file is changed: " + p
		}
		if e.failing < len(e.targets) && e.targets[e.failing] == t {
			return "the output of the failing target is changed: " + p
		}
		if !isOut(p, t) {
			return "the output differs from the library's: " + p
		}
	}
	if !e.fail {
		for k, o := range e.outs {
			if !after[o] || !isOut(o, e.targets[k]) {
				return "missing or wrong output " + o
			}
		}
	}
	return ""
}

// CLI decides one case.
func (w *Worker) CLI(c *CLICase) {
	x := &sym.Explorer{F: w.F, S: w.S, MaxPaths: 300000}
	main := w.R.P.Func("", "main")
	if main == nil {
		w.R.Note("no main function", c.ID)
		return
	}
	cwd := c.Cwd
	if cwd == "" {
		cwd = cliRoot
	}
	abs := func(p string) string {
		if !filepath.IsAbs(p) {
			p = filepath.Join(cwd, p)
		}
		return filepath.Clean(p)
	}
	base := map[string]Script{} // outputs of programs without symbolic bytes
	var covers []*sym.Term
	input := w.F.True
	x.Run(func(p *sym.Path) {
		if w.R.Stopped() || w.jobBad {
			return
		}
		m := w.M
		// arguments are chosen when they are read
		got := make([]string, len(c.Args))
		have := make([]bool, len(c.Args))
		input = p.F.True
		for i, l := range c.Args {
			v := p.F.Var(fmt.Sprintf("arg%d", i), 8)
			p.Assume(p.F.Ule(v, p.F.BV(int64(len(l)-1), 8)))
		}
		arg := func(i int) string {
			if !have[i] {
				got[i] = c.Args[i][p.Concretize(p.F.Var(fmt.Sprintf("arg%d", i), 8), 256)]
				have[i] = true
			}
			return got[i]
		}
		texts := map[string]sym.Str{}
		var vars []*sym.Term
		byPath := map[string]*CLIFile{"/": {Dir: true}}
		fs := gosym.NewVFS()
		fs.MkdirAll(cliRoot)
		fs.MkdirAll(cwd)
		for i := range c.FS {
			f := &c.FS[i]
			if f.Dir {
				fs.MkdirAll(f.Path)
				fs.Files[f.Path].NoWrite = f.NoWrite
			} else {
				t, vs := Tmpl{Text: f.Text}.SourceVars(p)
				vars = append(vars, vs...)
				texts[f.Path] = t
				fs.Put(f.Path, t)
				fs.Files[f.Path].NoRead, fs.Files[f.Path].NoWrite = f.NoRead, f.NoWrite
			}
			byPath[f.Path] = f
		}
		for q, n := range fs.Files {
			if byPath[q] == nil && n.Dir {
				byPath[q] = &CLIFile{Path: q, Dir: true}
			}
		}
		for n, s := range w.R.StdFiles() {
			fs.PutString("/opt/tsh/std/"+n, s)
		}
		for _, l := range p.PC() {
			input = p.F.And(input, l)
		}
		look := func(s string) *CLIFile {
			if s == "" {
				return nil
			}
			if strings.HasSuffix(s, "/") {
				if f := byPath[abs(s)]; f != nil && !f.Dir {
					return nil
				}
			}
			return byPath[abs(s)]
		}
		begin := func() {
			m.IntHoles, m.StrHoles, m.HashHoles = nil, nil, nil
			m.OpaqueHash = true
			m.Begin(p)
			m.LazyArg = nil
			m.Args = nil
		}
		lib := func(in, target string) Script {
			k := abs(in) + " " + target
			if s, ok := base[k]; ok {
				return s
			}
			old, oc := m.FS, m.Cwd
			m.FS, m.Cwd = fs.Clone(), cwd
			begin()
			o := m.Protect(func() gosym.Value { return harness.Transpile(m, abs(in), target) })
			m.FS, m.Cwd = old, oc
			s := Script{}
			if o.Ret == nil {
				s.Crash = "no result"
			} else {
				tp := o.Ret.(gosym.Tuple)
				_, isErr := m.ErrText(tp[1])
				s.Out, s.IsErr = harness.StrOf(tp[0]), isErr
			}
			if _, ok := texts[abs(in)].Concrete(); ok {
				base[k] = s
			}
			w.R.Add("transpilations", 1)
			return s
		}
		full := func(md sym.Model) ([]string, map[string]string) {
			var as []string
			for i := range c.Args {
				as = append(as, c.Args[i][min(int(md[p.F.Var(fmt.Sprintf("arg%d", i), 8)]), len(c.Args[i])-1)])
			}
			ts := map[string]string{}
			for q, t := range texts {
				ts[q] = t.Eval(md)
			}
			return as, ts
		}
		defer func() {
			if e := recover(); e != nil {
				a, ok := e.(sym.Abort)
				if !ok || a.Kind == "infeasible" {
					panic(e)
				}
				w.R.Note("inconclusive: "+head(a.Error(), 90), c.ID)
				w.R.Add("inconclusive_paths", 1)
				if md, ok := p.Model(); ok && w.replays < 40 {
					w.replays++
					as, ts := full(md)
					w.nativeCLI(c, cwd, as, ts)
				}
				panic(e)
			}
		}()
		begin()
		m.OpaqueHash = true
		m.FS, m.Cwd = fs.Clone(), cwd
		fault := ""
		faults := 0
		if c.Fault {
			m.FS.Fault = func(op, path string) string {
				if (op == "write" || op == "open") && fault == "" && faults < 4 {
					faults++
					if p.Choose(2) == 1 {
						fault = op + " " + path
						return "input/output error"
					}
				}
				return ""
			}
		}
		m.Args = make([]string, len(c.Args)+1)
		m.LazyArg = func(i int) string {
			if i == 0 {
				return "/opt/tsh/tsh"
			}
			return arg(i - 1)
		}
		o := m.Protect(func() gosym.Value { return m.Call(main, nil) })
		m.LazyArg = nil
		afterFS := m.FS
		m.FS.Fault = nil
		w.R.Add("runs", 1)
		exit := 0
		switch {
		case o.Panic != nil:
			exit = 2
		case o.Exit != nil:
			exit = int(*o.Exit)
		case o.Limit != "":
			exit = -1
		}
		// the reference reads the arguments as well (which may fix some that the command did not look at)
		libOK := func(in, t string) bool { s := lib(in, t); return !s.IsErr && s.Crash == "" }
		e := expectCLI(len(c.Args), arg, look, abs, libOK)
		before, after := map[string]bool{}, map[string]bool{}
		for q, n := range fs.Files {
			if !n.Dir {
				before[q] = true
			}
		}
		for q, n := range afterFS.Files {
			if !n.Dir {
				after[q] = true
			}
		}
		ok := p.F.True
		eq := func(a, b sym.Str) bool {
			t := p.StrEq(a, b)
			if t.IsTrue() || t.IsFalse() {
				return t.IsTrue()
			}
			ok = p.F.And(ok, t)
			return true
		}
		d := ""
		if fault != "" {
			if !e.fail && !e.open && exit == 0 {
				d = "exit status 0 although an operation failed: " + fault
			}
			if n := afterFS.Files[abs(e.in)]; d == "" && e.in != "" && (n == nil || !eq(n.Content, fs.Files[abs(e.in)].Content)) {
				d = "the input is changed"
			}
		} else {
			d = e.judge(exit, before, after, func(q string) bool { return eq(fs.Files[q].Content, afterFS.Files[q].Content) },
				func(q, t string) bool { return eq(afterFS.Files[q].Content, lib(e.in, t).Out) })
		}
		if o.Limit != "" {
			d = "no termination"
		}
		pc := p.F.True
		for _, l := range p.PC() {
			pc = p.F.And(pc, l)
		}
		if !c.Fault {
			covers = append(covers, pc)
		}
		w.R.Add("paths", 1)
		if e.open {
			w.R.Add("unspecified", 1)
		}
		if exit == 0 {
			w.R.Add("exit_zero", 1)
		} else {
			w.R.Add("exit_nonzero", 1)
		}
		if d != "" {
			ok = p.F.False
		}
		res, md := p.Check(ok)
		if res == sym.Unsat {
			w.R.Add("discharged", 1)
			if fault == "" && (w.replays < 6 || exit == 0 && w.replays < 14) {
				w.replays++
				if md, k := p.Model(); k {
					as, ts := full(md)
					w.R.Add("native_samples", 1)
					w.nativeCLI(c, cwd, as, ts)
					w.R.Sample(map[string]any{"case": c.ID, "args": as, "exit": exit})
				}
			}
			return
		}
		if md == nil {
			md, _ = p.Model()
		}
		as, ts := full(md)
		if fault != "" { // an I/O error can't be produced at will on the real system; the encoded run is the evidence
			if r := w.faultCLI(c, cwd, as, ts); r != "" {
				w.jobBad = true
				w.R.Violate(c.ID, fmt.Sprintf("tsh %q with %s failing: %s (%s)", as, fault, d, r), ts)
			} else {
				w.R.Note("model mismatch", c.ID+": "+d)
			}
			return
		}
		if !w.nativeCLI(c, cwd, as, ts) {
			w.R.Note("model mismatch", fmt.Sprintf("%s: %q: %s (exit %d)", c.ID, as, d, exit))
		}
	})
	if len(covers) > 1 && len(covers) <= 400 {
		w.coverage(c.ID, x, input, covers)
	}
	w.finishExplorer(c.ID, x)
}

// runTsh runs the built command as an unprivileged user in dir.
func (w *Worker) runTsh(dir string, args []string, limitFile bool) (int, string) {
	cmd := exec.Command(w.R.N.Tsh, args...)
	if limitFile {
		cmd = exec.Command("/bin/bash", append([]string{"-c", "ulimit -f 0; trap '' XFSZ; exec \"$@\"", "x", w.R.N.Tsh}, args...)...)
	}
	cmd.Dir = dir
	cmd.Env = []string{"PATH=/usr/bin:/bin"}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
	var eb strings.Builder
	cmd.Stderr = &eb
	if err := cmd.Start(); err != nil {
		return -1, err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		return -2, "timeout"
	}
	return cmd.ProcessState.ExitCode(), eb.String()
}

// setupCLI creates the file system of the case below a scratch directory.
func (w *Worker) setupCLI(c *CLICase, cwd string, texts map[string]string) (root string) {
	os.Chmod(w.R.Scratch, 0711)
	os.Chmod(w.Dir, 0711)
	root = filepath.Join(w.Dir, "cli")
	os.RemoveAll(root)
	os.MkdirAll(root, 0755)
	os.MkdirAll(filepath.Join(root, cwd), 0755)
	for _, f := range c.FS {
		q := filepath.Join(root, f.Path)
		if f.Dir {
			os.MkdirAll(q, 0755)
		} else {
			os.MkdirAll(filepath.Dir(q), 0755)
			os.WriteFile(q, []byte(texts[f.Path]), 0644)
		}
	}
	filepath.Walk(root, func(q string, i os.FileInfo, err error) error { os.Chown(q, 65534, 65534); return nil })
	for _, f := range c.FS {
		q := filepath.Join(root, f.Path)
		mode := os.FileMode(0644)
		if f.Dir {
			mode = 0755
		}
		if f.NoRead {
			mode &^= 0444
		}
		if f.NoWrite {
			mode &^= 0222
		}
		os.Chmod(q, mode)
	}
	return root
}

func readTree(root string) map[string]string {
	r := map[string]string{}
	filepath.Walk(root, func(q string, i os.FileInfo, err error) error {
		if err == nil && i.Mode().IsRegular() {
			b, _ := os.ReadFile(q)
			r[strings.TrimPrefix(q, root)] = string(b)
		}
		return nil
	})
	return r
}

func inRoot(root string, args []string) []string {
	r := append([]string{}, args...)
	for i := range r {
		if strings.HasPrefix(r[i], "/") {
			r[i] = root + r[i]
		}
	}
	return r
}

// nativeCLI runs the real command and judges it; it reports a violation and returns true when it fails.
func (w *Worker) nativeCLI(c *CLICase, cwd string, args []string, texts map[string]string) bool {
	w.R.Add("native_replays", 1)
	root := w.setupCLI(c, cwd, texts)
	defer os.RemoveAll(root)
	before := readTree(root)
	byPath := map[string]*CLIFile{"/": {Dir: true}}
	filepath.Walk(root, func(q string, i os.FileInfo, err error) error {
		if err == nil {
			byPath[strings.TrimPrefix(q, root)] = &CLIFile{Dir: i.IsDir()}
		}
		return nil
	})
	for i := range c.FS {
		byPath[c.FS[i].Path] = &c.FS[i]
	}
	abs := func(p string) string {
		if !filepath.IsAbs(p) {
			p = filepath.Join(cwd, p)
		}
		return filepath.Clean(p)
	}
	look := func(s string) *CLIFile {
		if s == "" {
			return nil
		}
		f := byPath[abs(s)]
		if f != nil && !f.Dir && strings.HasSuffix(s, "/") {
			return nil
		}
		return f
	}
	libs := map[string]harness.Result{}
	lib := func(in, t string) harness.Result {
		if r, ok := libs[in+" "+t]; ok {
			return r
		}
		r := w.R.N.Transpile(filepath.Join(root, abs(in)), t)
		libs[in+" "+t] = r
		return r
	}
	e := expectCLI(len(args), func(i int) string { return args[i] }, look, abs, func(in, t string) bool { r := lib(in, t); return !r.IsErr && r.Panic == "" })
	for _, t := range e.targets {
		lib(e.in, t)
	}
	exit, msg := w.runTsh(filepath.Join(root, cwd), inRoot(root, args), false)
	if exit == -1 && strings.Contains(msg, "permitted") {
		w.R.Note("the command can't be run as another user", msg)
		return false
	}
	aft := readTree(root)
	bs, as := map[string]bool{}, map[string]bool{}
	for q := range before {
		bs[q] = true
	}
	for q := range aft {
		as[q] = true
	}
	d := e.judge(exit, bs, as, func(q string) bool { return before[q] == aft[q] }, func(q, t string) bool { return aft[q] == lib(e.in, t).Out })
	if d == "" {
		return false
	}
	w.jobBad = true
	w.R.Violate(c.ID, fmt.Sprintf("tsh %q (in %s): %s\nexit status %d, %s", args, cwd, d, exit, head(msg, 300)), texts)
	return true
}

// faultCLI makes every write fail on the real system.
func (w *Worker) faultCLI(c *CLICase, cwd string, args []string, texts map[string]string) string {
	root := w.setupCLI(c, cwd, texts)
	defer os.RemoveAll(root)
	before := readTree(root)
	exit, _ := w.runTsh(filepath.Join(root, cwd), inRoot(root, args), true)
	if exit == 0 {
		return "the real command exits with 0 when files can't be written"
	}
	for q, s := range readTree(root) {
		if b, ok := before[q]; ok && b != s && !strings.HasPrefix(q, cliRoot+"/out") {
			return "the real command changes " + q
		}
	}
	return ""
}
