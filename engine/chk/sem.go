package chk

import (
	"crypto/sha256"
	"encoding"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/bashsym"
	"verif/batsym"
	"verif/gosym"
	"verif/harness"
	"verif/sym"
	"verif/ts"
)

// StrSpec is the range of a symbolic string.
type StrSpec struct {
	Min, Max int
	Class    string // print (0x20..0x7e), text (print, \t, \n), line (print, \t), ascii (1..127), neutral, alpha "xyz"
	Vals     []string
}

// Case is one program skeleton with symbolic inputs.
//
// Integer tokens 8100NNN of the source are holes over the whole integer range, 8200NNN over 0..3 and
// 8300NNN over 0..1. String literals whose content is a key of Strs are symbolic strings.
type Case struct {
	ID, Fam string
	Src     string            // main file
	Files   map[string]string // further files relative to the main file's directory
	Main    string            // name of the main file (main.tsh)
	Strs    map[string]StrSpec
	Stdin   *StrSpec
	Pre     map[string]StrSpec // files existing at run time (content)
	Target  string             // bash or batch
	Width   uint8
	Steps   int
	Paths   int
	NoExec  bool // only acceptance
	NoStd   bool // do not compare stdout/status (only files)
	AnyErr  bool // commands of the program write to standard error
	Apps    bool
	// Force: the program is known to be valid even if the reference is unsure.
	Force bool
	// Hash: imported files whose digest is symbolic.
	Hash []string
	// Names: identifiers of the sources (all files) that are renamed to symbolic identifiers (class ident, or upper for
	// names that stay public) or chosen words. A renamed program may be rejected.
	Names map[string]StrSpec
	// Oracle replaces the reference semantics: the expected output for the given strings and integers.
	Oracle func(p *sym.Path, strs map[string]sym.Str, ints map[string]*sym.Term) sym.Str
}

var holeRe = regexp.MustCompile(`\b8([123])00(\d\d\d)\b`)

// inst is a symbolic instantiation of a case on one outer path.
type inst struct {
	c     *Case
	ints  map[string]*sym.Term
	strs  map[string]sym.Str
	stdin sym.Str
	pre   map[string]sym.Str
	files map[string]string
	hash  map[string]sym.Str // file content -> digest
	names map[string]sym.Str // identifier -> new name
}

// CmdSpecial are the characters outside the alphabet of the Batch checks.
const CmdSpecial = "\"%^!&|<>"

func inClass(f *sym.Factory, t *sym.Term, class string) *sym.Term {
	rng := func(lo, hi byte) *sym.Term {
		return f.And(f.Ule(f.BV(int64(lo), 8), t), f.Ule(t, f.BV(int64(hi), 8)))
	}
	one := func(c byte) *sym.Term { return f.Eq(t, f.BV(int64(c), 8)) }
	switch class {
	case "print":
		return rng(32, 126)
	case "text":
		return f.Or(rng(32, 126), f.Or(one('\n'), one('\t')))
	case "line":
		return f.Or(rng(32, 126), one('\t'))
	case "ascii":
		return f.Or(rng(32, 126), rng(9, 13))
	case "plain": // ASCII without the characters that literals escape
		r := f.Or(rng(32, 126), rng(9, 13))
		for _, c := range "\"$`\\" {
			r = f.And(r, f.Not(one(byte(c))))
		}
		return r
	case "control":
		return rng(1, 127)
	case "neutral": // letters, digits, blanks and punctuation that neither shell treats specially
		r := f.Or(rng('a', 'z'), f.Or(rng('A', 'Z'), rng('0', '9')))
		return f.Or(r, f.Or(one('_'), f.Or(one('.'), f.Or(one(' '), one('-')))))
	case "cmd": // no special meaning to cmd.exe between quotes or in a variable
		r := rng(32, 126)
		for _, c := range CmdSpecial {
			r = f.And(r, f.Not(one(byte(c))))
		}
		return r
	case "cmdnl":
		return f.Or(inClass(f, t, "cmd"), one('\n'))
	case "name": // file names: no separators, no dots
		return f.And(f.Or(rng(32, 126), one('\t')), f.Not(f.Or(one('/'), one('.'))))
	case "ident":
		return f.Or(rng('a', 'z'), f.Or(rng('A', 'Z'), f.Or(one('_'), rng('0', '9'))))
	case "upper":
		return rng('A', 'Z')
	case "word":
		return f.Or(rng('a', 'z'), f.Or(rng('A', 'Z'), rng('0', '9')))
	}
	if strings.HasPrefix(class, "alpha:") {
		r := f.False
		for _, c := range []byte(class[6:]) {
			r = f.Or(r, one(c))
		}
		return r
	}
	panic("class " + class)
}

// mkStr makes a symbolic string with the chosen length.
func mkStr(p *sym.Path, name string, s StrSpec) sym.Str {
	if len(s.Vals) > 0 {
		return sym.Lit(s.Vals[p.Choose(len(s.Vals))])
	}
	n := s.Min + p.Choose(s.Max-s.Min+1)
	var ts []*sym.Term
	for i := 0; i < n; i++ {
		t := p.F.Var(fmt.Sprintf("%s_%d_%d", name, n, i), 8)
		p.Assume(inClass(p.F, t, s.Class))
		ts = append(ts, t)
	}
	return sym.ByteStr(ts...)
}

func (c *Case) files() map[string]string {
	main := c.Main
	if main == "" {
		main = "main.tsh"
	}
	fs := map[string]string{"/work/" + main: c.Src}
	for n, s := range c.Files {
		fs[filepath.Join("/work", n)] = s
	}
	return fs
}

func (c *Case) mainPath() string {
	if c.Main == "" {
		return "/work/main.tsh"
	}
	return "/work/" + c.Main
}

// symbolise introduces the symbolic inputs on path p.
func (c *Case) symbolise(p *sym.Path) *inst {
	f := p.F
	in := &inst{c: c, ints: map[string]*sym.Term{}, strs: map[string]sym.Str{}, pre: map[string]sym.Str{}, files: c.files()}
	var names []string
	for n := range in.files {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		for _, m := range holeRe.FindAllStringSubmatch(in.files[n], -1) {
			if in.ints[m[0]] != nil {
				continue
			}
			v := f.Var("i"+m[0], 64)
			hi := int64(1<<63 - 1)
			if c.Width == 32 {
				v, hi = f.Var("i"+m[0], 32), 1<<31-1
			}
			t := f.SExt(v, 64)
			in.ints[m[0]] = t
			switch m[1] {
			case "2":
				hi = 3
			case "3":
				hi = 1
			}
			p.Assume(f.And(f.Sle(f.BV(0, 64), t), f.Sle(t, f.BV(hi, 64))))
		}
	}
	for _, n := range sortedStr(c.Strs) {
		in.strs[n] = mkStr(p, "s_"+n, c.Strs[n])
	}
	in.rename(p)
	for _, n := range c.Hash {
		text := in.files[filepath.Join("/work", n)]
		if in.hash == nil {
			in.hash = map[string]sym.Str{}
		}
		if in.hash[text] != nil {
			continue
		}
		d := sha256.Sum256([]byte(text))
		h := sym.Lit(string(d[:]))
		for i := 0; i < 4; i++ {
			h[i] = sym.ByteCh(f.Var(fmt.Sprintf("hash%d_%d", len(in.hash), i), 8))
		}
		in.hash[text] = h
	}
	if len(in.hash) > 1 {
		// several digests: the third to seventh digit of each are of one kind (0-9 or a-f)
		var texts []string
		for t := range in.hash {
			texts = append(texts, t)
		}
		sort.Strings(texts)
		for _, t := range texts {
			letter := p.Choose(2) == 1
			for i := 2; i < 7; i++ {
				nib := f.Bin(sym.OBAnd, in.hash[t][i/2].T, f.BV(15, 8))
				if i%2 == 0 {
					nib = f.Bin(sym.OLShr, in.hash[t][i/2].T, f.BV(4, 8))
				}
				digit := f.Ult(nib, f.BV(10, 8))
				if letter {
					digit = f.Not(digit)
				}
				p.Assume(digit)
			}
		}
	}
	if c.Stdin != nil {
		in.stdin = mkStr(p, "stdin", *c.Stdin)
	}
	for _, n := range sortedStr(c.Pre) {
		in.pre[n] = mkStr(p, "f_"+n, c.Pre[n])
	}
	return in
}

var identRe = regexp.MustCompile(`[A-Za-z_][A-Za-z0-9_]*`)

// rename introduces the new names: pairwise different, different from the other identifiers and from keywords.
func (in *inst) rename(p *sym.Path) {
	c, f := in.c, p.F
	if len(c.Names) == 0 {
		return
	}
	in.names = map[string]sym.Str{}
	var taken []sym.Str
	for _, k := range ts.Keywords() {
		taken = append(taken, sym.Lit(k))
	}
	seen := map[string]bool{}
	for _, n := range sortedStr(in.files) {
		toks, _ := ts.Tokenize(in.files[n])
		for _, t := range toks {
			if _, ok := c.Names[t.Text]; t.Kind == ts.KIdent && !seen[t.Text] && !ok {
				seen[t.Text] = true
				taken = append(taken, sym.Lit(t.Text))
			}
		}
	}
	for _, n := range sortedStr(c.Names) {
		sp := c.Names[n]
		cl := sp.Class
		sp.Class = "ident"
		s := mkStr(p, "n_"+n, sp)
		if s[0].IsByte() {
			if cl == "upper" {
				p.Assume(inClass(f, s[0].T, cl))
			} else {
				p.Assume(f.Ule(f.BV('A', 8), s[0].T))
			}
		}
		for _, t := range taken {
			if len(t) == len(s) {
				if eq := p.StrEq(s, t); !eq.IsFalse() {
					p.Assume(f.Not(eq))
				}
			}
		}
		taken = append(taken, s)
		in.names[n] = s
	}
}

// source is the text of a file with the new names.
func (in *inst) source(n string) sym.Str {
	s := in.files[n]
	if len(in.names) == 0 {
		return sym.Lit(s)
	}
	var out sym.Str
	last := 0
	for _, m := range identRe.FindAllStringIndex(s, -1) {
		if v, ok := in.names[s[m[0]:m[1]]]; ok {
			out = append(append(out, sym.Lit(s[last:m[0]])...), v...)
			last = m[1]
		}
	}
	return append(out, sym.Lit(s[last:])...)
}

func sortedStr[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// quote renders a string literal of the source language.
func quote(s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for i := 0; i < len(s); i++ {
		switch c := s[i]; c {
		case '"', '\\':
			sb.WriteByte('\\')
			sb.WriteByte(c)
		case '\n':
			sb.WriteString(`\n`)
		case '\t':
			sb.WriteString(`\t`)
		case '\r':
			sb.WriteString(`\r`)
		case '\v':
			sb.WriteString(`\v`)
		case '\f':
			sb.WriteString(`\f`)
		default:
			if c < 32 || c == 127 {
				fmt.Fprintf(&sb, `\x%02x`, c)
				continue
			}
			sb.WriteByte(c)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

// concrete renders the sources under a model.
func (in *inst) concrete(m sym.Model) map[string]string {
	out := map[string]string{}
	for n := range in.files {
		s := in.source(n).Eval(m)
		s = holeRe.ReplaceAllStringFunc(s, func(h string) string {
			return strconv.FormatInt(int64(sym.Eval(in.ints[h], m, nil)), 10)
		})
		for k, v := range in.strs {
			s = strings.ReplaceAll(s, `"`+k+`"`, quote(v.Eval(m)))
		}
		out[n] = s
	}
	return out
}

// StdFiles returns the bundled library of the current tree.
func (r *Run) StdFiles() map[string]string {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.std == nil {
		r.std = map[string]string{}
		fs, _ := filepath.Glob(filepath.Join(harness.RepoDir, "std", "*"))
		for _, f := range fs {
			b, _ := os.ReadFile(f)
			r.std[filepath.Base(f)] = string(b)
		}
	}
	return r.std
}

// Sources builds the reference's view of a file set.
func (r *Run) Sources(files map[string]string) ts.Sources {
	s := ts.Sources{Files: map[string]string{}, Std: map[string]string{}}
	for n, t := range files {
		s.Files[n] = t
	}
	for n, t := range r.StdFiles() {
		p := "/opt/tsh/std/" + n
		s.Files[p] = t
		s.Std[strings.TrimSuffix(n, ".tsh")] = p
	}
	return s
}

// reference gives the expected behaviour on path p.
func (c *Case) reference(p *sym.Path, prog *ts.Prog, o ts.Options) *ts.Result {
	if c.Oracle == nil {
		return ts.Run(p, prog, o)
	}
	return &ts.Result{Out: c.Oracle(p, o.StrHoles, o.IntHoles), Status: p.F.BV(0, 64), Files: &ts.Files{}, Steps: 4000}
}

// Script is the outcome of a symbolic transpilation.
type Script struct {
	Out   sym.Str
	Err   sym.Str
	IsErr bool
	Crash string
}

// transpile runs the repository's transpiler symbolically on the current path.
func (w *Worker) transpile(p *sym.Path, in *inst, target string) Script {
	m := w.M
	m.IntHoles = in.ints
	m.StrHoles = in.strs
	m.HashHoles = in.hash
	m.FS = gosym.NewVFS()
	for n := range in.files {
		m.FS.Put(n, in.source(n))
	}
	for n, s := range w.R.StdFiles() {
		m.FS.PutString("/opt/tsh/std/"+n, s)
	}
	m.OpaqueHash = len(in.names) > 0
	defer func() { m.OpaqueHash = false }()
	m.Begin(p)
	o := m.Protect(func() gosym.Value { return harness.Transpile(m, in.c.mainPath(), target) })
	w.R.Add("transpilations", 1)
	switch {
	case o.Panic != nil:
		return Script{Crash: "panic: " + o.Panic.Runtime}
	case o.Limit != "":
		return Script{Crash: "limit: " + o.Limit}
	case o.Exit != nil:
		return Script{Crash: "exit"}
	}
	t := o.Ret.(gosym.Tuple)
	e, isErr := m.ErrText(t[1])
	return Script{Out: harness.StrOf(t[0]), Err: harness.StrOf(e), IsErr: isErr}
}

// refRun is a concrete run of the reference.
type refRun struct {
	out    string
	status int
	files  map[string]string
	ok     bool
	why    string
}

func (w *Worker) refConcrete(prog *ts.Prog, in *inst, m sym.Model) (r refRun) {
	x := &sym.Explorer{F: w.F, S: w.S, MaxPaths: 2}
	x.Run(func(p *sym.Path) {
		defer func() {
			if e := recover(); e != nil {
				if a, ok := e.(sym.Abort); ok {
					r.why = a.Error()
					return
				}
				panic(e)
			}
		}()
		o := ts.Options{IntHoles: map[string]*sym.Term{}, StrHoles: map[string]sym.Str{}, Width: in.c.Width, Stdin: sym.Lit(in.stdin.Eval(m)), MaxSteps: 100000, Files: &ts.Files{}}
		for k, t := range in.ints {
			o.IntHoles[k] = w.F.BV(int64(sym.Eval(t, m, nil)), 64)
		}
		for k, s := range in.strs {
			o.StrHoles[k] = sym.Lit(s.Eval(m))
		}
		for _, k := range sortedStr(in.pre) {
			o.Files.Put(sym.Lit(k), sym.Lit(in.pre[k].Eval(m)))
		}
		if in.c.Apps {
			o.App = refApps(p)
		}
		res := in.c.reference(p, prog, o)
		r.out = res.Out.Eval(nil)
		r.status = int(sym.Eval(res.Status, nil, nil))
		r.files = map[string]string{}
		for i, n := range res.Files.Names {
			r.files[filepath.Clean(n.Eval(nil))] = res.Files.Data[i].Eval(nil)
		}
		r.ok = true
	})
	return r
}

// materialise writes the concrete sources below the worker directory and returns the main path.
func (w *Worker) materialise(files map[string]string, main string) string {
	src := filepath.Join(w.Dir, "src")
	os.RemoveAll(src)
	for n, s := range files {
		p := filepath.Join(src, n)
		os.MkdirAll(filepath.Dir(p), 0755)
		os.WriteFile(p, []byte(s), 0644)
	}
	return filepath.Join(src, main)
}

// clearRun empties the run directory and puts the pre-existing files.
func (w *Worker) clearRun(pre map[string]string, apps bool) {
	d := filepath.Join(w.Dir, "w")
	os.RemoveAll(d)
	os.MkdirAll(d, 0755)
	for n, s := range pre {
		os.MkdirAll(filepath.Dir(filepath.Join(d, n)), 0755)
		os.WriteFile(filepath.Join(d, n), []byte(s), 0644)
	}
	if apps {
		installApps(filepath.Join(w.Dir, "bin"))
	}
}

func snapshot(dir string) map[string]string {
	out := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return nil
		}
		b, _ := os.ReadFile(p)
		rel, _ := filepath.Rel(dir, p)
		out[rel] = string(b)
		return nil
	})
	return out
}

// native replays one concrete instance on the natively built code; diff is empty when it agrees with the reference.
func (w *Worker) native(prog *ts.Prog, in *inst, m sym.Model) (diff string, script string, r refRun) {
	diff, script, r = w.nativeFiles(prog, in, m, in.concrete(m))
	if diff == "" && len(in.hash) > 0 && !w.sampling {
		files, ok := in.rehash(m)
		if !ok {
			w.R.Note("no file with the required digest", in.c.ID)
			return
		}
		if diff, script, r = w.nativeFiles(prog, in, m, files); diff != "" {
			in.files = files
		}
	}
	return
}

// rehash appends comments to the files so that their digests start as the model demands.
func (in *inst) rehash(m sym.Model) (map[string]string, bool) {
	files := in.concrete(m)
	done := map[string]string{}
	for n, text := range in.files {
		h, ok := in.hash[text]
		if !ok {
			continue
		}
		if s, ok := done[text]; ok {
			files[n] = s
			continue
		}
		var want [4]byte
		copy(want[:], h[:4].Eval(m))
		s, ok := hashSuffix(files[n], want)
		if !ok {
			return nil, false
		}
		done[text] = s
		files[n] = s
	}
	return files, true
}

// hashSuffix finds a text with the given first seven hexadecimal digits of its digest.
func hashSuffix(text string, want [4]byte) (string, bool) {
	if !strings.HasSuffix(text, "\n") {
		text += "\n"
	}
	var found atomic.Pointer[string]
	var wg sync.WaitGroup
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			b := append([]byte(text), fmt.Sprintf("// %d", k)...)
			pre := sha256.New()
			pre.Write(b[:len(b)/64*64])
			st, _ := pre.(encoding.BinaryMarshaler).MarshalBinary()
			rest := b[len(b)/64*64:]
			h := sha256.New()
			var sum []byte
			num := make([]byte, 0, 32)
			for i := int64(0); i < 1<<28; i++ {
				if i&1023 == 0 && found.Load() != nil {
					return
				}
				h.(encoding.BinaryUnmarshaler).UnmarshalBinary(st)
				num = strconv.AppendInt(append(num[:0], rest...), i, 36)
				h.Write(num)
				sum = h.Sum(sum[:0])
				if sum[0] == want[0] && sum[1] == want[1] && sum[2] == want[2] && sum[3]>>4 == want[3]>>4 {
					s := string(b) + strconv.FormatInt(i, 36)
					found.Store(&s)
					return
				}
			}
		}()
	}
	wg.Wait()
	if s := found.Load(); s != nil {
		return *s, true
	}
	return "", false
}

func (w *Worker) nativeFiles(prog *ts.Prog, in *inst, m sym.Model, files map[string]string) (diff string, script string, r refRun) {
	c := in.c
	main := w.materialise(files, c.mainPath())
	w.R.Add("native_replays", 1)
	t := w.R.N.Transpile(main, c.Target)
	if t.Panic != "" {
		return "transpilation did not return: " + t.Panic, "", r
	}
	if t.IsErr {
		if prog != nil && len(prog.Unsure) > 0 && !c.Force || len(c.Names) > 0 {
			return "", "", r
		}
		return "valid program rejected: " + t.Err, "", r
	}
	script = t.Out
	if c.NoExec || prog == nil {
		return "", script, r
	}
	r = w.refConcrete(prog, in, m)
	if !r.ok {
		return "", script, r
	}
	var g harness.RunResult
	var got map[string]string
	if c.Target == "bash" {
		pre := map[string]string{}
		for k, s := range in.pre {
			pre[k] = s.Eval(m)
		}
		w.clearRun(pre, c.Apps)
		path := "PATH=/usr/bin:/bin"
		if c.Apps {
			path = "PATH=" + filepath.Join(w.Dir, "bin") + ":/usr/bin:/bin"
		}
		g = harness.RunBash(script, w.Dir, in.stdin.Eval(m), 5*time.Second, path)
		got = snapshot(filepath.Join(w.Dir, "w"))
	} else {
		var ok bool
		if g, got, ok = w.batchConcrete(script, in, m); !ok {
			return "", script, r
		}
	}
	return diffRun(c, r, g, got), script, r
}

func diffRun(c *Case, r refRun, g harness.RunResult, got map[string]string) string {
	var d []string
	if g.TimedOut {
		d = append(d, "script does not terminate")
	}
	if !c.NoStd {
		if g.Stdout != r.out {
			d = append(d, fmt.Sprintf("stdout is %q, expected %q", clip(g.Stdout), clip(r.out)))
		}
		if g.Exit != r.status&255 && !g.TimedOut {
			d = append(d, fmt.Sprintf("exit status is %d, expected %d", g.Exit, r.status))
		}
	}
	if g.Stderr != "" && !c.AnyErr {
		d = append(d, fmt.Sprintf("stderr is %q", clip(g.Stderr)))
	}
	names := map[string]bool{}
	for n := range r.files {
		names[n] = true
	}
	for n := range got {
		names[n] = true
	}
	for _, n := range sortedStr(names) {
		x, okx := r.files[n]
		y, oky := got[n]
		switch {
		case !okx:
			d = append(d, fmt.Sprintf("unexpected file %q", n))
		case !oky:
			d = append(d, fmt.Sprintf("file %q missing", n))
		case x != y:
			d = append(d, fmt.Sprintf("file %q holds %q, expected %q", n, clip(y), clip(x)))
		}
	}
	return strings.Join(d, "; ")
}

func clip(s string) string {
	if len(s) > 400 {
		return s[:400] + "..."
	}
	return s
}

// report files a confirmed violation.
func (w *Worker) report(in *inst, m sym.Model, diff, script string) {
	w.jobBad = true
	files := map[string]string{}
	for n, s := range in.concrete(m) {
		files["src/"+strings.TrimPrefix(n, "/work/")] = s
	}
	ext := "sh"
	if in.c.Target == "batch" {
		ext = "bat"
	}
	if script != "" {
		files["script."+ext] = script
	}
	if in.stdin != nil {
		files["stdin.txt"] = in.stdin.Eval(m)
	}
	main := in.concrete(m)[in.c.mainPath()]
	w.R.Violate(in.c.ID, fmt.Sprintf("%s target: %s\nprogram:\n%s", in.c.Target, diff, main), files)
}

// Sem decides one case: for every value of the symbolic inputs the emitted script behaves as the reference.
func (w *Worker) Sem(c *Case) {
	if c.Width == 0 {
		c.Width = 64
		if c.Target == "batch" {
			c.Width = 32
		}
	}
	maxPaths := c.Paths
	if maxPaths == 0 {
		maxPaths = 400
	}
	srcs := w.R.Sources(c.files())
	prog, rej := ts.Compile(srcs, c.mainPath())
	accepted := rej == nil
	if rej != nil && rej.Syntax {
		w.R.Note("generator: reference syntax reject", c.ID+": "+rej.Msg+"\n"+c.Src)
		return
	}
	if !accepted {
		w.R.Note("generator: reference reject", c.ID+": "+rej.Msg+"\n"+c.Src)
		return
	}
	if len(prog.Unsure) > 0 && !c.Force {
		w.R.Note("unsure", c.ID+": "+prog.Unsure[0])
	}
	sampled := false
	outer := &sym.Explorer{F: w.F, S: w.S, MaxPaths: maxPaths}
	outer.Run(func(p *sym.Path) {
		if w.R.Stopped() || w.jobBad {
			return
		}
		in := c.symbolise(p)
		sc := func() (sc Script) {
			defer func() {
				if e := recover(); e != nil {
					a, ok := e.(sym.Abort)
					if !ok || a.Kind == "infeasible" {
						panic(e)
					}
					w.inconclusive(prog, in, p, "transpile "+a.Error())
					panic(e)
				}
			}()
			return w.transpile(p, in, c.Target)
		}()
		if sc.IsErr && len(in.names) > 0 {
			w.R.Add("rejected_renamings", 1)
			return
		}
		if sc.Crash != "" || sc.IsErr {
			if sc.IsErr && len(prog.Unsure) > 0 && !c.Force {
				w.R.Note("rejected unsure program", c.ID+": "+prog.Unsure[0]+": "+sc.Err.String())
				return
			}
			m, ok := p.Model()
			if !ok {
				w.R.Note("no model", c.ID)
				return
			}
			if d, script, _ := w.native(prog, in, m); d != "" {
				w.report(in, m, d, script)
			} else {
				w.R.Note("model mismatch", c.ID+": engine says "+sc.Crash+sc.Err.String()+" native accepts")
			}
			return
		}
		if c.NoExec {
			w.R.Add("paths", 1)
			return
		}
		w.compare(prog, in, p, sc, &sampled)
	})
	w.finishExplorer(c.ID, outer)
}

func (w *Worker) finishExplorer(id string, x *sym.Explorer) {
	if x.Truncated {
		w.R.Note("path budget reached", id)
	}
	for k, n := range x.Aborts {
		if k != "infeasible" {
			w.R.Add("aborted_"+k, int64(n))
		}
	}
}

// compare runs the reference and the script on every path below p.
func (w *Worker) compare(prog *ts.Prog, in *inst, p0 *sym.Path, sc Script, sampled *bool) {
	c := in.c
	inner := &sym.Explorer{F: w.F, S: w.S, Base: append([]*sym.Term{}, p0.PC()...), BaseM: p0.M, MaxPaths: 600}
	if c.Paths > 600 {
		inner.MaxPaths = c.Paths
	}
	inner.Run(func(p *sym.Path) {
		if w.R.Stopped() || w.jobBad {
			return
		}
		var ref *ts.Result
		defer func() {
			if e := recover(); e != nil {
				a, ok := e.(sym.Abort)
				if !ok || a.Kind == "infeasible" {
					panic(e)
				}
				if ref != nil { // the reference terminates here; the script could not be decided
					w.inconclusive(prog, in, p, "script "+a.Error())
				} else if a.Kind != "bound" {
					w.R.Note("reference: "+a.Error(), c.ID)
				}
				panic(e)
			}
		}()
		o := ts.Options{IntHoles: in.ints, StrHoles: in.strs, Width: c.Width, Stdin: in.stdin, MaxSteps: c.Steps, Files: &ts.Files{}}
		for _, k := range sortedStr(in.pre) {
			o.Files.Put(sym.Lit(k), in.pre[k])
		}
		if c.Apps {
			o.App = refApps(p)
		}
		ref = c.reference(p, prog, o)
		var bad *sym.Term
		f := w.F
		if c.Target == "bash" {
			fs := &bashsym.FS{}
			for _, k := range sortedStr(in.pre) {
				fs.Put(sym.Lit(k), in.pre[k])
			}
			bo := bashsym.Options{Stdin: in.stdin, FS: fs, MaxSteps: 4000 + 60*ref.Steps}
			if c.Apps {
				bo.Cmds = bashApps(p)
			}
			text := sc.Out
			if len(in.hash)+len(in.names) > 0 {
				text, bo.Names = bashsym.Opaque(p, text)
			}
			r := bashsym.Run(p, text, bo)
			ok := f.True
			if r.Syntax != "" || len(r.Err) > 0 && !c.AnyErr {
				ok = f.False
			} else {
				if !c.NoStd {
					ok = f.And(ok, p.StrEq(r.Out, ref.Out))
					ok = f.And(ok, f.Eq(f.Trunc(r.Status, 8), f.Trunc(ref.Status, 8)))
				}
				ok = f.And(ok, filesEq(p, ref.Files, r.FS))
			}
			bad = ok
		} else {
			bad = w.batchCompare(p, in, sc, ref)
		}
		res, m := p.Check(bad)
		w.R.Add("paths", 1)
		switch res {
		case sym.Unsat:
			w.R.Add("discharged", 1)
			if !*sampled {
				*sampled = true
				if mm, ok := p.Model(); ok {
					w.sampleNative(prog, in, mm, sc)
				}
			}
		case sym.Unknown:
			w.inconclusive(prog, in, p, "solver unknown")
		case sym.Sat:
			if d, script, r := w.native(prog, in, m); d != "" {
				w.report(in, m, d, script)
			} else {
				why := ""
				if !r.ok {
					why = " (reference: " + r.why + ")"
				}
				w.R.Note("model mismatch", fmt.Sprintf("%s: counterexample does not reproduce%s\n%s\n%s", c.ID, why, in.concrete(m)[c.mainPath()], script))
			}
		}
	})
	w.finishExplorer(c.ID, inner)
}

// filesEq: the two file systems agree.
func filesEq(p *sym.Path, a *ts.Files, b *bashsym.FS) *sym.Term {
	f := p.F
	n := 0
	for _, x := range b.Files {
		if !x.Dir {
			n++
		}
	}
	if n != len(a.Names) {
		return f.False
	}
	ok := f.True
	for i, nm := range a.Names {
		x := b.Find(p, nm)
		if x == nil || x.Dir {
			return f.False
		}
		ok = f.And(ok, p.StrEq(x.Data, a.Data[i]))
	}
	return ok
}

// inconclusive: the path could not be decided symbolically; its model is replayed concretely.
func (w *Worker) inconclusive(prog *ts.Prog, in *inst, p *sym.Path, why string) {
	w.R.Note("inconclusive: "+head(why, 90), in.c.ID)
	w.R.Add("inconclusive_paths", 1)
	m, ok := p.Model()
	if !ok || w.replays > 40 {
		return
	}
	w.replays++
	if d, script, r := w.native(prog, in, m); d != "" && (r.ok || script == "") {
		w.report(in, m, d, script)
	}
}

func head(s string, n int) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > n {
		s = s[:n]
	}
	return s
}

// sampleNative replays one discharged path natively: the engine's script must be the native one, byte for byte,
// and the real shell must agree with the reference.
func (w *Worker) sampleNative(prog *ts.Prog, in *inst, m sym.Model, sc Script) {
	w.sampling = true
	d, script, r := w.native(prog, in, m)
	w.sampling = false
	w.R.Add("native_samples", 1)
	if d != "" && (r.ok || script == "") {
		w.report(in, m, d, script)
		return
	}
	if want := sc.Out.Eval(m); want != script && (len(in.files) < 2 || len(in.names) == 0) && len(in.hash) == 0 && !(len(in.files) > 1 && len(in.ints) > 0) {
		w.R.Note("engine and native scripts differ", fmt.Sprintf("%s:\n--- engine\n%s\n--- native\n%s", in.c.ID, want, script))
	}
	w.R.Sample(map[string]any{"case": in.c.ID, "program": in.concrete(m)[in.c.mainPath()], "stdout": clip(r.out), "status": r.status})
}

// ScriptWords lists the identifiers of the script emitted for a program and the names of the variables it creates.
func (w *Worker) ScriptWords(c *Case) []string {
	r := w.R
	key := c.Target + "\x00" + c.Src
	r.mu.Lock()
	l, ok := r.words[key]
	r.mu.Unlock()
	if ok {
		return l
	}
	k := *c
	k.Names = nil
	in := &inst{c: &k, files: k.files(), ints: map[string]*sym.Term{}}
	files := map[string]string{}
	for n, s := range in.files {
		files[n] = holeRe.ReplaceAllString(s, "2")
	}
	t := r.N.Transpile(w.materialise(files, k.mainPath()), c.Target)
	seen := map[string]bool{}
	for _, k := range ts.Keywords() {
		seen[k] = true
	}
	names := identRe.FindAllString(t.Out, -1)
	if c.Target == "bash" {
		x := &sym.Explorer{F: w.F, S: w.S, MaxPaths: 1}
		x.Run(func(p *sym.Path) {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(sym.Abort); !ok {
						panic(e)
					}
				}
			}()
			fs := &bashsym.FS{}
			for n, s := range c.Pre {
				fs.Put(sym.Lit(n), sym.Lit(s.Vals[0]))
			}
			o := bashsym.Options{FS: fs, MaxSteps: 20000}
			if c.Stdin != nil {
				o.Stdin = sym.Lit(c.Stdin.Vals[0])
			}
			if c.Apps {
				o.Cmds = bashApps(p)
			}
			names = append(names, bashsym.Run(p, sym.Lit(t.Out), o).In.VarNames()...)
		})
	}
	if c.Target == "batch" {
		x := &sym.Explorer{F: w.F, S: w.S, MaxPaths: 1}
		x.Run(func(p *sym.Path) {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(sym.Abort); !ok {
						panic(e)
					}
				}
			}()
			o := batsym.Options{MaxSteps: 20000}
			if c.Stdin != nil {
				o.Stdin = sym.Lit(c.Stdin.Vals[0])
			}
			names = append(names, batsym.Run(p, sym.Lit(t.Out), o).Vars...)
		})
	}
	ident := regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_]*$`)
	var out []string
	for _, w := range names {
		// also the rests after each underscore: what has to be prefixed to meet w
		for {
			if !seen[w] && ident.MatchString(w) {
				seen[w] = true
				out = append(out, w)
			}
			i := strings.IndexByte(w, '_')
			if i < 0 || i+1 == len(w) {
				break
			}
			w = w[i+1:]
		}
	}
	sort.Strings(out)
	r.mu.Lock()
	if r.words == nil {
		r.words = map[string][]string{}
	}
	r.words[key] = out
	r.mu.Unlock()
	return out
}
