package bashsym

import (
	"fmt"
	"path"
	"sort"
	"strconv"
	"strings"

	"verif/sym"
)

// Var is a shell variable.
type Var struct {
	S      sym.Str
	Set    bool
	Arr    map[int64]sym.Str
	IsArr  bool
	Assoc  map[string]sym.Str
	Export bool
	RO     bool
	Int    bool
	Ref    bool
}

type scope struct {
	vars map[string]*Var
}

// File of the modelled file system.
type File struct {
	Name sym.Str
	Data sym.Str
	Dir  bool
}

// FS is the modelled file system (shared by subshells).
type FS struct {
	Files []*File
	Log   []string // operations on paths
}

// Stdin is a consumable input stream.
type Stdin struct{ S sym.Str }

// Cmd models an external command.
type Cmd func(in *Interp, args []sym.Str, stdin *Stdin) (out sym.Str, status int)

// Call is a recorded command execution.
type Call struct {
	Name string
	Args []sym.Str
	In   sym.Str
}

// Buf is an output stream.
type Buf struct{ S sym.Str }

// Interp is one shell process.
type Interp struct {
	P        *sym.Path
	F        *sym.Factory
	Steps    *int
	MaxSteps int
	Depth    int
	scopes   []*scope
	funcs    map[string]*FuncDef
	params   []sym.Str
	name0    sym.Str
	status   *sym.Term
	fds      map[int]*Buf
	stdin    *Stdin
	FS       *FS
	Cmds     map[string]Cmd
	Calls    *[]Call
	noCalls  bool
	subst    bool
	loops    int
	inFunc   int
	sub      int
	pipest   []*sym.Term
	lastSub  *sym.Term
	opts     map[string]bool
	Missing  *[]string // commands that were not found
	Merge    bool
	Names    *Names
}

type (
	brk     struct{ n int }
	cont    struct{ n int }
	ret     struct{}
	exit    struct{}
	discard struct{}
)

// Result of a script run.
type Result struct {
	Out, Err sym.Str
	Status   *sym.Term // exit status (64-bit)
	Syntax   string
	FS       *FS
	Calls    []Call
	Missing  []string
	In       *Interp
}

// Options for Run.
type Options struct {
	Stdin    sym.Str
	FS       *FS
	Cmds     map[string]Cmd
	MaxSteps int
	Env      map[string]string
	Args     []sym.Str
	Names    *Names
}

// Run executes a script text.
func Run(p *sym.Path, script sym.Str, o Options) (res *Result) {
	steps := 0
	var calls []Call
	var missing []string
	in := &Interp{P: p, F: p.F, Steps: &steps, MaxSteps: o.MaxSteps, scopes: []*scope{{map[string]*Var{}}}, funcs: map[string]*FuncDef{}, fds: map[int]*Buf{1: {}, 2: {}}, FS: o.FS, Cmds: o.Cmds, Calls: &calls, opts: map[string]bool{}, Missing: &missing}
	if in.MaxSteps == 0 {
		in.MaxSteps = 200000
	}
	if in.FS == nil {
		in.FS = &FS{}
	}
	in.stdin = &Stdin{S: o.Stdin}
	in.Names = o.Names
	in.name0 = sym.Lit("script")
	in.params = o.Args
	in.status = in.F.BV(0, 64)
	env := map[string]string{"PATH": "/usr/bin:/bin", "HOME": "/root", "PWD": "/work"}
	for k, v := range o.Env {
		env[k] = v
	}
	for k, v := range env {
		in.scopes[0].vars[k] = &Var{S: sym.Lit(v), Set: true, Export: true}
	}
	in.scopes[0].vars["IFS"] = &Var{S: sym.Lit(" \t\n"), Set: true}
	in.scopes[0].vars["PPID"] = &Var{S: sym.Lit("1"), Set: true, RO: true}
	in.scopes[0].vars["UID"] = &Var{S: sym.Lit("0"), Set: true, RO: true}
	in.scopes[0].vars["EUID"] = &Var{S: sym.Lit("0"), Set: true, RO: true}
	in.scopes[0].vars["BASH_VERSINFO"] = &Var{IsArr: true, Arr: map[int64]sym.Str{0: sym.Lit("5"), 1: sym.Lit("2")}, RO: true, Set: true}
	in.scopes[0].vars["SHELLOPTS"] = &Var{S: sym.Lit("braceexpand:hashall:interactive-comments"), Set: true, RO: true}
	in.scopes[0].vars["BASHOPTS"] = &Var{S: sym.Lit("checkwinsize"), Set: true, RO: true}
	in.scopes[0].vars["OPTIND"] = &Var{S: sym.Lit("1"), Set: true}
	in.scopes[0].vars["PS4"] = &Var{S: sym.Lit("+ "), Set: true}
	in.scopes[0].vars["BASH"] = &Var{S: sym.Lit("/bin/bash"), Set: true}
	res = &Result{FS: in.FS, In: in}
	defer func() {
		res.Out, res.Err = in.fds[1].S, in.fds[2].S
		res.Calls = calls
		res.Missing = missing
	}()
	ps := &Parser{P: p, F: p.F, S: append(sym.Str{}, script...)}
	if ps.isStr("#!") {
		for !ps.eof() && !ps.is(0, '\n') {
			ps.Pos++
		}
	}
	res.Status = in.topLevel(ps, &res.Syntax)
	return res
}

// topLevel executes the commands of a script one after the other.
func (in *Interp) topLevel(ps *Parser, syn *string) (st *sym.Term) {
	done := false
	for !done {
		func() {
			defer func() {
				switch r := recover().(type) {
				case nil:
				case exit:
					done = true
				case discard:
					in.status = in.F.BV(1, 64)
				case brk, cont:
				case ret:
				case SyntaxError:
					*syn = r.Msg
					in.errf("%s", r.Msg)
					in.status = in.F.BV(2, 64)
					done = true
				default:
					panic(r)
				}
			}()
			n := ps.NextCommand()
			if n == nil {
				done = true
				return
			}
			in.exec(n)
		}()
	}
	return in.status
}

// CheckSyntax parses a script completely (bash -n).
func CheckSyntax(p *sym.Path, script sym.Str) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(SyntaxError); ok {
				msg = e.Msg
				return
			}
			panic(r)
		}
	}()
	ps := &Parser{P: p, F: p.F, S: append(sym.Str{}, script...)}
	ps.ParseAll()
	return ""
}

// ParseScript parses a concrete or symbolic script completely.
func ParseScript(p *sym.Path, script sym.Str) (nodes []Node, msg string) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(SyntaxError); ok {
				msg = e.Msg
				return
			}
			panic(r)
		}
	}()
	ps := &Parser{P: p, F: p.F, S: append(sym.Str{}, script...)}
	return ps.ParseAll(), ""
}

func (in *Interp) errf(format string, a ...any) {
	in.err(sym.Lit(fmt.Sprintf(format, a...)))
}

// WriteErr writes to the standard error of the command that is running.
func (in *Interp) WriteErr(s sym.Str) {
	if b := in.fds[2]; b != nil {
		b.S = append(b.S, s...)
	}
}

func (in *Interp) err(s sym.Str) {
	if b := in.fds[2]; b != nil {
		b.S = append(b.S, append(append(sym.Lit("script: "), s...), sym.Ch{B: '\n'})...)
	}
}

func (in *Interp) step() {
	*in.Steps++
	if *in.Steps > in.MaxSteps {
		in.P.Bound("shell steps")
	}
}

func (in *Interp) setStatus(n int64) { in.status = in.F.BV(n, 64) }

func (in *Interp) ok() bool {
	return in.P.Branch(in.F.Eq(in.status, in.F.BV(0, 64)))
}

// --- variables ---

func (in *Interp) lookup(n string) *Var {
	n = in.canon(n)
	for i := len(in.scopes) - 1; i >= 0; i-- {
		if v := in.scopes[i].vars[n]; v != nil {
			if v.Ref && v.Set {
				if c, ok := v.S.Concrete(); ok && in.canon(c) != n {
					return in.lookup(c)
				}
			}
			return v
		}
	}
	return nil
}

func (in *Interp) lvalue(n string) *Var {
	if v := in.lookup(n); v != nil {
		return v
	}
	v := &Var{}
	in.scopes[0].vars[in.canon(n)] = v
	return v
}

func (in *Interp) local(n string) *Var {
	n = in.canon(n)
	sc := in.scopes[len(in.scopes)-1]
	v := sc.vars[n]
	if v == nil {
		v = &Var{}
		sc.vars[n] = v
	}
	return v
}

func (in *Interp) roCheck(n string, v *Var) {
	if v.RO {
		in.errf("%s: readonly variable", n)
		// assignment errors abort the current command
		panic(discard{})
	}
}

func (in *Interp) setVar(n string, s sym.Str) {
	n = in.canon(n)
	switch n {
	case "RANDOM", "SECONDS", "LINENO", "BASHPID", "FUNCNAME", "GROUPS", "DIRSTACK", "BASH_COMMAND", "SRANDOM", "EPOCHSECONDS", "EPOCHREALTIME", "COMP_WORDBREAKS", "HISTCMD", "BASH_SOURCE", "BASH_LINENO", "BASH_ARGC", "BASH_ARGV", "PIPESTATUS", "BASH_REMATCH", "BASH_ARGV0", "LANG", "LC_ALL", "LC_CTYPE", "_", "BASH_CMDS", "BASH_ALIASES", "BASH_SUBSHELL", "POSIXLY_CORRECT", "BASH_XTRACEFD", "BASH_COMPAT", "TMOUT", "BASH_MONOSECONDS", "FUNCNEST", "OPTARG", "TIMEFORMAT", "MAPFILE", "GLOBIGNORE", "GLOBSORT", "EXECIGNORE", "IGNOREEOF", "HOSTTYPE":
		switch n {
		case "OPTARG", "TIMEFORMAT", "MAPFILE", "IGNOREEOF", "HOSTTYPE", "BASH_REMATCH":
		default:
			in.P.Unsupported("assignment to the special variable %s", n)
		}
	}
	v := in.lvalue(n)
	in.roCheck(n, v)
	if v.Int {
		s = sym.Itoa(in.arithStr(s))
	}
	if v.IsArr {
		v.Arr[0] = s
		v.Set = true
		return
	}
	if v.Assoc != nil {
		v.Assoc["0"] = s
		return
	}
	v.S, v.Set = s, true
}

// get returns a variable's (scalar) value.
func (in *Interp) get(n string) (sym.Str, bool) {
	if n == "" {
		return nil, false
	}
	if isDigit(n[0]) {
		k, _ := strconv.Atoi(n)
		if k == 0 {
			return in.name0, true
		}
		if k <= len(in.params) {
			return in.params[k-1], true
		}
		return nil, false
	}
	switch n {
	case "#":
		return sym.Lit(strconv.Itoa(len(in.params))), true
	case "?":
		return sym.Itoa(in.status), true
	case "@", "*":
		return in.joinParams(), len(in.params) > 0
	case "-":
		return sym.Lit("hB"), true
	case "$":
		return sym.Lit("4242"), true
	case "!":
		return nil, false
	case "RANDOM", "SECONDS", "LINENO", "BASHPID", "EPOCHSECONDS", "EPOCHREALTIME", "SRANDOM", "BASH_COMMAND", "HOSTNAME", "OSTYPE", "MACHTYPE", "HOSTTYPE", "DIRSTACK", "GROUPS", "_", "HISTCMD", "BASH_SOURCE", "BASH_LINENO", "FUNCNAME", "BASH_ARGV0", "BASH_VERSION", "COMP_WORDBREAKS", "SHLVL", "BASH_CMDS", "BASH_ALIASES", "TERM", "BASH_SUBSHELL", "BASH_ARGC", "BASH_ARGV", "BASH_MONOSECONDS", "COLUMNS", "LINES":
		if in.lookup(n) == nil {
			in.P.Unsupported("special variable %s", n)
		}
	case "PIPESTATUS":
		if len(in.pipest) > 0 {
			return sym.Itoa(in.pipest[0]), true
		}
		return nil, false
	}
	v := in.lookup(n)
	if v == nil {
		return nil, false
	}
	if v.IsArr {
		s, ok := v.Arr[0]
		return s, ok
	}
	if v.Assoc != nil {
		s, ok := v.Assoc["0"]
		return s, ok
	}
	return v.S, v.Set
}

// Get exposes a variable's value after a run.
func (in *Interp) Get(n string) (sym.Str, bool) { return in.get(n) }

func (in *Interp) joinParams() sym.Str {
	var r sym.Str
	for i, p := range in.params {
		if i > 0 {
			r = append(r, sym.Ch{B: ' '})
		}
		r = append(r, p...)
	}
	return r
}

func keys(m map[int64]sym.Str) []int64 {
	r := make([]int64, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func skeys(m map[string]sym.Str) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// index evaluates a subscript to a concrete array index.
func (in *Interp) index(v *Var, sub *Word) int64 {
	t := in.arithWord(sub)
	i := int64(in.P.Concretize(t, 64))
	if i < 0 {
		mx := int64(-1)
		if v != nil {
			for k := range v.Arr {
				if k > mx {
					mx = k
				}
			}
			if !v.IsArr && v.Set {
				mx = 0
			}
		}
		i += mx + 1
		if i < 0 {
			in.errf("bad array subscript")
			panic(discard{})
		}
	}
	return i
}

func (in *Interp) assocKey(sub *Word) string {
	s := in.expandString(sub)
	c, ok := s.Concrete()
	if !ok {
		in.P.Unsupported("symbolic associative key")
	}
	return in.canon(c)
}

// assign performs one assignment on the variable chosen by pick.
func (in *Interp) assign(a *Assign, pick func(string) *Var) {
	if a.IsArr {
		// expand before touching the variable
		var elems []struct {
			idx int64
			key string
			has bool
			v   sym.Str
		}
		v := pick(a.Name)
		for _, e := range a.Array {
			if e.Sub != nil {
				el := struct {
					idx int64
					key string
					has bool
					v   sym.Str
				}{has: true}
				if v.Assoc != nil {
					el.key = in.assocKey(e.Sub)
				} else {
					el.idx = in.index(v, e.Sub)
				}
				el.v = in.expandAssign(e.Val)
				elems = append(elems, el)
				continue
			}
			for _, f := range in.expandWords([]*Word{e.Val}) {
				elems = append(elems, struct {
					idx int64
					key string
					has bool
					v   sym.Str
				}{v: f})
			}
		}
		in.roCheck(a.Name, v)
		if v.Assoc != nil {
			if !a.Append {
				v.Assoc = map[string]sym.Str{}
			}
			for _, e := range elems {
				if !e.has {
					in.P.Unsupported("associative array list without keys")
				}
				v.Assoc[e.key] = e.v
			}
			v.Set = true
			return
		}
		next := int64(0)
		if a.Append {
			in.toArray(v)
			for k := range v.Arr {
				if k >= next {
					next = k + 1
				}
			}
		} else {
			v.Arr = map[int64]sym.Str{}
			v.IsArr = true
		}
		for _, e := range elems {
			if e.has {
				next = e.idx
			}
			v.Arr[next] = e.v
			next++
		}
		v.Set = true
		return
	}
	val := in.expandAssign(a.Val)
	if a.Sub != nil {
		v := pick(a.Name)
		in.roCheck(a.Name, v)
		if v.Assoc != nil {
			k := in.assocKey(a.Sub)
			if a.Append {
				val = sym.Cat(v.Assoc[k], val)
			}
			v.Assoc[k] = val
			return
		}
		i := in.index(v, a.Sub)
		in.toArray(v)
		if v.Int {
			val = sym.Itoa(in.arithStr(val))
		}
		if a.Append {
			val = sym.Cat(v.Arr[i], val)
		}
		v.Arr[i] = val
		v.Set = true
		return
	}
	v := pick(a.Name)
	if a.Append {
		old := v.S
		if v.IsArr {
			old = v.Arr[0]
		}
		if v.Int {
			val = sym.Itoa(in.F.Add(in.arithStr(old), in.arithStr(val)))
		} else {
			val = sym.Cat(old, val)
		}
	} else if v.Int {
		val = sym.Itoa(in.arithStr(val))
	}
	in.roCheck(a.Name, v)
	if v.IsArr {
		v.Arr[0] = val
		return
	}
	if v.Assoc != nil {
		v.Assoc["0"] = val
		return
	}
	// re-enter setVar for the special names
	if in.lookup(a.Name) == v || in.lookup(a.Name) == nil {
		in.setVar(a.Name, val)
		return
	}
	v.S, v.Set = val, true
}

func (in *Interp) toArray(v *Var) {
	if v.IsArr {
		return
	}
	v.IsArr = true
	v.Arr = map[int64]sym.Str{}
	if v.Set {
		v.Arr[0] = v.S
	}
	v.S = nil
}

// --- execution ---

func (in *Interp) exec(n Node) {
	in.step()
	switch n := n.(type) {
	case *List:
		for _, c := range n.Items {
			in.exec(c)
		}
	case *Simple:
		in.simple(n)
		in.errexit()
	case *AndOr:
		in.noErr(func() { in.exec(n.L) })
		zero := in.F.Eq(in.status, in.F.BV(0, 64))
		if in.P.F != nil && !zero.IsConst() && in.pureTest(n.R) {
			l := in.status
			in.exec(n.R)
			if n.And {
				in.status = in.F.Ite(zero, in.status, l)
			} else {
				in.status = in.F.Ite(zero, l, in.status)
			}
			return
		}
		if in.P.Branch(zero) == n.And {
			in.exec(n.R)
		}
	case *Pipeline:
		in.pipeline(n)
		if !n.Bang {
			in.errexit()
		}
	case *If:
		for i, c := range n.Conds {
			in.noErr(func() { in.exec(c) })
			zero := in.F.Eq(in.status, in.F.BV(0, 64))
			if !zero.IsConst() && i == len(n.Conds)-1 && in.mergeIf(zero, n, i) {
				return
			}
			if in.P.Branch(zero) {
				in.exec(n.Bodies[i])
				return
			}
		}
		if n.Else != nil {
			in.exec(n.Else)
		} else {
			in.setStatus(0)
		}
	case *While:
		in.loops++
		defer func() { in.loops-- }()
		st := in.F.BV(0, 64)
		for {
			in.step()
			stop := false
			if in.loopBody(func() {
				in.noErr(func() { in.exec(n.Cond) })
				if in.ok() == n.Until {
					stop = true
					return
				}
				in.exec(n.Body)
				st = in.status
			}) {
				st = in.F.BV(0, 64)
				break
			}
			if stop {
				break
			}
		}
		in.status = st
	case *ForIn:
		var items []sym.Str
		if n.HasIn {
			items = in.expandWords(n.Words)
		} else {
			items = append(items, in.params...)
		}
		in.loops++
		defer func() { in.loops-- }()
		in.setStatus(0)
		for _, it := range items {
			in.step()
			in.setVar(n.Var, it)
			if in.loopBody(func() { in.exec(n.Body) }) {
				break
			}
		}
	case *ForC:
		in.loops++
		defer func() { in.loops-- }()
		in.arithWordOpt(n.Init)
		in.setStatus(0)
		for {
			in.step()
			if c := in.arithWordOpt(n.Cond); c != nil && !in.P.Branch(in.F.Ne(c, in.F.BV(0, 64))) {
				break
			}
			if in.loopBody(func() { in.exec(n.Body) }) {
				break
			}
			in.arithWordOpt(n.Step)
		}
	case *Case:
		subj := in.expandString(n.Subj)
		fall := false
		in.setStatus(0)
		for _, it := range n.Items {
			hit := fall
			if !hit {
				for _, pt := range it.Pats {
					if in.match(subj, in.expandPattern(pt)) {
						hit = true
						break
					}
				}
			}
			if !hit {
				continue
			}
			if it.Body != nil {
				in.exec(it.Body)
			}
			fall = it.Term == ";&"
			if it.Term == ";;" {
				return
			}
		}
	case *Group:
		in.exec(n.Body)
	case *Subshell:
		sub := in.clone()
		in.status = sub.runSub(func() { sub.exec(n.Body) })
		in.errexit()
	case *FuncDef:
		in.funcs[in.canon(n.Name)] = n
		in.setStatus(0)
	case *ArithCmd:
		t := in.arithWord(n.Expr)
		in.status = in.F.Ite(in.F.Ne(t, in.F.BV(0, 64)), in.F.BV(0, 64), in.F.BV(1, 64))
		in.errexit()
	case *CondCmd:
		t := in.cond(n.E)
		in.status = in.F.Ite(t, in.F.BV(0, 64), in.F.BV(1, 64))
		in.errexit()
	case *Redirected:
		in.withRedirs(n.Redirs, func() { in.exec(n.Cmd) })
	default:
		panic(fmt.Sprintf("exec %T", n))
	}
}

func (in *Interp) noErr(f func()) {
	old := in.opts["noerr"]
	in.opts["noerr"] = true
	f()
	in.opts["noerr"] = old
}

func (in *Interp) errexit() {
	if in.opts["e"] && !in.opts["noerr"] {
		if !in.ok() {
			panic(exit{})
		}
	}
}

// loopBody runs one iteration; true when the loop must end.
func (in *Interp) loopBody(f func()) (end bool) {
	defer func() {
		switch r := recover().(type) {
		case nil:
		case brk:
			if r.n > 1 && in.loops > 1 {
				panic(brk{r.n - 1})
			}
			end = true
		case cont:
			if r.n > 1 && in.loops > 1 {
				panic(cont{r.n - 1})
			}
		default:
			panic(r)
		}
	}()
	f()
	return false
}

// pureTest: a test command without side effects.
func (in *Interp) pureTest(n Node) bool {
	switch n := n.(type) {
	case *Simple:
		if len(n.Assigns) > 0 || len(n.Redirs) > 0 || len(n.Words) == 0 || n.Decl != nil {
			return false
		}
		c := wordLit(n.Words[0])
		if c != "[" && c != "test" && c != "true" && c != "false" && c != ":" {
			return false
		}
		for _, w := range n.Words {
			if !pureWord(w) {
				return false
			}
			for _, p := range w.Parts {
				if !p.Quoted && p.Kind != PLit {
					return false
				}
			}
		}
		return true
	case *AndOr:
		return in.pureTest(n.L) && in.pureTest(n.R)
	}
	return false
}

func pureWord(w *Word) bool {
	if w == nil {
		return true
	}
	for _, p := range w.Parts {
		switch p.Kind {
		case PCmd, PArith:
			return false
		case PParam:
			if p.Op != "" || p.Sub != nil || p.Ind {
				return false
			}
		}
	}
	return true
}

func wordLit(w *Word) string {
	if w == nil {
		return ""
	}
	var r sym.Str
	for _, p := range w.Parts {
		if p.Kind != PLit {
			return ""
		}
		r = append(r, p.S...)
	}
	c, _ := r.Concrete()
	return c
}

// echoConst: the node only prints a canonical integer constant followed by a newline.
func echoConst(n Node) (int64, bool) {
	s, ok := n.(*Simple)
	if !ok || len(s.Assigns) > 0 || len(s.Redirs) > 0 || s.Decl != nil {
		return 0, false
	}
	var arg string
	switch {
	case len(s.Words) == 2 && wordLit(s.Words[0]) == "echo":
		arg = wordLit(s.Words[1])
	case len(s.Words) == 3 && wordLit(s.Words[0]) == "printf" && wordLit(s.Words[1]) == `%s\n`:
		arg = wordLit(s.Words[2])
	default:
		return 0, false
	}
	v, err := strconv.ParseInt(arg, 10, 64)
	if err != nil || strconv.FormatInt(v, 10) != arg {
		return 0, false
	}
	return v, true
}

// mergeIf prints ite(cond, a, b) for "if cond; then echo a; else echo b; fi".
func (in *Interp) mergeIf(cond *sym.Term, n *If, i int) bool {
	if n.Else == nil || in.funcs["echo"] != nil || in.funcs["printf"] != nil {
		return false
	}
	a, ok1 := echoConst(n.Bodies[i])
	b, ok2 := echoConst(n.Else)
	if !ok1 || !ok2 {
		return false
	}
	f := in.F
	in.write(1, sym.Cat(sym.Itoa(f.Ite(cond, f.BV(a, 64), f.BV(b, 64))), sym.Lit("\n")))
	in.setStatus(0)
	return true
}

func (in *Interp) write(fd int, s sym.Str) {
	b := in.fds[fd]
	if b == nil {
		in.P.Unsupported("write to descriptor %d", fd)
	}
	b.S = append(b.S, s...)
	if len(b.S) > 1<<20 {
		in.P.Bound("output size")
	}
}

// clone makes a subshell environment.
func (in *Interp) clone() *Interp {
	c := *in
	c.sub++
	c.scopes = make([]*scope, len(in.scopes))
	for i, s := range in.scopes {
		ns := &scope{make(map[string]*Var, len(s.vars))}
		for k, v := range s.vars {
			nv := *v
			if v.Arr != nil {
				nv.Arr = make(map[int64]sym.Str, len(v.Arr))
				for a, b := range v.Arr {
					nv.Arr[a] = b
				}
			}
			if v.Assoc != nil {
				nv.Assoc = make(map[string]sym.Str, len(v.Assoc))
				for a, b := range v.Assoc {
					nv.Assoc[a] = b
				}
			}
			ns.vars[k] = &nv
		}
		c.scopes[i] = ns
	}
	c.funcs = make(map[string]*FuncDef, len(in.funcs))
	for k, v := range in.funcs {
		c.funcs[k] = v
	}
	c.fds = make(map[int]*Buf, len(in.fds))
	for k, v := range in.fds {
		c.fds[k] = v
	}
	c.opts = make(map[string]bool, len(in.opts))
	for k, v := range in.opts {
		c.opts[k] = v
	}
	return &c
}

// runSub runs f as the body of a subshell and returns its exit status.
func (in *Interp) runSub(f func()) (st *sym.Term) {
	defer func() {
		switch r := recover().(type) {
		case nil:
		case exit:
		case ret:
			if in.inFunc == 0 {
				break
			}
		case brk, cont:
			in.setStatus(0)
		case discard:
			in.setStatus(1)
		default:
			panic(r)
		}
		st = in.status
	}()
	f()
	return in.status
}

func (in *Interp) pipeline(n *Pipeline) {
	if len(n.Cmds) == 1 {
		in.noErr(func() { in.exec(n.Cmds[0]) })
	} else {
		stdin := in.stdin
		in.pipest = nil
		var sts []*sym.Term
		for i, c := range n.Cmds {
			sub := in.clone()
			sub.stdin = stdin
			out := &Buf{}
			if i < len(n.Cmds)-1 {
				sub.fds[1] = out
				if n.Err[i] {
					sub.fds[2] = out
				}
			}
			st := sub.runSub(func() { sub.exec(c) })
			sts = append(sts, st)
			stdin = &Stdin{S: out.S}
		}
		in.pipest = sts
		in.status = sts[len(sts)-1]
		if in.opts["pipefail"] {
			for _, s := range sts {
				in.status = in.F.Ite(in.F.Ne(s, in.F.BV(0, 64)), s, in.status)
			}
		}
	}
	if n.Bang {
		in.status = in.F.Ite(in.F.Eq(in.status, in.F.BV(0, 64)), in.F.BV(1, 64), in.F.BV(0, 64))
	}
}

// cmdSub runs a command substitution.
func (in *Interp) cmdSub(n Node) sym.Str {
	in.step()
	// $(< file)
	if s, ok := n.(*Simple); ok && len(s.Words) == 0 && len(s.Assigns) == 0 && len(s.Redirs) == 1 && s.Redirs[0].Op == "<" && s.Redirs[0].Fd <= 0 {
		name, _ := in.redirTarget(s.Redirs[0].Target)
		f := in.FS.Find(in.P, name)
		if f == nil || f.Dir {
			in.errf("No such file or directory")
			in.setStatus(1)
			in.lastSub = in.status
			return nil
		}
		in.setStatus(0)
		in.lastSub = in.status
		return in.trimNL(f.Data)
	}
	sub := in.clone()
	out := &Buf{}
	sub.fds[1] = out
	sub.Depth++
	sub.opts["e"] = false
	if sub.Depth > 60 {
		in.P.Bound("subshell depth")
	}
	st := sub.runSub(func() { sub.exec(n) })
	in.status = st
	in.lastSub = st
	return in.trimNL(out.S)
}

func (in *Interp) trimNL(s sym.Str) sym.Str {
	for len(s) > 0 {
		c := s[len(s)-1]
		if c.IsLit() && c.B != '\n' || c.IsItoa() {
			break
		}
		if c.IsByte() && !in.P.Branch(in.F.Eq(c.T, in.F.BV('\n', 8))) {
			break
		}
		s = s[:len(s)-1]
	}
	return s[:len(s):len(s)]
}

func (in *Interp) simple(n *Simple) {
	in.lastSub = nil
	args, decl := in.expandCommand(n)
	if len(args) == 0 {
		if len(n.Words) > 0 {
			// every word vanished
			in.lastSub = nil
		}
		do := func() {
			in.lastSubOr(func() {
				for _, a := range n.Assigns {
					in.assign(a, in.lvalue)
				}
			})
		}
		if len(n.Redirs) > 0 {
			in.withRedirs(n.Redirs, do)
		} else {
			do()
		}
		return
	}
	if len(n.Assigns) > 0 {
		// temporary environment
		tmp := &scope{map[string]*Var{}}
		for _, a := range n.Assigns {
			if a.IsArr || a.Sub != nil {
				in.P.Unsupported("array assignment prefix")
			}
			tmp.vars[in.canon(a.Name)] = &Var{S: in.expandAssign(a.Val), Set: true, Export: true}
		}
		in.scopes = append(in.scopes, tmp)
		defer func() { in.scopes = in.scopes[:len(in.scopes)-1] }()
	}
	run := func() { in.command(args, decl) }
	if len(n.Redirs) > 0 {
		in.withRedirs(n.Redirs, run)
	} else {
		run()
	}
}

// lastSubOr: a command without a name has the status of its last command substitution.
func (in *Interp) lastSubOr(f func()) {
	in.lastSub = nil
	f()
	if in.lastSub != nil {
		in.status = in.lastSub
	} else {
		in.setStatus(0)
	}
}

func (in *Interp) expandCommand(n *Simple) ([]sym.Str, map[int]*Assign) {
	if n.Decl == nil {
		return in.expandWords(n.Words), nil
	}
	var args []sym.Str
	decl := map[int]*Assign{}
	for i, w := range n.Words {
		if a := n.Decl[i]; a != nil {
			decl[len(args)] = a
			args = append(args, nil)
			continue
		}
		args = append(args, in.expandWords([]*Word{w})...)
	}
	return args, decl
}

func (in *Interp) command(args []sym.Str, decl map[int]*Assign) {
	name, ok := args[0].Concrete()
	if !ok {
		d := in.P.Digits(args[0])
		b := make([]byte, len(d))
		for i, c := range d {
			if c.IsLit() {
				b[i] = c.B
			} else {
				b[i] = byte(in.P.Concretize(c.T, 256))
			}
		}
		name = string(b)
	}
	name = in.canon(name)
	if fd := in.funcs[name]; fd != nil {
		in.callFunc(fd, args[1:])
		return
	}
	if b := builtins[name]; b != nil {
		b(in, args, decl)
		return
	}
	if name == "" {
		in.errf(": command not found")
		in.setStatus(127)
		return
	}
	c := in.Cmds[name]
	if c == nil {
		c = externals[name]
	}
	if c == nil {
		if v := in.lookup("PATH"); v != nil {
			if p, ok := v.S.Concrete(); !ok || p != "/usr/bin:/bin" {
				in.errf("%s: No such file or directory", name)
				in.setStatus(127)
				return
			}
		}
		if strings.Contains(name, "/") {
			in.P.Unsupported("external command %s", name)
		}
		*in.Missing = append(*in.Missing, name)
		if knownMissing(name) {
			in.errf("%s: command not found", name)
			in.setStatus(127)
			return
		}
		in.P.Unsupported("external command %s", name)
	}
	if v := in.lookup("PATH"); v != nil {
		if p, ok := v.S.Concrete(); !ok || p != "/usr/bin:/bin" {
			in.errf("%s: No such file or directory", name)
			in.setStatus(127)
			return
		}
	}
	out, st := c(in, args[1:], in.stdin)
	in.write(1, out)
	in.setStatus(int64(st))
}

// knownMissing: names that the generated code could only mean as functions.
func knownMissing(n string) bool {
	return strings.HasPrefix(n, "_") || strings.HasPrefix(n, "vx")
}

func (in *Interp) callFunc(fd *FuncDef, args []sym.Str) {
	in.step()
	in.Depth++
	if in.Depth > 300 {
		in.P.Bound("call depth")
	}
	op, ol := in.params, in.loops
	in.params = append([]sym.Str{}, args...)
	in.scopes = append(in.scopes, &scope{map[string]*Var{}})
	ns := len(in.scopes)
	in.inFunc++
	in.loops = 0
	defer func() {
		in.scopes = in.scopes[:ns-1]
		in.params, in.loops = op, ol
		in.inFunc--
		in.Depth--
		if r := recover(); r != nil {
			if _, ok := r.(ret); ok {
				return
			}
			panic(r)
		}
	}()
	in.exec(fd.Body)
}

// --- redirections ---

func (in *Interp) redirTarget(w *Word) (sym.Str, bool) {
	fs := in.expandWords([]*Word{w})
	if len(fs) != 1 {
		in.errf("ambiguous redirect")
		return nil, false
	}
	return fs[0], true
}

func (in *Interp) withRedirs(rs []*Redir, f func()) {
	ofds := make(map[int]*Buf, len(in.fds))
	for k, v := range in.fds {
		ofds[k] = v
	}
	oin := in.stdin
	var flush []func()
	restore := func() {
		in.fds, in.stdin = ofds, oin
		for _, g := range flush {
			g()
		}
	}
	nf := make(map[int]*Buf, len(in.fds))
	for k, v := range in.fds {
		nf[k] = v
	}
	in.fds = nf
	fail := func() {
		restore()
		in.setStatus(1)
	}
	for _, r := range rs {
		switch r.Op {
		case ">", ">|", ">>", "&>", "&>>":
			fd := r.Fd
			if fd < 0 {
				fd = 1
			}
			name, ok := in.redirTarget(r.Target)
			if !ok {
				fail()
				return
			}
			if c, okc := name.Concrete(); okc && c == "/dev/null" {
				b := &Buf{}
				in.fds[fd] = b
				if strings.HasPrefix(r.Op, "&") {
					in.fds[2] = b
				}
				continue
			}
			if c, okc := name.Concrete(); okc && (c == "/dev/stderr" || c == "/dev/stdout") {
				if c == "/dev/stderr" {
					in.fds[fd] = in.fds[2]
				} else {
					in.fds[fd] = in.fds[1]
				}
				continue
			}
			if len(name) == 0 {
				in.errf(": No such file or directory")
				fail()
				return
			}
			fl := in.FS.Find(in.P, name)
			if fl != nil && fl.Dir {
				in.errf("Is a directory")
				fail()
				return
			}
			in.FS.Log = append(in.FS.Log, "write "+name.String())
			if fl == nil {
				fl = &File{Name: name}
				in.FS.Files = append(in.FS.Files, fl)
			}
			if !strings.HasSuffix(r.Op, ">>") {
				fl.Data = nil
			}
			b := &Buf{S: fl.Data}
			in.fds[fd] = b
			if strings.HasPrefix(r.Op, "&") {
				in.fds[2] = b
			}
			ff := fl
			flush = append(flush, func() { ff.Data = b.S[:len(b.S):len(b.S)] })
		case "<":
			name, ok := in.redirTarget(r.Target)
			if !ok {
				fail()
				return
			}
			if c, okc := name.Concrete(); okc && c == "/dev/null" {
				in.stdin = &Stdin{}
				continue
			}
			fl := in.FS.Find(in.P, name)
			if fl == nil || fl.Dir {
				in.err(sym.Cat(name, sym.Lit(": No such file or directory")))
				fail()
				return
			}
			if r.Fd > 0 {
				in.P.Unsupported("input descriptor %d", r.Fd)
			}
			in.stdin = &Stdin{S: fl.Data}
		case "<<<":
			s := in.expandString(r.Target)
			in.stdin = &Stdin{S: sym.Cat(s, sym.Lit("\n"))}
		case "<<", "<<-":
			in.stdin = &Stdin{S: in.expandString(r.Heredoc)}
		case ">&", "<&":
			t := wordLit(r.Target)
			fd := r.Fd
			if t == "-" {
				delete(in.fds, fd)
				continue
			}
			k, err := strconv.Atoi(t)
			if err != nil || r.Op == "<&" {
				in.P.Unsupported("descriptor duplication")
			}
			if fd < 0 {
				fd = 1
			}
			if in.fds[k] == nil {
				in.errf("%d: Bad file descriptor", k)
				fail()
				return
			}
			in.fds[fd] = in.fds[k]
		default:
			in.P.Unsupported("redirection %s", r.Op)
		}
	}
	defer restore()
	f()
}

// normPath normalises a concrete path relative to the working directory.
func normPath(s sym.Str) sym.Str {
	if c, ok := s.Concrete(); ok && c != "" {
		c = path.Clean(c)
		if strings.HasPrefix(c, "/work/") {
			c = c[len("/work/"):]
		}
		return sym.Lit(c)
	}
	for len(s) >= 2 && s[0].IsLit() && s[0].B == '.' && s[1].IsLit() && s[1].B == '/' {
		s = s[2:]
	}
	return s
}

// Find looks a path up (forking on symbolic names).
func (fs *FS) Find(p *sym.Path, name sym.Str) *File {
	n := normPath(name)
	if len(n) == 1 && n[0].IsLit() && n[0].B == '.' {
		return &File{Name: n, Dir: true}
	}
	if c, ok := n.Concrete(); ok {
		switch c {
		case "/work", "/", "..", "/tmp", "/usr", "/bin", "/etc":
			return &File{Name: n, Dir: true}
		case "/dev/null":
			return &File{Name: n}
		}
	}
	for _, f := range fs.Files {
		if p.Branch(p.StrEq(normPath(f.Name), n)) {
			return f
		}
	}
	return nil
}

func (fs *FS) Put(name, data sym.Str) *File {
	if c, ok := name.Concrete(); ok {
		for d := path.Dir(c); d != "." && d != "/"; d = path.Dir(d) {
			fs.Files = append(fs.Files, &File{Name: sym.Lit(d), Dir: true})
		}
	}
	f := &File{Name: name, Data: data}
	fs.Files = append(fs.Files, f)
	return f
}
