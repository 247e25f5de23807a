package batsym

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"verif/sym"
)

// Options for Run.
type Options struct {
	MaxSteps int
	Stdin    sym.Str
	Names    *Names
	Exist    func(sym.Str) bool // the files that exist
}

// Result of a script run.
type Result struct {
	Out, Err sym.Str
	Status   *sym.Term // 64 bits
	Syntax   string
	Vars     []string
	Steps    int
}

type frame struct {
	pos   int
	args  []sym.Str
	saved []saved
	call  bool
}

type saved struct {
	vars    map[string]sym.Str
	delayed bool
}

type interp struct {
	p       *sym.Path
	f       *sym.Factory
	o       Options
	lines   []sym.Str
	labels  []string // label of each line, or ""
	vars    map[string]sym.Str
	all     map[string]bool
	fr      *frame
	depth   int
	delayed bool
	echo    bool
	el      *sym.Term
	out     sym.Str
	errs    sym.Str
	steps   int
	fv      []forVar
	exitSt  *sym.Term
	in      sym.Str
}

type forVar struct {
	c byte
	v sym.Str
}

type (
	gotoSig  struct{ label string }
	exitSig  struct{} // leaves the script or the called routine
	abortSig struct{} // ends batch processing
)

// Run executes a script.
func Run(p *sym.Path, script sym.Str, o Options) (res *Result) {
	in := &interp{p: p, f: p.F, o: o, vars: map[string]sym.Str{}, all: map[string]bool{}, echo: true, el: p.F.BV(0, 64), in: o.Stdin}
	if in.o.MaxSteps == 0 {
		in.o.MaxSteps = 100000
	}
	in.lines = SplitLines(p, script)
	for _, l := range in.lines {
		in.labels = append(in.labels, in.labelOf(l))
	}
	res = &Result{}
	func() {
		defer func() {
			switch e := recover().(type) {
			case nil:
			case abortSig:
			case SyntaxError:
				res.Syntax = e.Msg
			default:
				panic(e)
			}
		}()
		in.frame(&frame{})
	}()
	res.Out, res.Err, res.Status, res.Steps = in.out, in.errs, in.el, in.steps
	for n := range in.all {
		res.Vars = append(res.Vars, n)
	}
	sort.Strings(res.Vars)
	return res
}

// labelOf gives the (canonical) label a line defines.
func (in *interp) labelOf(l sym.Str) string {
	i := 0
	for i < len(l) && l[i].IsLit() && strings.IndexByte(delims, l[i].B) >= 0 {
		i++
	}
	if i >= len(l) || !l[i].IsLit() || l[i].B != ':' {
		return ""
	}
	return in.labelName(l[i+1:])
}

// labelName cuts the name of a label out of the text behind its colon.
func (in *interp) labelName(l sym.Str) string {
	i := 0
	for i < len(l) && l[i].IsLit() && strings.IndexByte(delims, l[i].B) >= 0 {
		i++
	}
	j := i
	for j < len(l) && !(l[j].IsLit() && strings.IndexByte(delims+":+&<>|\n", l[j].B) >= 0) {
		j++
	}
	if i == j {
		return ""
	}
	return in.name(l[i:j])
}

// name resolves a name: letters are folded, decimal renderings are made concrete.
func (in *interp) name(s sym.Str) string {
	var sb strings.Builder
	for _, c := range s {
		switch {
		case c.IsLit():
			sb.WriteByte(c.B)
		case c.IsItoa():
			sb.WriteString(strconv.FormatInt(int64(in.p.Concretize(c.T, 64)), 10))
		default:
			v := in.p.Concretize(c.T, 64)
			sb.WriteByte(byte(v))
		}
	}
	n := []byte(sb.String())
	for i, c := range n {
		if c >= 'A' && c <= 'Z' {
			n[i] = c + 32
		}
	}
	return in.o.Names.canon(string(n))
}

func (in *interp) err(format string, a ...any) {
	in.errs = append(in.errs, sym.Lit(fmt.Sprintf(format, a...)+"\n")...)
}

func (in *interp) setEl(n int64) { in.el = in.f.BV(n, 64) }

func (in *interp) step() {
	in.steps++
	if in.steps > in.o.MaxSteps {
		in.p.Bound("batch steps")
	}
}

// frame runs commands from the frame's position until the end of the file or of the routine.
func (in *interp) frame(fr *frame) {
	outer := in.fr
	in.depth++
	if in.depth > 200 {
		in.p.Bound("batch call depth")
	}
	in.fr = fr
	fv := in.fv
	if fr.call {
		in.fv = nil // %%i of the caller is not visible while the lines of the routine are parsed
	}
	defer func() {
		in.fr = outer
		in.depth--
		in.fv = fv
	}()
	for done := false; !done; {
		func() {
			defer func() {
				switch e := recover().(type) {
				case nil:
				case exitSig:
					done = true
				case gotoSig:
					k := in.find(e.label)
					switch {
					case e.label == "eof":
						done = true
					case k < 0:
						in.err("The system cannot find the batch label specified - %s", e.label)
						in.setEl(1)
						panic(abortSig{})
					default:
						fr.pos = k + 1
						in.fv = nil
						if !fr.call {
							in.fv = nil
						}
					}
				default:
					panic(e)
				}
			}()
			ps := &Parser{P: in.p, F: in.f, Lines: in.lines, Pos: fr.pos, Expand: in.percent}
			at := fr.pos
			n := ps.Next()
			fr.pos = ps.Pos
			if in.echo && !ps.Quiet && n != nil {
				switch n.(type) {
				case *Label, Ignored:
				default: // the prompt and the command are printed
					in.out = append(in.out, sym.Lit("\n"+`C:\>`)...)
					for k := at; k < ps.Pos; k++ {
						in.out = append(append(in.out, in.lines[k]...), sym.Ch{B: '\n'})
					}
				}
			}
			if n == nil {
				done = true
				return
			}
			in.exec(n)
		}()
	}
	// settings made in the routine end with it
	for i := len(fr.saved) - 1; i >= 0; i-- {
		in.vars, in.delayed = fr.saved[i].vars, fr.saved[i].delayed
	}
}

// find searches a label from the current position on, then from the beginning.
func (in *interp) find(l string) int {
	n := len(in.labels)
	for k := 0; k < n; k++ {
		i := (in.fr.pos + k) % n
		if in.labels[i] == l {
			return i
		}
	}
	return -1
}

func (in *interp) lookup(n string) (sym.Str, bool) {
	v, ok := in.vars[n]
	if !ok {
		switch n {
		case "errorlevel":
			return sym.Itoa(in.el), true
		case "cd", "date", "time", "random", "cmdcmdline", "cmdextversion", "highestnumanodenumber", "path", "pathext", "comspec", "os", "prompt", "temp", "tmp", "windir", "systemroot", "systemdrive", "username", "userprofile", "userdomain", "homepath", "homedrive", "appdata", "localappdata", "programdata", "programfiles", "public", "computername", "number_of_processors", "processor_architecture", "processor_identifier", "processor_level", "processor_revision", "psmodulepath", "sessionname", "allusersprofile", "commonprogramfiles", "driverdata", "logonserver", "onedrive", "programw6432":
			in.p.Unsupported("variable %s of the environment", n)
		}
	}
	return v, ok
}

func (in *interp) assign(n string, v sym.Str) {
	in.all[n] = true
	switch n {
	case "errorlevel", "cd", "date", "time", "random", "cmdcmdline", "cmdextversion", "path", "pathext", "comspec":
		in.p.Unsupported("assignment to %s", n)
	}
	if len(v) == 0 {
		delete(in.vars, n)
		return
	}
	in.vars[n] = v
}

// percent is phase 1: expansion of arguments and variables when a line is read.
func (in *interp) percent(l sym.Str) sym.Str {
	p := in.p
	out := sym.Str{}
	at := func(i int, b byte) bool { return i < len(l) && isCh(p, l[i], b) }
	for i := 0; i < len(l); {
		if l[i].IsItoa() || !isCh(p, l[i], '%') {
			out = append(out, l[i])
			i++
			continue
		}
		i++
		if i >= len(l) {
			break
		}
		if at(i, '%') {
			out = append(out, sym.Ch{B: '%'})
			i++
			continue
		}
		if at(i, '*') {
			for k := 1; k < len(in.fr.args); k++ {
				if k > 1 {
					out = append(out, sym.Ch{B: ' '})
				}
				out = append(out, in.fr.args[k]...)
			}
			i++
			continue
		}
		if l[i].IsItoa() {
			p.Unsupported("%% in front of a decimal rendering")
		}
		digit := func(k int) (int, bool) {
			if k >= len(l) || l[k].IsItoa() {
				return 0, false
			}
			if l[k].IsLit() {
				return int(l[k].B) - '0', l[k].B >= '0' && l[k].B <= '9'
			}
			for b := byte('0'); b <= '9'; b++ {
				if isCh(p, l[k], b) {
					return int(b - '0'), true
				}
			}
			return 0, false
		}
		if d, ok := digit(i); ok {
			out = append(out, in.arg(d)...)
			i++
			continue
		}
		if at(i, '~') {
			if d, ok := digit(i + 1); ok {
				out = append(out, unquote(p, in.arg(d))...)
				i += 2
				continue
			}
			p.Unsupported("argument modifiers")
		}
		// %name%, %name:...%
		j := i
		for j < len(l) && !at(j, '%') && !at(j, ':') {
			j++
		}
		if j >= len(l) {
			continue // the percent sign goes
		}
		name := l[i:j]
		if at(j, '%') {
			if j > i {
				v, _ := in.lookup(in.name(name))
				out = append(out, v...)
			}
			i = j + 1
			continue
		}
		if j == i {
			// "%:": nothing is expanded
			i = j + 1
			continue
		}
		v, ok := in.lookup(in.name(name))
		if !ok {
			i = j + 1
			continue
		}
		k := j + 1
		for k < len(l) && !at(k, '%') {
			k++
		}
		if k >= len(l) {
			continue
		}
		out = append(out, in.modify(v, l[j+1:k])...)
		i = k + 1
	}
	return out
}

func (in *interp) arg(d int) sym.Str {
	if d < len(in.fr.args) {
		return in.fr.args[d]
	}
	if d == 0 {
		return sym.Lit("script.bat")
	}
	return nil
}

func unquote(p *sym.Path, s sym.Str) sym.Str {
	if len(s) > 0 && !s[0].IsItoa() && isCh(p, s[0], '"') {
		s = s[1:]
		if len(s) > 0 && !s[len(s)-1].IsItoa() && isCh(p, s[len(s)-1], '"') {
			s = s[:len(s)-1]
		}
	}
	return s
}

// modify applies the text behind the colon of %v:...% or !v:...!.
func (in *interp) modify(v sym.Str, m sym.Str) sym.Str {
	p := in.p
	if len(m) == 0 || m[0].IsItoa() || !isCh(p, m[0], '~') {
		p.Unsupported("search and replace in a variable")
	}
	v = p.Digits(v)
	txt := ""
	for _, c := range m[1:] {
		switch {
		case c.IsLit():
			txt += string(c.B)
		case c.IsItoa():
			txt += strconv.FormatInt(int64(p.Concretize(c.T, 64)), 10)
		default:
			p.Unsupported("symbolic position in a substring")
		}
	}
	n := len(v)
	parts := strings.SplitN(txt, ",", 2)
	num := func(s string) int {
		s = strings.TrimSpace(s)
		if s == "" {
			return 0
		}
		k, err := strconv.Atoi(s)
		if err != nil {
			p.Unsupported("substring position %q", s)
		}
		return k
	}
	a := num(parts[0])
	if a < 0 {
		a += n
		if a < 0 {
			a = 0
		}
	}
	if a > n {
		a = n
	}
	e := n
	if len(parts) == 2 {
		k := num(parts[1])
		if k < 0 {
			e = n + k
		} else {
			e = a + k
		}
	}
	if e > n {
		e = n
	}
	if e < a {
		e = a
	}
	return v[a:e]
}

// delay is phase 5 on one token.
func (in *interp) delay(s sym.Str) sym.Str {
	p := in.p
	if !in.delayed {
		return s
	}
	at := func(i int, b byte) bool { return i < len(s) && isCh(p, s[i], b) }
	any := false
	for i := range s {
		if at(i, '!') {
			any = true
			break
		}
	}
	if !any {
		return s
	}
	out := sym.Str{}
	for i := 0; i < len(s); {
		if s[i].IsItoa() {
			out = append(out, s[i])
			i++
			continue
		}
		if at(i, '^') {
			i++
			if i < len(s) {
				out = append(out, s[i])
				i++
			}
			continue
		}
		if !at(i, '!') {
			out = append(out, s[i])
			i++
			continue
		}
		for at(i, '!') {
			i++
		}
		j := i
		for j < len(s) && !at(j, '!') && !at(j, ':') {
			j++
		}
		if j >= len(s) {
			continue
		}
		if at(j, '!') {
			if j > i {
				v, _ := in.lookup(in.name(s[i:j]))
				out = append(out, v...)
			}
			i = j + 1
			continue
		}
		k := j
		for k < len(s) && !at(k, '!') {
			k++
		}
		if k >= len(s) {
			continue // unpaired
		}
		if j == i {
			p.Unsupported("delayed expansion without a name")
		}
		v, ok := in.lookup(in.name(s[i:j]))
		if !ok {
			i = j + 1
			continue
		}
		out = append(out, in.modify(v, s[j+1:k])...)
		i = k + 1
	}
	return out
}

// forVars is phase 4.
func (in *interp) forVars(s sym.Str) sym.Str {
	if len(in.fv) == 0 {
		return s
	}
	out := sym.Str{}
	for i := 0; i < len(s); i++ {
		if s[i].IsItoa() || !isCh(in.p, s[i], '%') || i+1 >= len(s) || !s[i+1].IsLit() {
			out = append(out, s[i])
			continue
		}
		hit := false
		if s[i+1].B == '~' && i+2 < len(s) && s[i+2].IsLit() {
			for k := len(in.fv) - 1; k >= 0 && !hit; k-- {
				if in.fv[k].c == s[i+2].B {
					out = append(out, unquote(in.p, in.fv[k].v)...)
					i += 2
					hit = true
				}
			}
		}
		for k := len(in.fv) - 1; k >= 0 && !hit; k-- {
			if in.fv[k].c == s[i+1].B {
				out = append(out, in.fv[k].v...)
				i++
				hit = true
			}
		}
		if !hit {
			out = append(out, s[i])
		}
	}
	return out
}

func (in *interp) exec(n Node) {
	switch n := n.(type) {
	case *Label, Ignored:
	case *Simple:
		in.step()
		in.simple(n)
	case *Block:
		if len(n.Redirs) > 0 {
			in.p.Unsupported("redirected block")
		}
		for _, c := range n.Items {
			in.exec(c)
		}
	case *Seq:
		switch n.Op {
		case "&":
			in.exec(n.L)
			in.exec(n.R)
		case "&&":
			in.exec(n.L)
			if in.p.Branch(in.f.Eq(in.el, in.f.BV(0, 64))) {
				in.exec(n.R)
			}
		case "||":
			in.exec(n.L)
			if !in.p.Branch(in.f.Eq(in.el, in.f.BV(0, 64))) {
				in.exec(n.R)
			}
		default:
			in.p.Unsupported("pipe")
		}
	case *If:
		in.step()
		if in.cond(n) != n.Not {
			in.exec(n.Then)
		} else if n.Else != nil {
			in.exec(n.Else)
		}
	case *For:
		in.step()
		in.forLoop(n)
	default:
		in.p.Unsupported("command %T", n)
	}
}

func (in *interp) cond(n *If) bool {
	a := in.delay(in.forVars(n.A))
	switch n.Kind {
	case "defined":
		_, ok := in.lookup(in.name(a))
		return ok
	case "cmp":
		b := in.delay(in.forVars(n.B))
		return in.p.Branch(in.compare(a, b, n.Op, n.Fold))
	}
	if n.Kind == "exist" && in.o.Exist != nil {
		return in.o.Exist(in.path(a))
	}
	in.p.Unsupported("if %s", n.Kind)
	return false
}

// path removes the quotes of a file name.
func (in *interp) path(s sym.Str) (r sym.Str) {
	for _, c := range s {
		switch {
		case c.IsLit() && c.B == '"':
			continue
		case c.IsByte():
			in.p.Assume(in.f.Not(in.f.Eq(c.T, in.f.BV('"', 8))))
		case c.IsLit() && strings.IndexByte("*?\\", c.B) >= 0:
			in.p.Unsupported("file name %s", s.String())
		}
		r = append(r, c)
	}
	return r
}

// number is an operand all of which is one number.
func (in *interp) number(s sym.Str) (*sym.Term, bool) {
	f := in.f
	if len(s) == 0 {
		return nil, false
	}
	if len(s) == 1 && s[0].IsItoa() {
		return s[0].T, true
	}
	neg := false
	t := s
	if t[0].IsLit() && (t[0].B == '-' || t[0].B == '+') {
		neg = t[0].B == '-'
		t = t[1:]
	}
	if len(t) == 1 && t[0].IsItoa() {
		if in.p.Branch(f.Slt(t[0].T, f.BV(0, 64))) {
			return nil, false // two signs
		}
		if neg {
			return f.Neg(t[0].T), true
		}
		return t[0].T, true
	}
	if len(t) == 0 || t[0].IsLit() && (t[0].B < '0' || t[0].B > '9') {
		return nil, false
	}
	for _, c := range t {
		if c.IsByte() || c.IsItoa() && len(t) > 1 {
			in.p.Unsupported("symbolic text compared without quotes")
		}
	}
	c, ok := t.Concrete()
	if !ok || c == "" {
		return nil, false
	}
	v, err := strconv.ParseInt(c, 0, 64)
	if err != nil || strings.ContainsAny(c, "_bBoO+-") {
		return nil, false
	}
	if neg {
		v = -v
	}
	return f.BV(v, 64), true
}

func (in *interp) compare(a, b sym.Str, op string, fold bool) *sym.Term {
	f := in.f
	if fold {
		in.p.Unsupported("if /i")
	}
	if op == "==" {
		return in.p.StrEq(a, b)
	}
	if len(a) == 0 || len(b) == 0 {
		panic(SyntaxError{"empty operand of a comparison"})
	}
	if x, ok := in.number(a); ok {
		if y, ok := in.number(b); ok {
			switch op {
			case "equ":
				return f.Eq(x, y)
			case "neq":
				return f.Ne(x, y)
			case "lss":
				return f.Slt(x, y)
			case "leq":
				return f.Sle(x, y)
			case "gtr":
				return f.Slt(y, x)
			case "geq":
				return f.Sle(y, x)
			}
		}
	}
	switch op {
	case "equ":
		return in.p.StrEq(a, b)
	case "neq":
		return f.Not(in.p.StrEq(a, b))
	}
	lt, eq := in.order(a, b)
	switch op {
	case "lss":
		return lt
	case "leq":
		return f.Or(lt, eq)
	case "gtr":
		return f.Not(f.Or(lt, eq))
	}
	return f.Not(lt)
}

// order compares texts of digits (and quotes) as strings.
func (in *interp) order(a, b sym.Str) (lt, eq *sym.Term) {
	f := in.f
	a, b = in.p.Digits(a), in.p.Digits(b)
	for _, s := range []sym.Str{a, b} {
		for _, c := range s {
			if c.IsLit() && c.B != '"' && (c.B < '0' || c.B > '9') {
				in.p.Unsupported("collation of %q", string(c.B))
			}
		}
	}
	lt, eq = f.Bool(len(a) < len(b)), f.Bool(len(a) == len(b))
	for i := min(len(a), len(b)) - 1; i >= 0; i-- {
		x, y := f.ByteTerm(a[i]), f.ByteTerm(b[i])
		same := f.Eq(x, y)
		lt = f.Or(f.Ult(x, y), f.And(same, lt))
		eq = f.And(same, eq)
	}
	return
}

func (in *interp) forLoop(n *For) {
	if n.Opt != "f" {
		in.p.Unsupported("for without /f")
	}
	if o, ok := n.Args.Concrete(); !ok || strings.TrimSpace(o) != "delims=" {
		in.p.Unsupported("for options %s", n.Args.String())
	}
	set := in.delay(in.forVars(n.Set))
	for len(set) > 0 && set[0].IsLit() && (set[0].B == ' ' || set[0].B == '\t') {
		set = set[1:]
	}
	for len(set) > 0 && set[len(set)-1].IsLit() && (set[len(set)-1].B == ' ' || set[len(set)-1].B == '\t') {
		set = set[:len(set)-1]
	}
	if len(set) < 2 || !set[0].IsLit() || set[0].B != '"' || !set[len(set)-1].IsLit() || set[len(set)-1].B != '"' {
		in.p.Unsupported("for /f over a file or a command")
	}
	for _, l := range SplitLines(in.p, set[1:len(set)-1]) {
		if len(l) == 0 {
			continue
		}
		if !l[0].IsItoa() && isCh(in.p, l[0], ';') {
			continue
		}
		in.fv = append(in.fv, forVar{n.Var, l})
		depth := len(in.fv)
		in.exec(n.Do)
		in.fv = in.fv[:depth-1]
	}
}

// split takes the command word off a command.
func (in *interp) split(s sym.Str) (string, sym.Str) {
	i := 0
	for i < len(s) && s[i].IsLit() && strings.IndexByte(delims, s[i].B) >= 0 {
		i++
	}
	s = s[i:]
	w := []byte{}
	for _, c := range s {
		if !c.IsLit() {
			break
		}
		b := c.B
		if b >= 'A' && b <= 'Z' {
			b += 32
		}
		if b < 'a' || b > 'z' {
			break
		}
		w = append(w, b)
	}
	return string(w), s[len(w):]
}

func (in *interp) simple(n *Simple) {
	if len(n.Redirs) > 0 {
		in.p.Unsupported("redirection")
	}
	word, rest := in.split(in.forVars(n.Text))
	rest = in.delay(rest)
	lead := byte(0)
	if len(rest) > 0 {
		if !rest[0].IsLit() {
			in.p.Unsupported("command %s", n.Text.String())
		}
		lead = rest[0].B
		if strings.IndexByte(delims+"/.(:\"", lead) < 0 {
			in.p.Unsupported("command %s", n.Text.String())
		}
	}
	args := rest
	for len(args) > 0 && args[0].IsLit() && strings.IndexByte(delims, args[0].B) >= 0 {
		args = args[1:]
	}
	switch word {
	case "echo":
		in.echoCmd(rest, lead)
	case "set":
		in.setCmd(args)
	case "goto":
		if len(args) > 0 && args[0].IsLit() && args[0].B == ':' {
			args = args[1:]
		}
		l := in.labelName(args)
		if l == "" {
			in.err("No batch label specified to GOTO command.")
			in.setEl(1)
			panic(abortSig{})
		}
		panic(gotoSig{l})
	case "call":
		in.callCmd(args)
	case "exit":
		in.exitCmd(args)
	case "setlocal":
		vs := map[string]sym.Str{}
		for k, v := range in.vars {
			vs[k] = v
		}
		in.fr.saved = append(in.fr.saved, saved{in.vars, in.delayed})
		in.vars = vs
		o, ok := args.Concrete()
		if !ok {
			in.p.Unsupported("setlocal option")
		}
		for _, w := range strings.Fields(strings.ToLower(o)) {
			switch w {
			case "enabledelayedexpansion":
				in.delayed = true
			case "disabledelayedexpansion":
				in.delayed = false
			case "enableextensions":
			default:
				in.p.Unsupported("setlocal %s", w)
			}
		}
		in.setEl(0)
	case "endlocal":
		if k := len(in.fr.saved); k > 0 {
			in.vars, in.delayed = in.fr.saved[k-1].vars, in.fr.saved[k-1].delayed
			in.fr.saved = in.fr.saved[:k-1]
		}
	default:
		in.p.Unsupported("command %s", n.Text.String())
	}
}

func (in *interp) echoCmd(rest sym.Str, lead byte) {
	switch lead {
	case 0:
		in.out = append(in.out, in.echoState()...)
		return
	case '.', '(', ':', '/':
		if lead == '.' || lead == ':' {
			// a file of that name is looked for first; none exists
		}
		in.out = append(append(in.out, rest[1:]...), sym.Ch{B: '\n'})
		return
	}
	body := rest[1:]
	if lead == '"' {
		body = rest
	}
	p := in.p
	blank := true
	var core sym.Str
	for _, c := range body {
		if c.IsItoa() {
			blank = false
			break
		}
		sp := false
		for _, b := range []byte(" \t,;=") {
			if isCh(p, c, b) {
				sp = true
			}
		}
		if !sp {
			blank = false
			break
		}
	}
	if blank {
		in.out = append(in.out, in.echoState()...)
		return
	}
	core = body
	for len(core) > 0 && !core[0].IsItoa() && isCh(p, core[0], ' ') {
		core = core[1:]
	}
	for len(core) > 0 && !core[len(core)-1].IsItoa() && isCh(p, core[len(core)-1], ' ') {
		core = core[:len(core)-1]
	}
	is := func(w string) bool {
		if len(core) != len(w) {
			return false
		}
		eq := in.f.True
		for i, c := range core {
			if c.IsItoa() {
				return false
			}
			t := in.f.ByteTerm(c)
			eq = in.f.And(eq, in.f.Or(in.f.Eq(t, in.f.BV(int64(w[i]), 8)), in.f.Eq(t, in.f.BV(int64(w[i]-32), 8))))
		}
		return p.Branch(eq)
	}
	switch {
	case is("on"):
		in.echo = true
		return
	case is("off"):
		in.echo = false
		return
	}
	if len(core) >= 2 && !core[0].IsItoa() && isCh(p, core[0], '/') && !core[1].IsItoa() && isCh(p, core[1], '?') {
		p.Unsupported("help text of echo")
	}
	in.out = append(append(in.out, body...), sym.Ch{B: '\n'})
}

func (in *interp) echoState() sym.Str {
	if in.echo {
		return sym.Lit("ECHO is on.\n")
	}
	return sym.Lit("ECHO is off.\n")
}

func (in *interp) exitCmd(args sym.Str) {
	b := false
	if len(args) >= 2 && args[0].IsLit() && args[0].B == '/' && args[1].IsLit() && (args[1].B == 'B' || args[1].B == 'b') {
		b = true
		args = args[2:]
	}
	for len(args) > 0 && args[0].IsLit() && strings.IndexByte(delims, args[0].B) >= 0 {
		args = args[1:]
	}
	for len(args) > 0 && args[len(args)-1].IsLit() && args[len(args)-1].B == ' ' {
		args = args[:len(args)-1]
	}
	if len(args) > 0 {
		v, ok := in.number(args)
		if !ok {
			in.p.Unsupported("exit status %s", args.String())
		}
		in.el = v
	}
	if !b {
		panic(abortSig{})
	}
	panic(exitSig{})
}

func (in *interp) callCmd(args sym.Str) {
	p := in.p
	// phase 6: a second round of %-expansion; carets inside quotes are doubled
	var s sym.Str
	quoted := false
	for _, c := range args {
		s = append(s, c)
		if c.IsItoa() {
			continue
		}
		if isCh(p, c, '"') {
			quoted = !quoted
		} else if quoted && isCh(p, c, '^') {
			s = append(s, c)
		}
	}
	s = in.percent(s)
	if len(s) == 0 || !s[0].IsLit() || s[0].B != ':' {
		p.Unsupported("call %s", args.String())
	}
	var words []sym.Str
	var cur sym.Str
	in2, quoted := false, false
	for _, c := range s {
		lit := byte(0)
		if c.IsLit() {
			lit = c.B
		} else if c.IsByte() {
			for _, b := range []byte(delims + "\"&|<>^()%!/") {
				if isCh(p, c, b) {
					lit = b
				}
			}
		}
		if lit == '"' {
			quoted = !quoted
		}
		if !quoted && lit != 0 && lit != '"' && strings.IndexByte("&|<>^()", lit) >= 0 {
			p.Unsupported("special character in the arguments of call")
		}
		if !quoted && lit != 0 && strings.IndexByte(delims, lit) >= 0 {
			if in2 {
				words = append(words, cur)
			}
			in2, cur = false, nil
			continue
		}
		in2 = true
		cur = append(cur, c)
	}
	if in2 {
		words = append(words, cur)
	}
	l := in.labelName(words[0][1:])
	k := in.find(l)
	if k < 0 {
		in.err("The system cannot find the batch label specified - %s", l)
		in.setEl(1)
		return
	}
	in.frame(&frame{pos: k + 1, args: words, call: true})
}

func (in *interp) setCmd(args sym.Str) {
	p := in.p
	opt := byte(0)
	if len(args) >= 2 && args[0].IsLit() && args[0].B == '/' && args[1].IsLit() {
		opt = args[1].B | 32
		args = args[2:]
		for len(args) > 0 && args[0].IsLit() && strings.IndexByte(delims, args[0].B) >= 0 {
			args = args[1:]
		}
	}
	if opt == 'a' {
		in.arith(args)
		return
	}
	if len(args) > 0 && args[0].IsLit() && args[0].B == '"' {
		// up to the last quote
		args = args[1:]
		last := -1
		for i, c := range args {
			if !c.IsItoa() && isCh(p, c, '"') {
				last = i
			}
		}
		if last >= 0 {
			args = args[:last]
		}
	}
	eq := -1
	for i, c := range args {
		if !c.IsItoa() && isCh(p, c, '=') {
			eq = i
			break
		}
	}
	if eq <= 0 {
		p.Unsupported("set %s", args.String())
	}
	name := in.name(args[:eq])
	if opt == 'p' {
		p.Unsupported("set /p")
	}
	if opt != 0 {
		p.Unsupported("set /%c", opt)
	}
	in.assign(name, append(sym.Str{}, args[eq+1:]...))
}

// --- set /A ---

type arith struct {
	in *interp
	s  sym.Str
	i  int
}

type arithErr struct{ msg string }

func (in *interp) arith(s sym.Str) {
	var t sym.Str
	for _, c := range s {
		if c.IsLit() && c.B == '"' {
			continue
		}
		if c.IsByte() {
			in.p.Unsupported("symbolic text in set /A")
		}
		t = append(t, c)
	}
	defer func() {
		if e := recover(); e != nil {
			a, ok := e.(arithErr)
			if !ok {
				panic(e)
			}
			in.err("%s", a.msg)
			in.setEl(1073750988)
		}
	}()
	a := &arith{in: in, s: t}
	a.list()
	a.ws()
	if a.i < len(a.s) {
		panic(arithErr{"Missing operator."})
	}
}

func (a *arith) ws() {
	for a.i < len(a.s) && a.s[a.i].IsLit() && (a.s[a.i].B == ' ' || a.s[a.i].B == '\t') {
		a.i++
	}
}

func (a *arith) lit(k int) byte {
	if a.i+k < len(a.s) && a.s[a.i+k].IsLit() {
		return a.s[a.i+k].B
	}
	return 0
}

func (a *arith) op(o string) bool {
	a.ws()
	for k := 0; k < len(o); k++ {
		if a.lit(k) != o[k] {
			return false
		}
	}
	a.i += len(o)
	return true
}

func (a *arith) list() *sym.Term {
	for {
		v := a.assign()
		if !a.op(",") {
			return v
		}
	}
}

func nameByte(b byte) bool {
	return b != 0 && (b < '0' || b > '9') && strings.IndexByte(" \t()!~-*/%+<>&^|=,\"", b) < 0
}

func (a *arith) ident() (string, bool) {
	a.ws()
	if !nameByte(a.lit(0)) {
		return "", false
	}
	j := a.i
	for j < len(a.s) && (!a.s[j].IsLit() || nameByte(a.s[j].B) || a.s[j].B >= '0' && a.s[j].B <= '9') {
		j++
	}
	n := a.in.name(a.s[a.i:j])
	a.i = j
	return n, true
}

func (a *arith) assign() *sym.Term {
	save := a.i
	if n, ok := a.ident(); ok {
		for _, o := range []string{"=", "*=", "/=", "%=", "+=", "-=", "&=", "^=", "|=", "<<=", ">>="} {
			if a.op(o) {
				r := a.assign()
				if len(o) > 1 {
					r = a.bin(o[:len(o)-1], a.value(n), r)
				}
				a.in.assign(n, sym.Itoa(r))
				return r
			}
		}
	}
	a.i = save
	return a.level(0)
}

var levels = [][]string{{"|"}, {"^"}, {"&"}, {"<<", ">>"}, {"+", "-"}, {"*", "/", "%"}}

func (a *arith) level(k int) *sym.Term {
	if k == len(levels) {
		return a.unary()
	}
	l := a.level(k + 1)
	for {
		hit := ""
		for _, o := range levels[k] {
			if a.op(o) {
				hit = o
				break
			}
		}
		if hit == "" {
			return l
		}
		l = a.bin(hit, l, a.level(k+1))
	}
}

func (a *arith) bin(o string, l, r *sym.Term) *sym.Term {
	f := a.in.f
	x, y := f.Trunc(l, 32), f.Trunc(r, 32)
	var t *sym.Term
	switch o {
	case "+":
		t = f.Add(x, y)
	case "-":
		t = f.Sub(x, y)
	case "*":
		t = f.Mul(x, y)
	case "/", "%":
		if a.in.p.Branch(f.Eq(y, f.BV(0, 32))) {
			panic(arithErr{"Divide by zero error."})
		}
		if o == "/" {
			t = f.SDiv(x, y)
		} else {
			t = f.SRem(x, y)
		}
	default:
		a.in.p.Unsupported("operator %s of set /A", o)
	}
	return f.SExt(t, 64)
}

func (a *arith) unary() *sym.Term {
	f := a.in.f
	switch {
	case a.op("-"):
		return f.SExt(f.Neg(f.Trunc(a.unary(), 32)), 64)
	case a.op("+"):
		return a.unary()
	case a.op("("):
		v := a.assign()
		if !a.op(")") {
			panic(arithErr{"Unbalanced parenthesis."})
		}
		return v
	case a.op("!"), a.op("~"):
		a.in.p.Unsupported("operator of set /A")
	}
	a.ws()
	if a.i >= len(a.s) {
		panic(arithErr{"Missing operand."})
	}
	if c := a.s[a.i]; c.IsItoa() {
		if nx := a.i + 1; nx < len(a.s) && (!a.s[nx].IsLit() || nameByte(a.s[nx].B) || a.s[nx].B >= '0' && a.s[nx].B <= '9') {
			a.in.p.Unsupported("text behind a number in set /A")
		}
		a.i++
		a.in.noMin(c.T)
		return c.T
	}
	if b := a.lit(0); b >= '0' && b <= '9' {
		j := a.i
		for j < len(a.s) && a.s[j].IsLit() && (a.s[j].B >= '0' && a.s[j].B <= '9' || nameByte(a.s[j].B)) {
			j++
		}
		if j < len(a.s) && a.s[j].IsItoa() {
			a.in.p.Unsupported("text behind a number in set /A")
		}
		c, _ := a.s[a.i:j].Concrete()
		a.i = j
		v, err := strconv.ParseInt(c, 0, 64)
		if err != nil || strings.ContainsAny(c, "_bBoO") {
			panic(arithErr{"Invalid number.  Numeric constants are either decimal (17), hexadecimal (0x11), or octal (021)."})
		}
		if v > 1<<31-1 {
			if v == 1<<31 && a.i-len(c) > 0 && a.s[a.i-len(c)-1] == (sym.Ch{B: '-'}) {
				a.in.noMin(f.BV(-1<<31, 64))
			}
			panic(arithErr{"Invalid number.  Numbers are limited to 32-bits of precision."})
		}
		return f.BV(v, 64)
	}
	if n, ok := a.ident(); ok {
		return a.value(n)
	}
	panic(arithErr{"Missing operand."})
}

// noMin leaves the least 32-bit integer out: as an operand its digits exceed what set /A accepts.
func (in *interp) noMin(t *sym.Term) {
	f := in.f
	in.p.Assume(f.Ne(t, f.BV(-1<<31, 64)))
}

func (a *arith) value(n string) *sym.Term {
	v, ok := a.in.lookup(n)
	if !ok {
		return a.in.f.BV(0, 64)
	}
	t, ok := a.in.number(v)
	if !ok {
		return a.in.f.BV(0, 64)
	}
	return t
}
