package chk

import (
	"fmt"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"verif/bashsym"
	"verif/batsym"
	"verif/gosym"
	"verif/harness"
	"verif/sym"
)

// bashForm gives a reason why a Bash script is not well-formed, or "".
func bashForm(p *sym.Path, script sym.Str) (bad string) {
	defer func() {
		if e := recover(); e != nil {
			s, ok := e.(bashsym.SyntaxError)
			if !ok {
				panic(e)
			}
			bad = s.Error()
		}
	}()
	ps := &bashsym.Parser{P: p, F: p.F, S: append(sym.Str{}, script...)}
	w := &bashWalk{defs: map[string]int{}, calls: map[string]map[string]bool{}}
	for _, n := range ps.ParseAll() {
		w.walk(reflect.ValueOf(n), "")
	}
	for _, n := range sortedStr(w.defs) {
		if w.defs[n] > 1 {
			return "function " + n + " is defined twice"
		}
	}
	var missing []string
	for _, cs := range w.calls {
		for c := range cs {
			if w.defs[c] == 0 && (c[0] == '_' || strings.HasPrefix(c, "f_")) {
				missing = append(missing, c)
			}
		}
	}
	sort.Strings(missing)
	return usage(w.defs, w.calls, missing)
}

// usage checks that every routine whose name begins with an underscore is called from elsewhere, directly or not, and that
// nothing calls a missing one. calls: caller ("" for the program) -> callees.
func usage(defs map[string]int, calls map[string]map[string]bool, missing []string) string {
	if len(missing) > 0 {
		return "calls " + missing[0] + ", which the script does not contain"
	}
	used := map[string]bool{}
	var visit func(n string)
	visit = func(n string) {
		for c := range calls[n] {
			if !used[c] {
				used[c] = true
				visit(c)
			}
		}
	}
	visit("")
	for d := range defs {
		if d[0] != '_' { // functions of the program count as used
			visit(d)
		}
	}
	for _, d := range sortedStr(defs) {
		if d[0] == '_' && !used[d] {
			return "contains the helper " + d + ", which nothing uses"
		}
	}
	return ""
}

type bashWalk struct {
	defs  map[string]int
	calls map[string]map[string]bool
}

var strType = reflect.TypeOf(sym.Str{})

func (w *bashWalk) walk(v reflect.Value, fn string) {
	switch v.Kind() {
	case reflect.Interface, reflect.Pointer:
		if v.IsNil() {
			return
		}
		switch n := v.Interface().(type) {
		case *bashsym.FuncDef:
			w.defs[n.Name]++
			w.walk(reflect.ValueOf(n.Body), n.Name)
			return
		case *bashsym.Simple:
			if len(n.Words) > 0 {
				if c, ok := literalWord(n.Words[0]); ok {
					if w.calls[fn] == nil {
						w.calls[fn] = map[string]bool{}
					}
					w.calls[fn][c] = true
				}
			}
		case *sym.Term, *sym.Path, *sym.Factory:
			return
		}
		w.walk(v.Elem(), fn)
	case reflect.Slice:
		if v.Type() == strType {
			return
		}
		for i := 0; i < v.Len(); i++ {
			w.walk(v.Index(i), fn)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			w.walk(v.MapIndex(k), fn)
		}
	case reflect.Struct:
		if v.Type().PkgPath() == "verif/sym" {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			w.walk(v.Field(i), fn)
		}
	}
}

func literalWord(w *bashsym.Word) (string, bool) {
	s := ""
	for _, p := range w.Parts {
		c, ok := p.S.Concrete()
		if p.Kind != bashsym.PLit || !ok {
			return "", false
		}
		s += c
	}
	return s, s != ""
}

// place of a node: list and index, outermost first
type place []struct{ list, idx int }

type batForm struct {
	lists  [][]batsym.Node
	labels map[string]place
	twice  string
	jumps  []batJump
	anon   int
}

type batJump struct {
	call bool
	to   string
	at   place
}

// batchForm gives a reason why a Batch script is not well-formed, or "".
func batchForm(p *sym.Path, script sym.Str) (bad string) {
	defer func() {
		if e := recover(); e != nil {
			s, ok := e.(batsym.SyntaxError)
			if !ok {
				panic(e)
			}
			bad = s.Error()
		}
	}()
	ps := &batsym.Parser{P: p, F: p.F, Lines: batsym.SplitLines(p, script)}
	ps.Expand = func(l sym.Str) sym.Str { return percent(p, l) }
	b := &batForm{labels: map[string]place{}}
	var top []batsym.Node
	for {
		start := ps.Pos
		n := ps.Next()
		if n == nil {
			break
		}
		if _, ok := n.(batsym.Ignored); ok {
			l := ps.Lines[start]
			for len(l) > 0 && l[0].IsLit() && strings.IndexByte(" \t,;=", l[0].B) >= 0 {
				l = l[1:]
			}
			if len(l) > 0 && l[0].IsLit() && l[0].B == ')' {
				return fmt.Sprintf("line %d closes a block that was not opened", start+1)
			}
		}
		top = append(top, n)
	}
	b.list(top, nil)
	if b.twice != "" {
		return "label " + b.twice + " is defined twice"
	}
	return b.check()
}

// percent replaces the percent signs of a line: two stand for one, parameters and variables for some plain text, references
// to names that no variable of a script has vanish, as does a single sign.
func percent(p *sym.Path, l sym.Str) (out sym.Str) {
	is := func(i int, b byte) bool {
		return i < len(l) && (l[i].IsLit() && l[i].B == b || l[i].IsByte() && p.Branch(p.F.Eq(l[i].T, p.F.BV(int64(b), 8))))
	}
	for i := 0; i < len(l); i++ {
		if !is(i, '%') {
			out = append(out, l[i])
			continue
		}
		i++
		if is(i, '%') {
			out = append(out, sym.Ch{B: '%'})
			continue
		}
		if i < len(l) && l[i].IsLit() && (l[i].B >= '0' && l[i].B <= '9' || l[i].B == '*') {
			out = append(out, sym.Ch{B: '_'})
			continue
		}
		if i < len(l) && l[i].IsLit() && l[i].B == '~' {
			j := i + 1
			for j < len(l) && l[j].IsLit() && strings.IndexByte("fdpnxsatz", l[j].B) >= 0 {
				j++
			}
			if j < len(l) && l[j].IsLit() && l[j].B >= '0' && l[j].B <= '9' {
				i = j
				out = append(out, sym.Ch{B: '_'})
				continue
			}
		}
		j := i
		for j < len(l) && !is(j, '%') {
			j++
		}
		if j == len(l) {
			i--
			continue
		}
		plain := j > i
		for _, c := range l[i:j] {
			if !c.IsLit() || !(c.B == '_' || c.B >= 'a' && c.B <= 'z' || c.B >= 'A' && c.B <= 'Z' || c.B >= '0' && c.B <= '9') {
				plain = false
			}
		}
		if plain {
			out = append(out, sym.Ch{B: '_'})
		}
		i = j
	}
	return out
}

func (b *batForm) list(l []batsym.Node, at place) {
	id := len(b.lists)
	b.lists = append(b.lists, l)
	for i, n := range l {
		b.node(n, append(append(place{}, at...), struct{ list, idx int }{id, i}))
	}
}

func (b *batForm) sub(n batsym.Node, at place) {
	switch x := n.(type) {
	case nil:
	case *batsym.Block:
		b.list(x.Items, at)
	default:
		b.list([]batsym.Node{n}, at)
	}
}

func (b *batForm) node(n batsym.Node, at place) {
	switch x := n.(type) {
	case *batsym.Block:
		b.list(x.Items, at)
	case *batsym.If:
		b.sub(x.Then, at)
		b.sub(x.Else, at)
	case *batsym.For:
		b.sub(x.Do, at)
	case *batsym.Seq:
		b.node(x.L, at)
		b.node(x.R, at)
	case *batsym.Label:
		if name := labelText(x.Text); name != "" && x.Line >= 0 {
			if _, ok := b.labels[name]; ok && b.twice == "" {
				b.twice = name
			}
			b.labels[name] = at
		}
	case *batsym.Simple:
		if to, call, ok := jumpTarget(x.Text); ok {
			b.jumps = append(b.jumps, batJump{call, to, at})
		}
	}
}

// lead is the literal beginning of a text.
func lead(s sym.Str) string {
	var sb strings.Builder
	for _, c := range s {
		if !c.IsLit() {
			break
		}
		sb.WriteByte(c.B)
	}
	return sb.String()
}

func labelText(s sym.Str) string {
	t := lead(s)
	t = strings.TrimLeft(strings.TrimPrefix(t, ":"), " \t,;=")
	if i := strings.IndexAny(t, " \t,;=:+&<>|"); i >= 0 {
		t = t[:i]
	}
	return strings.ToLower(t)
}

func jumpTarget(s sym.Str) (to string, call, ok bool) {
	t := strings.TrimLeft(lead(s), " \t,;=@")
	l := strings.ToLower(t)
	for _, k := range []string{"goto", "call"} {
		if !strings.HasPrefix(l, k) {
			continue
		}
		r := strings.TrimLeft(t[4:], " \t,;=")
		if len(r) == len(t)-4 && !strings.HasPrefix(r, ":") { // goto:x is fine, gotox is not a jump
			return
		}
		if k == "call" {
			if !strings.HasPrefix(r, ":") {
				return
			}
			return labelText(sym.Lit(r)), true, true
		}
		if len(r) > 0 && r[0] != ':' {
			r = ":" + r
		}
		if strings.HasPrefix(strings.ToLower(r), ":eof") {
			return
		}
		return labelText(sym.Lit(r)), false, true
	}
	return
}

func isJump(n batsym.Node) bool {
	s, ok := n.(*batsym.Simple)
	if !ok {
		return false
	}
	_, call, ok := jumpTarget(s.Text)
	return ok && !call
}

func isExit(n batsym.Node) bool {
	switch x := n.(type) {
	case *batsym.Simple:
		t := strings.ToLower(strings.TrimLeft(lead(x.Text), " \t,;=@"))
		return strings.HasPrefix(t, "exit") || strings.HasPrefix(t, "goto :eof")
	case *batsym.Seq:
		return isExit(x.R)
	}
	return false
}

func silent(n batsym.Node) bool {
	switch n.(type) {
	case *batsym.Label, batsym.Ignored:
		return true
	}
	return false
}

func (b *batForm) check() string {
	if len(b.lists) == 0 {
		return ""
	}
	top := b.lists[0]
	// routines: a jump at the top level over a region that begins with a label
	region := make([]string, len(top))
	defs := map[string]int{}
	for i := 0; i < len(top); i++ {
		if !isJump(top[i]) {
			continue
		}
		k := i + 1
		for k < len(top) && top[k] == (batsym.Ignored{}) {
			k++
		}
		if k == len(top) {
			continue
		}
		l, ok := top[k].(*batsym.Label)
		if !ok || labelText(l.Text) == "" {
			continue
		}
		to, _, _ := jumpTarget(top[i].(*batsym.Simple).Text)
		at, ok := b.labels[to]
		if !ok || len(at) != 1 || at[0].idx <= k {
			continue
		}
		name := labelText(l.Text)
		defs[name]++
		for j := i + 1; j < at[0].idx; j++ {
			region[j] = name
		}
		i = at[0].idx - 1
	}
	calls := map[string]map[string]bool{}
	var missing []string
	for _, j := range b.jumps {
		from := region[j.at[0].idx]
		at, ok := b.labels[j.to]
		if j.call {
			if calls[from] == nil {
				calls[from] = map[string]bool{}
			}
			if defs[j.to] == 0 {
				missing = append(missing, ":"+j.to)
			}
			if j.to != from {
				calls[from][j.to] = true
			}
			continue
		}
		if !ok {
			return "jumps to :" + j.to + ", which is not defined"
		}
		if to := region[at[0].idx]; to != from {
			return fmt.Sprintf("a jump to :%s leads from the routine %q into %q", j.to, from, to)
		}
		if from != "" && from[0] == '_' { // helper routines are checked for labels only
			continue
		}
		if len(at) > len(j.at) {
			return "a jump to :" + j.to + " leads into a block"
		}
		k := len(at) - 1
		for i := range at {
			if at[i].list != j.at[i].list || i < k && at[i].idx != j.at[i].idx {
				return "a jump to :" + j.to + " leads into a block that does not contain it"
			}
		}
		list := b.lists[at[k].list]
		if at[k].idx < j.at[k].idx {
			if len(at) == len(j.at) {
				return "a jump to :" + j.to + " goes back within its own block"
			}
			continue
		}
		end := at[k].idx
		for end < len(list) && silent(list[end]) {
			end++
		}
		if k == 0 && end < len(list) && isExit(list[end]) {
			continue // the end of a routine or of the program
		}
		if k == 0 && len(j.at) == 1 && region[at[0].idx-1] != "" && region[j.at[0].idx+1] == region[at[0].idx-1] {
			continue // over a routine
		}
		for i := j.at[k].idx + 1; i < at[k].idx; i++ {
			if !silent(list[i]) {
				return "a jump to :" + j.to + " leads behind its own construct"
			}
		}
	}
	return usage(defs, calls, missing)
}

// FormCase is a program template; whatever of it is accepted must lead to well-formed scripts.
type FormCase struct {
	ID    string
	Main  string
	Files map[string]string
	Max   int
	Marks bool // markers tell where every jump has to lead (see markers)
}

// form checks one script on all paths below p; bad reports the first problem and a model.
func (w *Worker) form(p0 *sym.Path, id, target string, script sym.Str, names map[*sym.Term]bool, marks bool) (bad string, md sym.Model) {
	inner := &sym.Explorer{F: w.F, S: w.S, Base: append([]*sym.Term{}, p0.PC()...), BaseM: p0.M, MaxPaths: 3000}
	inner.Run(func(p *sym.Path) {
		if bad != "" {
			return
		}
		defer func() {
			if e := recover(); e != nil {
				a, ok := e.(sym.Abort)
				if ok && a.Kind != "infeasible" {
					w.R.Note("inconclusive: "+head(a.Error(), 90), id)
					w.R.Add("inconclusive_paths", 1)
				}
				panic(e)
			}
		}()
		s := ""
		script := settle(p, script, names)
		if target == "bash" {
			s = bashForm(p, script)
		} else {
			s = batchForm(p, script)
			if s == "" && marks {
				if t, ok := script.Concrete(); ok {
					s = markers(t)
					w.R.Add("marked_scripts", 1)
				} else {
					w.R.Note("marked script is symbolic", id)
				}
			}
		}
		w.R.Add("paths", 1)
		w.R.Add("scripts_"+target, 1)
		if s == "" {
			w.R.Add("discharged", 1)
			return
		}
		m, ok := p.Model()
		if !ok {
			w.R.Note("no model", id+": "+s)
			return
		}
		bad, md = s, m
	})
	w.finishExplorer(id, inner)
	return
}

// choices are the variables of a source that select statements or spell names.
func (t Tmpl) choices(vars []*sym.Term) map[*sym.Term]bool {
	out := map[*sym.Term]bool{}
	n := 0
	for i := 0; i < len(t.Text); i++ {
		switch t.Text[i] {
		case 2:
			i += strings.IndexByte(t.Text[i:], 4)
			out[vars[n]] = true
			n++
		case 1:
			i++
			if strings.IndexByte("TFN3lLd2h", t.Text[i]) >= 0 {
				out[vars[n]] = true
			}
			n++
		}
	}
	return out
}

// settle splits the path over the values of the names that occur in s and puts them in.
func settle(p *sym.Path, s sym.Str, names map[*sym.Term]bool) sym.Str {
	if len(names) == 0 {
		return s
	}
	known := sym.Model{}
	has := map[*sym.Term][]*sym.Term{}
	var vars func(t *sym.Term, seen map[*sym.Term]bool) []*sym.Term
	vars = func(t *sym.Term, seen map[*sym.Term]bool) (l []*sym.Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == sym.OVar {
			return []*sym.Term{t}
		}
		for _, a := range t.A {
			if a != nil {
				l = append(l, vars(a, seen)...)
			}
		}
		return
	}
	out := append(sym.Str{}, s...)
	for i, c := range s {
		if c.T == nil || c.T.W != 8 {
			continue
		}
		l, ok := has[c.T]
		if !ok {
			l = vars(c.T, map[*sym.Term]bool{})
			has[c.T] = l
		}
		all := true
		for _, v := range l {
			all = all && names[v]
		}
		if !all {
			continue
		}
		for _, v := range l {
			if _, ok := known[v]; !ok {
				known[v] = p.Concretize(v, 300)
			}
		}
		out[i] = sym.Ch{B: byte(sym.Eval(c.T, known, nil))}
	}
	return out
}

// formNative checks a natively emitted script: the real bash for Bash, the structural parser on concrete text for Batch.
func (w *Worker) formNative(target, script string, marks bool) (bad string) {
	if target == "bash" {
		c := exec.Command("/bin/bash", "-n", "/dev/stdin")
		c.Stdin = strings.NewReader(script)
		c.Env = []string{"LC_ALL=C"}
		out, err := c.CombinedOutput()
		if err != nil || len(out) > 0 {
			return "bash -n: " + clip(string(out))
		}
	}
	x := &sym.Explorer{F: w.F, S: w.S, MaxPaths: 1}
	x.Run(func(p *sym.Path) {
		if target == "bash" {
			bad = bashForm(p, sym.Lit(script))
			if strings.HasPrefix(bad, "syntax") {
				w.R.Note("model mismatch", "bash -n accepts: "+bad)
				bad = ""
			}
			return
		}
		if bad = batchForm(p, sym.Lit(script)); bad == "" && marks {
			bad = markers(script)
		}
	})
	return
}

// Form decides one template.
func (w *Worker) Form(c *FormCase) {
	mx := c.Max
	if mx == 0 {
		mx = 4000
	}
	x := &sym.Explorer{F: w.F, S: w.S, MaxPaths: mx}
	t := Tmpl{ID: c.ID, Text: c.Main}
	n := 0
	x.Run(func(p *sym.Path) {
		if w.R.Stopped() || w.jobBad {
			return
		}
		m := w.M
		text, vars := t.SourceVars(p)
		if c.Marks {
			md := sym.Model{}
			for _, v := range vars {
				md[v] = p.Concretize(v, 300)
			}
			text = sym.Lit(text.Eval(md))
		}
		defer func() {
			if e := recover(); e != nil {
				a, ok := e.(sym.Abort)
				if ok && a.Kind != "infeasible" {
					w.R.Note("inconclusive: "+head(a.Error(), 90), c.ID)
					w.R.Add("inconclusive_paths", 1)
				}
				panic(e)
			}
		}()
		for _, target := range []string{"bash", "batch"} {
			m.IntHoles, m.StrHoles, m.HashHoles = nil, nil, nil
			m.OpaqueHash = true
			m.FS = gosym.NewVFS()
			m.FS.Put("/work/main.tsh", text)
			for f, s := range c.Files {
				m.FS.PutString(filepath.Join("/work", f), s)
			}
			for f, s := range w.R.StdFiles() {
				m.FS.PutString("/opt/tsh/std/"+f, s)
			}
			m.Begin(p)
			o := m.Protect(func() gosym.Value { return harness.Transpile(m, "/work/main.tsh", target) })
			m.OpaqueHash = false
			w.R.Add("transpilations", 1)
			if o.Panic != nil || o.Limit != "" || o.Exit != nil {
				w.R.Note("no result (see C13)", c.ID)
				return
			}
			tp := o.Ret.(gosym.Tuple)
			if _, isErr := m.ErrText(tp[1]); isErr {
				w.R.Add("rejected", 1)
				return
			}
			w.R.Add("accepted", 1)
			bad, md := w.form(p, c.ID, target, harness.StrOf(tp[0]), t.choices(vars), c.Marks)
			if bad == "" {
				if n++; n > 6 {
					continue
				}
				if md, ok := p.Model(); ok { // one native sample
					src := text.Eval(md)
					r := w.nativeText(src, c.Files, target)
					w.R.Add("native_samples", 1)
					if r.IsErr {
						w.R.Note("model mismatch", c.ID+": native rejects\n"+src)
					} else if bad := w.formNative(target, r.Out, c.Marks); bad != "" {
						w.formReport(c.ID, target, bad, src, c.Files, r.Out)
						return
					}
				}
				continue
			}
			src := text.Eval(md)
			r := w.nativeText(src, c.Files, target)
			w.R.Add("native_replays", 1)
			if nb := ""; !r.IsErr && r.Panic == "" {
				if nb = w.formNative(target, r.Out, c.Marks); nb != "" {
					w.formReport(c.ID, target, nb, src, c.Files, r.Out)
					return
				}
			}
			w.R.Note("model mismatch", c.ID+": "+bad+"\n"+src)
		}
	})
	w.finishExplorer(c.ID, x)
}

func (w *Worker) formReport(id, target, bad, src string, files map[string]string, script string) {
	w.jobBad = true
	fs := map[string]string{"src/main.tsh": src}
	for n, s := range files {
		fs["src/"+n] = s
	}
	fs["script."+map[string]string{"bash": "sh", "batch": "bat"}[target]] = script
	w.R.Violate(id, target+" target: the script "+bad+"\n"+src, fs)
}

// markers checks the jumps of a Batch script against marks that the program prints:
//
//	Qb<k>.  before construct k          Qa<k>.  behind construct k
//	Qs<k>.  first statement of a body   Qe<k>.  last statement of a branch of conditional k
//	Ql<k>.  last statement of loop k    Qj<k>.  in front of a break out of loop k
//	Qc<k>.  in front of a continue      Qr<f>.  in front of a return of function f
//	Qf<f>.  first and Qg<f>. last statement of function f
func markers(script string) string {
	type mark struct {
		kind byte
		id   string
		line int
	}
	var ms []mark
	lines := strings.Split(strings.ReplaceAll(script, "\r", ""), "\n")
	label := map[string]int{}
	for i, l := range lines {
		for j := 0; j+2 < len(l); j++ {
			if l[j] != 'Q' || strings.IndexByte("baseljcrfg", l[j+1]) < 0 {
				continue
			}
			if k := strings.IndexByte(l[j:], '.'); k > 2 {
				ms = append(ms, mark{l[j+1], l[j+2 : j+k], i})
			}
		}
		if t := strings.TrimSpace(l); strings.HasPrefix(t, ":") && !strings.HasPrefix(t, "::") {
			label[labelText(sym.Lit(t))] = i
		}
	}
	at := func(kind byte, id string) int {
		for _, m := range ms {
			if m.kind == kind && m.id == id {
				return m.line
			}
		}
		return -1
	}
	next := func(line int) int { // first mark behind the line
		for _, m := range ms {
			if m.line > line {
				return m.line
			}
		}
		return len(lines)
	}
	prev := func(line int) int {
		k := -1
		for _, m := range ms {
			if m.line < line {
				k = m.line
			}
		}
		return k
	}
	sort.SliceStable(ms, func(i, j int) bool { return ms[i].line < ms[j].line })
	for _, m := range ms {
		if strings.IndexByte("eljcr", m.kind) < 0 {
			continue
		}
		to, from := "", -1
		for i := m.line + 1; i < len(lines) && i < next(m.line); i++ {
			if t, call, ok := jumpTarget(sym.Lit(strings.TrimSpace(lines[i]))); ok && !call {
				to, from = t, i
				break
			}
		}
		name := fmt.Sprintf("%c%s", m.kind, m.id)
		if from < 0 {
			if m.kind == 'e' { // falling out of a branch is fine
				continue
			}
			return "no jump follows the mark " + name
		}
		t, ok := label[to]
		if !ok {
			return "jumps to :" + to + ", which is not defined"
		}
		ok = true
		switch m.kind {
		case 'e', 'j':
			ok = t > from && next(t) == at('a', m.id)
		case 'l', 'c':
			ok = t < from && next(t) == at('s', m.id) && prev(t) == at('b', m.id)
		case 'r':
			ok = t > from && prev(t) == at('g', m.id)
		}
		if !ok {
			return fmt.Sprintf("jumps from the mark %s (line %d) to :%s (line %d), out of its construct", name, from+1, to, t+1)
		}
	}
	return ""
}
