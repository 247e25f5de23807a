package bashsym

import (
	"sort"
	"strconv"

	"verif/sym"
)

// qch is a character with its quoting.
type qch struct {
	c sym.Ch
	q bool
}

type field struct {
	cs   []qch
	some bool // present even when empty
}

func (in *Interp) ifs() []byte {
	v := in.lookup("IFS")
	if v == nil || !v.Set {
		return []byte(" \t\n")
	}
	c, ok := v.S.Concrete()
	if !ok {
		in.P.Unsupported("symbolic IFS")
	}
	return []byte(c)
}

func chIn(in *Interp, c sym.Ch, set []byte) bool {
	if len(set) == 0 {
		return false
	}
	if c.IsLit() {
		for _, b := range set {
			if c.B == b {
				return true
			}
		}
		return false
	}
	if c.IsItoa() {
		for _, b := range set {
			if b == '-' || isDigit(b) {
				in.P.Unsupported("digits in IFS")
			}
		}
		return false
	}
	f := in.F
	cond := f.False
	for _, b := range set {
		cond = f.Or(cond, f.Eq(c.T, f.BV(int64(b), 8)))
	}
	return in.P.Branch(cond)
}

func (in *Interp) chIs(c sym.Ch, b byte) bool { return chIn(in, c, []byte{b}) }

// value kinds of an expansion: a string, or a list ("$@", arrays).
type expansion struct {
	s      sym.Str
	list   []sym.Str
	isList bool
	star   bool
}

// expandString expands without splitting or globbing (assignments, here-strings, case subjects).
func (in *Interp) expandString(w *Word) sym.Str {
	if w == nil {
		return nil
	}
	var r sym.Str
	first := true
	for _, p := range w.Parts {
		switch p.Kind {
		case PLit:
			s := p.S
			if first && !p.Quoted && len(s) > 0 && s[0].IsLit() && s[0].B == '~' {
				s = in.tilde(s)
			}
			r = append(r, s...)
		case PCmd:
			r = append(r, in.cmdSub(p.Cmd)...)
		case PArith:
			r = append(r, sym.Itoa(in.arithWord(p.Expr))...)
		case PParam:
			e := in.param(&p)
			if e.isList {
				for i, s := range e.list {
					if i > 0 {
						r = append(r, sym.Ch{B: ' '})
					}
					r = append(r, s...)
				}
			} else {
				r = append(r, e.s...)
			}
		}
		first = false
	}
	return r
}

func (in *Interp) expandAssign(w *Word) sym.Str {
	r := in.expandString(w)
	return r[:len(r):len(r)]
}

func (in *Interp) tilde(s sym.Str) sym.Str {
	if len(s) == 1 || s[1].IsLit() && s[1].B == '/' {
		h, _ := in.get("HOME")
		return sym.Cat(h, s[1:])
	}
	if s[1].IsLit() && !isNameStart(s[1].B) && s[1].B != '+' && s[1].B != '-' {
		return s
	}
	in.P.Unsupported("tilde expansion")
	return nil
}

// expandPattern expands a word to a pattern with quoting information.
func (in *Interp) expandPattern(w *Word) []qch {
	var r []qch
	if w == nil {
		return nil
	}
	for _, p := range w.Parts {
		switch p.Kind {
		case PLit:
			for _, c := range p.S {
				r = append(r, qch{c, p.Quoted})
			}
		case PCmd:
			for _, c := range in.cmdSub(p.Cmd) {
				r = append(r, qch{c, p.Quoted})
			}
		case PArith:
			for _, c := range sym.Itoa(in.arithWord(p.Expr)) {
				r = append(r, qch{c, p.Quoted})
			}
		case PParam:
			e := in.param(&p)
			s := e.s
			if e.isList {
				s = nil
				for i, x := range e.list {
					if i > 0 {
						s = append(s, sym.Ch{B: ' '})
					}
					s = append(s, x...)
				}
			}
			for _, c := range s {
				r = append(r, qch{c, p.Quoted})
			}
		}
	}
	return r
}

// expandWords performs full word expansion.
func (in *Interp) expandWords(ws []*Word) []sym.Str {
	var out []sym.Str
	for _, w := range ws {
		if w.Brace && in.braceActive(w) {
			in.P.Unsupported("brace expansion")
		}
		for _, f := range in.expandWord(w) {
			out = append(out, in.glob(f)...)
		}
	}
	return out
}

// braceActive: a word that bash would brace-expand.
func (in *Interp) braceActive(w *Word) bool {
	var lit []byte
	for _, p := range w.Parts {
		if p.Kind == PLit && !p.Quoted {
			for _, c := range p.S {
				if c.IsLit() {
					lit = append(lit, c.B)
				} else {
					lit = append(lit, 'x')
				}
			}
		} else {
			lit = append(lit, 'x')
		}
	}
	depth, comma, dots := 0, false, 0
	for i, b := range lit {
		switch b {
		case '{':
			depth++
			comma = false
		case ',':
			if depth > 0 {
				comma = true
			}
		case '.':
			if depth > 0 && i > 0 && lit[i-1] == '.' {
				dots++
			}
		case '}':
			if depth > 0 {
				if comma || dots > 0 {
					return true
				}
				depth--
			}
		}
	}
	return false
}

func (in *Interp) expandWord(w *Word) []field {
	var fs []field
	cur := field{}
	active := false // a current field exists
	add := func(s sym.Str, q bool) {
		for _, c := range s {
			cur.cs = append(cur.cs, qch{c, q})
		}
		if len(s) > 0 {
			active = true
		}
	}
	end := func() {
		if active {
			fs = append(fs, cur)
		}
		cur = field{}
		active = false
	}
	split := func(s sym.Str) {
		ifs := in.ifs()
		if len(ifs) == 0 {
			add(s, false)
			return
		}
		var wsSet, nws []byte
		for _, b := range ifs {
			if b == ' ' || b == '\t' || b == '\n' {
				wsSet = append(wsSet, b)
			} else {
				nws = append(nws, b)
			}
		}
		i := 0
		n := len(s)
		for i < n {
			if chIn(in, s[i], wsSet) {
				for i < n && chIn(in, s[i], wsSet) {
					i++
				}
				if i < n && len(nws) > 0 && chIn(in, s[i], nws) {
					i++
					active = true
					end()
					for i < n && chIn(in, s[i], wsSet) {
						i++
					}
					continue
				}
				end()
				continue
			}
			if len(nws) > 0 && chIn(in, s[i], nws) {
				i++
				active = true
				end()
				for i < n && chIn(in, s[i], wsSet) {
					i++
				}
				continue
			}
			cur.cs = append(cur.cs, qch{s[i], false})
			active = true
			i++
		}
	}
	first := true
	for i := range w.Parts {
		p := &w.Parts[i]
		switch p.Kind {
		case PLit:
			s := p.S
			if first && !p.Quoted && len(s) > 0 && s[0].IsLit() && s[0].B == '~' {
				s = in.tilde(s)
			}
			add(s, p.Quoted)
			if p.Quoted {
				// "" marks a field, except around "$@"
				if len(s) > 0 || !in.emptyListFollows(w, i) {
					active = true
				}
			}
		case PCmd:
			s := in.cmdSub(p.Cmd)
			if p.Quoted {
				add(s, true)
				active = true
			} else {
				split(s)
			}
		case PArith:
			s := sym.Itoa(in.arithWord(p.Expr))
			if p.Quoted {
				add(s, true)
			} else {
				split(s)
			}
		case PParam:
			e := in.param(p)
			switch {
			case e.isList && p.Quoted && e.star:
				sep := in.ifs()
				for j, x := range e.list {
					if j > 0 && len(sep) > 0 {
						add(sym.Str{{B: sep[0]}}, true)
					}
					add(x, true)
				}
				active = true
			case e.isList && p.Quoted:
				for j, x := range e.list {
					if j > 0 {
						end()
					}
					add(x, true)
					active = true
				}
			case e.isList:
				for j, x := range e.list {
					if j > 0 {
						end()
					}
					split(x)
				}
			case p.Quoted:
				add(e.s, true)
				active = true
			default:
				split(e.s)
			}
		}
		first = false
	}
	end()
	return fs
}

// emptyListFollows: the empty quoted literal at i only opens a "$@" that expands to nothing.
func (in *Interp) emptyListFollows(w *Word, i int) bool {
	if i+1 >= len(w.Parts) {
		return false
	}
	p := &w.Parts[i+1]
	if p.Kind != PParam || !p.Quoted || p.Len {
		return false
	}
	if p.Name == "@" && p.Op == "" {
		return len(in.params) == 0
	}
	if p.SubAll == '@' && p.Op == "" {
		v := in.lookup(p.Name)
		return v == nil || v.IsArr && len(v.Arr) == 0
	}
	return p.Op != "" && (p.Name == "@" || p.SubAll == '@')
}

// glob performs pathname expansion on a field.
func (in *Interp) glob(f field) []sym.Str {
	s := make(sym.Str, len(f.cs))
	meta := false
	for i, c := range f.cs {
		s[i] = c.c
		if !c.q && !in.opts["f"] && chIn(in, c.c, []byte("*?[")) {
			if !(c.c.IsLit() && c.c.B == '[') || globBracket(f.cs[i:]) {
				meta = true
			}
		}
	}
	if !meta {
		return []sym.Str{s}
	}
	// match against the modelled working directory
	var names []string
	for _, fl := range in.FS.Files {
		n, ok := normPath(fl.Name).Concrete()
		if !ok {
			in.P.Unsupported("glob over symbolic names")
		}
		for i := range n {
			if n[i] == '/' {
				ok = false
			}
		}
		if ok && n != "" && n[0] != '.' {
			names = append(names, n)
		}
	}
	for _, c := range f.cs {
		if c.c.IsLit() && c.c.B == '/' {
			in.P.Unsupported("glob with a directory")
		}
	}
	sort.Strings(names)
	var out []sym.Str
	for _, n := range names {
		if in.match(sym.Lit(n), f.cs) {
			out = append(out, sym.Lit(n))
		}
	}
	if len(out) == 0 {
		return []sym.Str{s}
	}
	return out
}

func globBracket(cs []qch) bool {
	for i, c := range cs {
		if i > 1 && !c.q && c.c.IsLit() && c.c.B == ']' {
			return true
		}
	}
	return false
}

// param evaluates a parameter expansion.
func (in *Interp) param(p *Part) expansion {
	name := p.Name
	if p.Ind {
		if p.SubAll != 0 && p.Op == "" {
			v := in.lookup(name)
			e := expansion{isList: true, star: p.SubAll == '*'}
			if v == nil {
				return e
			}
			switch {
			case v.Assoc != nil:
				for _, k := range skeys(v.Assoc) {
					e.list = append(e.list, sym.Lit(k))
				}
			case v.IsArr:
				for _, k := range keys(v.Arr) {
					e.list = append(e.list, sym.Lit(strconv.FormatInt(k, 10)))
				}
			case v.Set:
				e.list = append(e.list, sym.Lit("0"))
			}
			return e
		}
		// indirection
		var base sym.Str
		q := Part{Kind: PParam, Name: name, Sub: p.Sub, Quoted: p.Quoted}
		base = in.param(&q).s
		c, ok := base.Concrete()
		if !ok {
			in.P.Unsupported("indirection through a symbolic name")
		}
		q = *p
		q.Ind = false
		q.Sub = nil
		q.SubAll = 0
		if i := indexByte(c, '['); i > 0 && c[len(c)-1] == ']' {
			sub := c[i+1 : len(c)-1]
			c = c[:i]
			if sub == "@" || sub == "*" {
				q.SubAll = sub[0]
			} else {
				ps := &Parser{P: in.P, F: in.F, S: sym.Lit(sub + "]")}
				w, ok := ps.arithUntil("]")
				if !ok {
					in.errf("bad substitution")
					panic(discard{})
				}
				q.Sub = w
			}
		}
		if !validParamName(c) {
			in.errf("%s: invalid variable name", c)
			panic(discard{})
		}
		q.Name = c
		return in.param(&q)
	}
	// list forms
	if name == "@" || name == "*" || p.SubAll != 0 {
		var list []sym.Str
		star := name == "*" || p.SubAll == '*'
		if p.SubAll != 0 {
			v := in.lookup(name)
			if v == nil && name != "PIPESTATUS" {
				in.get(name)
			}
			if name == "PIPESTATUS" {
				for _, t := range in.pipest {
					list = append(list, sym.Itoa(t))
				}
			}
			if v != nil {
				switch {
				case v.Assoc != nil:
					for _, k := range skeys(v.Assoc) {
						list = append(list, v.Assoc[k])
					}
					if len(list) > 1 && !p.Len {
						in.P.Unsupported("associative array order")
					}
				case v.IsArr:
					for _, k := range keys(v.Arr) {
						list = append(list, v.Arr[k])
					}
				case v.Set:
					list = append(list, v.S)
				}
			}
		} else {
			list = append(list, in.params...)
		}
		if p.Len {
			return expansion{s: sym.Lit(strconv.Itoa(len(list)))}
		}
		switch p.Op {
		case "":
		case ":":
			off := int64(in.P.Concretize(in.arithWord(p.Arg), 64))
			if name == "@" || name == "*" {
				if off == 0 {
					list = append([]sym.Str{in.name0}, list...)
				} else if off > 0 {
					off--
				}
			}
			n := int64(len(list))
			if off < 0 {
				off += n
				if off < 0 {
					list = nil
					off = 0
				}
			}
			if off > n {
				off = n
			}
			if int(off) <= len(list) {
				list = list[off:]
			} else {
				list = nil
			}
			if p.Arg2 != nil {
				l := int64(in.P.Concretize(in.arithWord(p.Arg2), 64))
				if l < 0 {
					in.errf("substring expression < 0")
					panic(discard{})
				}
				if l < int64(len(list)) {
					list = list[:l]
				}
			}
		case "-", ":-", "+", ":+":
			set := len(list) > 0
			if len(p.Op) == 2 && len(list) == 1 && len(list[0]) == 0 {
				set = false
			}
			alt := p.Op[len(p.Op)-1] == '+'
			if set == alt {
				return expansion{s: in.expandString(p.Arg)}
			}
			if alt {
				return expansion{}
			}
		case "#", "##", "%", "%%", "/", "//", "/#", "/%", "^", "^^", ",", ",,":
			nl := make([]sym.Str, len(list))
			for i, s := range list {
				nl[i] = in.transform(p, s)
			}
			list = nl
		default:
			in.P.Unsupported("${@%s}", p.Op)
		}
		return expansion{isList: true, list: list, star: star}
	}
	// scalar value
	var s sym.Str
	var set bool
	if p.Sub != nil {
		v := in.lookup(name)
		if name == "PIPESTATUS" {
			i := int(in.P.Concretize(in.arithWord(p.Sub), 64))
			if i < len(in.pipest) {
				s, set = sym.Itoa(in.pipest[i]), true
			}
		} else if v != nil && v.Assoc != nil {
			s, set = v.Assoc[in.assocKey(p.Sub)], true
		} else {
			i := in.index(v, p.Sub)
			if v != nil {
				if v.IsArr {
					s, set = v.Arr[i]
				} else if i == 0 {
					s, set = v.S, v.Set
				}
			}
		}
	} else {
		s, set = in.get(name)
	}
	if !set && in.opts["u"] && p.Op == "" && name != "@" && name != "*" {
		in.errf("%s: unbound variable", name)
		in.setStatus(1)
		panic(exit{})
	}
	if p.Len {
		return expansion{s: sym.Itoa(in.F.Len(s))}
	}
	null := len(s) == 0
	switch p.Op {
	case "":
		return expansion{s: s}
	case "-", ":-":
		if !set || p.Op == ":-" && null {
			return expansion{s: in.expandString(p.Arg)}
		}
		return expansion{s: s}
	case "+", ":+":
		if set && !(p.Op == ":+" && null) {
			return expansion{s: in.expandString(p.Arg)}
		}
		return expansion{}
	case "=", ":=":
		if !set || p.Op == ":=" && null {
			v := in.expandString(p.Arg)
			if p.Sub != nil {
				in.P.Unsupported("${a[i]:=}")
			}
			in.setVar(name, v)
			return expansion{s: v}
		}
		return expansion{s: s}
	case "?", ":?":
		if !set || p.Op == ":?" && null {
			in.err(sym.Cat(sym.Lit(name+": "), in.expandString(p.Arg)))
			in.setStatus(127)
			panic(exit{})
		}
		return expansion{s: s}
	case "@Q":
		return expansion{s: in.quote(s)}
	case ":":
		return expansion{s: in.substr(s, p)}
	}
	return expansion{s: in.transform(p, s)}
}

func validParamName(c string) bool {
	if c == "" {
		return false
	}
	if c == "@" || c == "*" || c == "#" || c == "?" || c == "$" || c == "!" || c == "-" {
		return true
	}
	if isDigit(c[0]) {
		for i := range c {
			if !isDigit(c[i]) {
				return false
			}
		}
		return true
	}
	return validName(c)
}

func validName(c string) bool {
	if c == "" || !isNameStart(c[0]) {
		return false
	}
	for i := range c {
		if !isNameCh(c[i]) {
			return false
		}
	}
	return true
}

func indexByte(s string, b byte) int {
	for i := range s {
		if s[i] == b {
			return i
		}
	}
	return -1
}

// substr implements ${s:off:len}.
func (in *Interp) substr(s sym.Str, p *Part) sym.Str {
	ot := in.arithWord(p.Arg)
	var lt *sym.Term
	if p.Arg2 != nil {
		lt = in.arithWord(p.Arg2)
	}
	s = in.P.Digits(s)
	n := int64(len(s))
	off := in.boundedInt(ot, -n-1, n+1)
	if off < 0 {
		off += n
		if off < 0 {
			return nil
		}
	}
	if off > n {
		return nil
	}
	e := n
	if lt != nil {
		l := in.boundedInt(lt, -n-1, n-off)
		if l < 0 {
			e = n + l
			if e < off {
				in.errf("substring expression < 0")
				panic(discard{})
			}
		} else if off+l < n {
			e = off + l
		}
	}
	return append(sym.Str{}, s[off:e]...)
}

// boundedInt decides a term's value, clamping everything outside [lo,hi] to the bounds.
func (in *Interp) boundedInt(t *sym.Term, lo, hi int64) int64 {
	f := in.F
	if t.IsConst() {
		return max(lo, min(hi, t.Int()))
	}
	if in.P.Branch(f.Sle(t, f.BV(lo, 64))) {
		return lo
	}
	if in.P.Branch(f.Sle(f.BV(hi, 64), t)) {
		return hi
	}
	return int64(in.P.Concretize(t, 200))
}

func (in *Interp) transform(p *Part, s sym.Str) sym.Str {
	switch p.Op {
	case "#", "##", "%", "%%":
		pat := in.expandPattern(p.Arg)
		s = in.P.Digits(s)
		n := len(s)
		switch p.Op {
		case "#":
			for i := 0; i <= n; i++ {
				if in.match(s[:i], pat) {
					return s[i:]
				}
			}
		case "##":
			for i := n; i >= 0; i-- {
				if in.match(s[:i], pat) {
					return s[i:]
				}
			}
		case "%":
			for i := n; i >= 0; i-- {
				if in.match(s[i:], pat) {
					return s[:i:i]
				}
			}
		case "%%":
			for i := 0; i <= n; i++ {
				if in.match(s[i:], pat) {
					return s[:i:i]
				}
			}
		}
		return s
	case "/", "//", "/#", "/%":
		pat := in.expandPattern(p.Arg)
		var rep sym.Str
		for _, c := range in.expandPattern(p.Arg2) {
			if !c.q && in.chIs(c.c, '&') {
				// patsub_replacement is on by default in bash 5.2
				in.P.Unsupported("& in a pattern replacement")
			}
			rep = append(rep, c.c)
		}
		if len(pat) == 0 {
			return s
		}
		s = in.P.Digits(s)
		n := len(s)
		var out sym.Str
		i := 0
		switch p.Op {
		case "/#":
			for j := n; j >= 0; j-- {
				if in.match(s[:j], pat) {
					return sym.Cat(rep, s[j:])
				}
			}
			return s
		case "/%":
			for j := 0; j <= n; j++ {
				if in.match(s[j:], pat) {
					return sym.Cat(s[:j], rep)
				}
			}
			return s
		}
		for i < n {
			hit := -1
			for j := n; j > i; j-- {
				if in.match(s[i:j], pat) {
					hit = j
					break
				}
			}
			if hit < 0 {
				out = append(out, s[i])
				i++
				continue
			}
			out = append(out, rep...)
			i = hit
			if p.Op == "/" {
				return append(out, s[i:]...)
			}
		}
		return out
	case "^", "^^", ",", ",,":
		s = in.P.Digits(s)
		out := append(sym.Str{}, s...)
		for i := range out {
			if i > 0 && len(p.Op) == 1 {
				break
			}
			c := out[i]
			f := in.F
			t := f.ByteTerm(c)
			if p.Op[0] == '^' {
				lower := f.And(f.Ule(f.BV('a', 8), t), f.Ule(t, f.BV('z', 8)))
				out[i] = sym.ByteCh(f.Ite(lower, f.Sub(t, f.BV(32, 8)), t))
			} else {
				upper := f.And(f.Ule(f.BV('A', 8), t), f.Ule(t, f.BV('Z', 8)))
				out[i] = sym.ByteCh(f.Ite(upper, f.Add(t, f.BV(32, 8)), t))
			}
		}
		return out
	}
	in.P.Unsupported("${x%s}", p.Op)
	return nil
}

// quote implements %q / @Q conservatively with single quotes.
func (in *Interp) quote(s sym.Str) sym.Str {
	out := sym.Lit("'")
	for _, c := range s {
		if in.chIs(c, '\'') {
			out = append(out, sym.Lit(`'\''`)...)
			continue
		}
		out = append(out, c)
	}
	return append(out, sym.Ch{B: '\''})
}

// --- pattern matching ---

func hasGlob(pat []qch) bool {
	for _, c := range pat {
		if c.q {
			continue
		}
		if c.c.IsByte() {
			return true
		}
		if c.c.IsLit() {
			switch c.c.B {
			case '*', '?', '[', '\\':
				return true
			}
		}
	}
	return false
}

// matchTerm: condition that s equals a pattern without active glob characters.
func (in *Interp) match(s sym.Str, pat []qch) bool {
	// resolve symbolic unquoted characters: are they glob characters?
	for i, c := range pat {
		if !c.q && c.c.IsByte() {
			if chIn(in, c.c, []byte("*?[\\")) {
				v := in.P.Concretize(c.c.T, 8)
				np := append([]qch{}, pat...)
				np[i] = qch{sym.Ch{B: byte(v)}, false}
				return in.match(s, np)
			}
			np := append([]qch{}, pat...)
			np[i].q = true
			return in.match(s, np)
		}
	}
	if !hasGlob(pat) {
		lit := make(sym.Str, len(pat))
		for i, c := range pat {
			lit[i] = c.c
		}
		return in.P.Branch(in.P.StrEq(s, lit))
	}
	s = in.P.Digits(s)
	var pl []qch
	for _, c := range pat {
		if c.c.IsItoa() {
			for _, d := range in.P.Digits(sym.Str{c.c}) {
				pl = append(pl, qch{d, true})
			}
			continue
		}
		pl = append(pl, c)
	}
	return in.P.Branch(in.matchCond(s, pl))
}

// matchCond builds the matching condition (dynamic programming over positions).
func (in *Interp) matchCond(s sym.Str, pat []qch) *sym.Term {
	f := in.F
	n := len(s)
	cur := make([]*sym.Term, n+1)
	for i := range cur {
		cur[i] = f.False
	}
	cur[0] = f.True
	for k := 0; k < len(pat); k++ {
		c := pat[k]
		nx := make([]*sym.Term, n+1)
		for i := range nx {
			nx[i] = f.False
		}
		switch {
		case !c.q && c.c.IsLit() && c.c.B == '*':
			acc := f.False
			for i := 0; i <= n; i++ {
				acc = f.Or(acc, cur[i])
				nx[i] = acc
			}
		case !c.q && c.c.IsLit() && c.c.B == '?':
			for i := 0; i < n; i++ {
				nx[i+1] = cur[i]
			}
		case !c.q && c.c.IsLit() && c.c.B == '[' && bracketEnd(pat, k) > 0:
			e := bracketEnd(pat, k)
			for i := 0; i < n; i++ {
				if !cur[i].IsFalse() {
					nx[i+1] = f.And(cur[i], in.bracket(pat[k+1:e], f.ByteTerm(s[i])))
				}
			}
			k = e
		default:
			ch := c.c
			if !c.q && ch.IsLit() && ch.B == '\\' && k+1 < len(pat) {
				k++
				ch = pat[k].c
			}
			for i := 0; i < n; i++ {
				if !cur[i].IsFalse() {
					nx[i+1] = f.And(cur[i], f.Eq(f.ByteTerm(s[i]), f.ByteTerm(ch)))
				}
			}
		}
		cur = nx
	}
	return cur[n]
}

func bracketEnd(pat []qch, k int) int {
	i := k + 1
	if i < len(pat) && pat[i].c.IsLit() && (pat[i].c.B == '!' || pat[i].c.B == '^') && !pat[i].q {
		i++
	}
	if i < len(pat) && pat[i].c.IsLit() && pat[i].c.B == ']' {
		i++
	}
	for ; i < len(pat); i++ {
		c := pat[i]
		if !c.q && c.c.IsLit() && c.c.B == '[' && i+1 < len(pat) && pat[i+1].c.IsLit() && pat[i+1].c.B == ':' {
			j := i + 2
			for j+1 < len(pat) && !(pat[j].c.IsLit() && pat[j].c.B == ':' && pat[j+1].c.IsLit() && pat[j+1].c.B == ']') {
				j++
			}
			if j+1 >= len(pat) {
				return -1
			}
			i = j + 1
			continue
		}
		if !c.q && c.c.IsLit() && c.c.B == ']' {
			return i
		}
	}
	return -1
}

func (in *Interp) bracket(b []qch, t *sym.Term) *sym.Term {
	f := in.F
	neg := false
	if len(b) > 0 && !b[0].q && b[0].c.IsLit() && (b[0].c.B == '!' || b[0].c.B == '^') {
		neg = true
		b = b[1:]
	}
	r := f.False
	rng := func(x, y byte) {
		r = f.Or(r, f.And(f.Ule(f.BV(int64(x), 8), t), f.Ule(t, f.BV(int64(y), 8))))
	}
	for i := 0; i < len(b); i++ {
		c := b[i]
		if !c.q && c.c.IsLit() && c.c.B == '[' && i+1 < len(b) && b[i+1].c.IsLit() && b[i+1].c.B == ':' {
			j := i + 2
			name := []byte{}
			for j < len(b) && !(b[j].c.IsLit() && b[j].c.B == ':') {
				name = append(name, b[j].c.B)
				j++
			}
			i = j + 1
			switch string(name) {
			case "space":
				rng(9, 13)
				rng(' ', ' ')
			case "blank":
				rng(9, 9)
				rng(' ', ' ')
			case "digit":
				rng('0', '9')
			case "alpha":
				rng('a', 'z')
				rng('A', 'Z')
			case "alnum":
				rng('a', 'z')
				rng('A', 'Z')
				rng('0', '9')
			case "upper":
				rng('A', 'Z')
			case "lower":
				rng('a', 'z')
			case "xdigit":
				rng('a', 'f')
				rng('A', 'F')
				rng('0', '9')
			case "punct":
				rng('!', '/')
				rng(':', '@')
				rng('[', '`')
				rng('{', '~')
			case "print":
				rng(' ', '~')
			case "graph":
				rng('!', '~')
			case "cntrl":
				rng(0, 31)
				rng(127, 127)
			default:
				in.P.Unsupported("[:%s:]", name)
			}
			continue
		}
		if !c.q && c.c.IsLit() && c.c.B == '\\' && i+1 < len(b) {
			i++
			c = b[i]
		}
		if i+2 < len(b) && b[i+1].c.IsLit() && b[i+1].c.B == '-' && !b[i+1].q {
			if !c.c.IsLit() || !b[i+2].c.IsLit() {
				in.P.Unsupported("symbolic bracket range")
			}
			rng(c.c.B, b[i+2].c.B)
			i += 2
			continue
		}
		r = f.Or(r, f.Eq(t, f.ByteTerm(c.c)))
	}
	if neg {
		return f.Not(r)
	}
	return r
}
