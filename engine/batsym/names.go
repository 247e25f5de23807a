package batsym

import "verif/sym"

// Names resolves names that contain symbolic bytes. In the script text such bytes are replaced by private bytes
// (0x80-0xbf, one per term); whenever a name is used it is compared - by the solver, ignoring case - with every name
// of the same length met so far.
type Names struct {
	p     *sym.Path
	terms map[byte]*sym.Term
	repr  map[*sym.Term]byte
	known map[int][]string
	cache map[string]string
}

// reservedNames have a meaning of their own where a script uses them as a variable, a label or a command.
var reservedNames = []string{"cd", "date", "time", "random", "errorlevel", "cmdextversion", "cmdcmdline", "path", "pathext", "comspec", "prompt", "temp", "tmp", "os", "eof",
	"if", "else", "for", "in", "do", "set", "call", "goto", "rem", "echo", "exit", "not", "defined", "exist", "equ", "neq", "lss", "leq", "gtr", "geq", "setlocal", "endlocal", "shift", "type", "del", "copy", "move", "start", "pause", "cls", "title", "pushd", "popd", "chdir", "mkdir", "md", "rd", "rmdir", "ren", "rename", "dir", "ver", "vol", "verify", "assoc", "ftype", "color", "break", "erase", "con", "nul", "prn", "aux"}

// Opaque prepares a script whose identifiers contain symbolic bytes.
func Opaque(p *sym.Path, s sym.Str) (sym.Str, *Names) {
	f := p.F
	n := &Names{p: p, terms: map[byte]*sym.Term{}, repr: map[*sym.Term]byte{}, known: map[int][]string{}, cache: map[string]string{}}
	out := append(sym.Str{}, s...)
	rng := func(t *sym.Term, a, b byte) *sym.Term {
		return f.And(f.Ule(f.BV(int64(a), 8), t), f.Ule(t, f.BV(int64(b), 8)))
	}
	nameCh := func(c sym.Ch) bool {
		switch {
		case c.IsLit():
			return c.B == '_' || c.B >= '0' && c.B <= '9' || c.B >= 'a' && c.B <= 'z' || c.B >= 'A' && c.B <= 'Z'
		case c.IsByte():
			return p.Branch(f.Or(f.Or(rng(c.T, '0', '9'), rng(c.T, 'a', 'z')), f.Or(rng(c.T, 'A', 'Z'), f.Eq(c.T, f.BV('_', 8)))))
		}
		return false
	}
	done := map[string]bool{}
	for i := 0; i < len(s); i++ {
		if !nameCh(s[i]) {
			continue
		}
		j, symb := i, false
		for ; j < len(s) && nameCh(s[j]); j++ {
			if !s[j].IsLit() {
				symb = true
			}
		}
		tok := s[i:j]
		if !symb || !tok[0].IsLit() && p.Branch(rng(tok[0].T, '0', '9')) {
			i = j
			continue
		}
		for x, c := range tok {
			if c.IsLit() {
				continue
			}
			b, ok := n.repr[c.T]
			if !ok {
				if len(n.repr) >= 0x40 {
					p.Unsupported("too many symbolic bytes in names")
				}
				b = byte(0x80 + len(n.repr))
				n.repr[c.T] = b
				n.terms[b] = c.T
			}
			out[i+x] = sym.Ch{B: b}
		}
		c, _ := out[i:j].Concrete()
		if !done[c] {
			done[c] = true
			for _, w := range reservedNames {
				if len(w) == len(c) && n.same(lower(c), w) {
					n.cache[lower(c)] = w
					copy(out[i:j], sym.Lit(w))
					break
				}
			}
		} else if w, ok := n.cache[lower(c)]; ok {
			copy(out[i:j], sym.Lit(w))
		}
		i = j
	}
	return out, n
}

func lower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

// same decides (by forking where both are possible) whether two folded names of equal length are equal.
func (n *Names) same(a, b string) bool {
	f := n.p.F
	ch := func(b byte) *sym.Term {
		if t := n.terms[b]; t != nil {
			up := f.And(f.Ule(f.BV('A', 8), t), f.Ule(t, f.BV('Z', 8)))
			return f.Ite(up, f.Add(t, f.BV(32, 8)), t)
		}
		return f.BV(int64(b), 8)
	}
	eq := f.True
	for i := 0; i < len(a); i++ {
		if a[i] != b[i] {
			eq = f.And(eq, f.Eq(ch(a[i]), ch(b[i])))
			if eq.IsFalse() {
				return false
			}
		}
	}
	return n.p.Branch(eq)
}

// canon gives the representative of a folded name.
func (n *Names) canon(s string) string {
	if n == nil {
		return s
	}
	if c, ok := n.cache[s]; ok {
		return c
	}
	for _, k := range n.known[len(s)] {
		if n.same(s, k) {
			n.cache[s] = k
			return k
		}
	}
	n.known[len(s)] = append(n.known[len(s)], s)
	n.cache[s] = s
	return s
}
