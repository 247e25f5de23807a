package bashsym

import (
	"sort"

	"verif/sym"
)

// Names resolves identifiers that contain symbolic bytes. In script text such bytes are replaced by private bytes
// (0x80-0xbf, one per term); whenever a name is looked up it is compared - by the solver - with every name of the
// same length met so far.
type Names struct {
	p     *sym.Path
	terms map[byte]*sym.Term
	repr  map[*sym.Term]byte
	known map[int][]string
	cache map[string]string
}

func private(b byte) bool { return b >= 0x80 && b <= 0xbf }

// reservedNames have a meaning of their own wherever a script uses them as a name.
var reservedNames = []string{"if", "then", "else", "elif", "fi", "for", "while", "until", "do", "done", "case", "esac", "in", "function", "select", "time", "coproc",
	"alias", "bg", "bind", "break", "builtin", "caller", "cd", "command", "compgen", "complete", "compopt", "continue", "declare", "dirs", "disown", "echo", "enable", "eval", "exec", "exit", "export", "false", "fc", "fg", "getopts", "hash", "help", "history", "jobs", "kill", "let", "local", "logout", "mapfile", "popd", "printf", "pushd", "pwd", "read", "readarray", "readonly", "return", "set", "shift", "shopt", "source", "suspend", "test", "times", "trap", "true", "type", "typeset", "ulimit", "umask", "unalias", "unset", "wait",
	"_", "BASH", "BASHOPTS", "BASHPID", "BASH_ALIASES", "BASH_ARGC", "BASH_ARGV", "BASH_ARGV0", "BASH_CMDS", "BASH_COMMAND", "BASH_COMPAT", "BASH_ENV", "BASH_LINENO", "BASH_REMATCH", "BASH_SOURCE", "BASH_SUBSHELL", "BASH_VERSINFO", "BASH_VERSION", "COLUMNS", "COMP_WORDBREAKS", "DIRSTACK", "EPOCHREALTIME", "EPOCHSECONDS", "EUID", "FUNCNAME", "FUNCNEST", "GLOBIGNORE", "GROUPS", "HISTCMD", "HOME", "HOSTNAME", "HOSTTYPE", "IFS", "IGNOREEOF", "LANG", "LC_ALL", "LC_CTYPE", "LINENO", "LINES", "MACHTYPE", "MAPFILE", "OLDPWD", "OPTARG", "OPTERR", "OPTIND", "OSTYPE", "PATH", "PIPESTATUS", "POSIXLY_CORRECT", "PPID", "PS1", "PS2", "PS4", "PWD", "RANDOM", "REPLY", "SECONDS", "SHELL", "SHELLOPTS", "SHLVL", "SRANDOM", "TERM", "TIMEFORMAT", "TMOUT", "UID", "USER"}

// Opaque prepares a script whose identifiers contain symbolic bytes. Bytes that stand where a name begins and may be a
// digit, and bytes that may be anything but letters, digits and underscores, stay as they are.
func Opaque(p *sym.Path, s sym.Str) (sym.Str, *Names) {
	f := p.F
	n := &Names{p: p, terms: map[byte]*sym.Term{}, repr: map[*sym.Term]byte{}, known: map[int][]string{}, cache: map[string]string{}}
	out := append(sym.Str{}, s...)
	rng := func(t *sym.Term, a, b byte) *sym.Term {
		return f.And(f.Ule(f.BV(int64(a), 8), t), f.Ule(t, f.BV(int64(b), 8)))
	}
	nameCh := func(c sym.Ch) bool {
		switch {
		case c.IsLit():
			return c.B == '_' || c.B >= '0' && c.B <= '9' || c.B >= 'a' && c.B <= 'z' || c.B >= 'A' && c.B <= 'Z'
		case c.IsByte():
			ok := f.Or(f.Or(rng(c.T, '0', '9'), rng(c.T, 'a', 'z')), f.Or(rng(c.T, 'A', 'Z'), f.Eq(c.T, f.BV('_', 8))))
			return p.Branch(ok)
		}
		return false
	}
	done := map[string]bool{}
	for i := 0; i < len(s); i++ {
		if !nameCh(s[i]) {
			continue
		}
		j, symb := i, false
		for ; j < len(s) && nameCh(s[j]); j++ {
			if !s[j].IsLit() {
				symb = true
			}
		}
		tok := s[i:j]
		if !symb || !tok[0].IsLit() && p.Branch(rng(tok[0].T, '0', '9')) {
			i = j
			continue
		}
		for x, c := range tok {
			if c.IsLit() {
				continue
			}
			b, ok := n.repr[c.T]
			if !ok {
				b = byte(0x80 + len(n.repr))
				if !private(b) {
					p.Unsupported("too many symbolic bytes in names")
				}
				n.repr[c.T] = b
				n.terms[b] = c.T
			}
			out[i+x] = sym.Ch{B: b}
		}
		c, _ := out[i:j].Concrete()
		if !done[c] {
			done[c] = true
			for _, w := range reservedNames {
				if len(w) == len(c) && n.same(c, w) {
					n.cache[c] = w
					break
				}
			}
		}
		if w, ok := n.cache[c]; ok {
			copy(out[i:j], sym.Lit(w))
		}
		i = j
	}
	return out, n
}

// same decides (by forking where both are possible) whether two names of equal length are equal.
func (n *Names) same(a, b string) bool {
	f := n.p.F
	ch := func(b byte) *sym.Term {
		if t := n.terms[b]; t != nil {
			return t
		}
		return f.BV(int64(b), 8)
	}
	eq := f.True
	for i := 0; i < len(a); i++ {
		if a[i] != b[i] {
			eq = f.And(eq, f.Eq(ch(a[i]), ch(b[i])))
			if eq.IsFalse() {
				return false
			}
		}
	}
	return n.p.Branch(eq)
}

// canon gives the representative of a name.
func (in *Interp) canon(s string) string {
	n := in.Names
	if n == nil {
		return s
	}
	if c, ok := n.cache[s]; ok {
		return c
	}
	for _, k := range n.known[len(s)] {
		if n.same(s, k) {
			n.cache[s] = k
			return k
		}
	}
	n.known[len(s)] = append(n.known[len(s)], s)
	n.cache[s] = s
	return s
}

// VarNames lists the global variables at the end of a run.
func (in *Interp) VarNames() (l []string) {
	for n := range in.scopes[0].vars {
		l = append(l, n)
	}
	sort.Strings(l)
	return
}
