package bashsym

import (
	"sort"
	"strconv"
	"strings"

	"verif/sym"
)

type builtin func(in *Interp, args []sym.Str, decl map[int]*Assign)

var builtins map[string]builtin

// BuiltinNames lists the builtins this model implements.
func BuiltinNames() []string {
	var r []string
	for k := range builtins {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func init() {
	builtins = map[string]builtin{
		":":     func(in *Interp, a []sym.Str, d map[int]*Assign) { in.setStatus(0) },
		"true":  func(in *Interp, a []sym.Str, d map[int]*Assign) { in.setStatus(0) },
		"false": func(in *Interp, a []sym.Str, d map[int]*Assign) { in.setStatus(1) },
		"echo":  bEcho, "printf": bPrintf, "read": bRead,
		"local": bDeclare, "declare": bDeclare, "typeset": bDeclare, "export": bDeclare, "readonly": bDeclare,
		"eval": bEval, "return": bReturn, "exit": bExit, "break": bBreak, "continue": bBreak,
		"shift": bShift, "set": bSet, "unset": bUnset, "[": bTest, "test": bTest, "let": bLet,
		"command": bCommand, "builtin": bCommand, "type": bType, "pwd": bPwd, "shopt": bShopt,
		"trap": func(in *Interp, a []sym.Str, d map[int]*Assign) { in.P.Unsupported("trap") },
		"exec": func(in *Interp, a []sym.Str, d map[int]*Assign) { in.P.Unsupported("exec") },
		"source": func(in *Interp, a []sym.Str, d map[int]*Assign) {
			in.P.Unsupported("source")
		},
		".":        func(in *Interp, a []sym.Str, d map[int]*Assign) { in.P.Unsupported("source") },
		"cd":       func(in *Interp, a []sym.Str, d map[int]*Assign) { in.P.Unsupported("cd") },
		"mapfile":  func(in *Interp, a []sym.Str, d map[int]*Assign) { in.P.Unsupported("mapfile") },
		"getopts":  func(in *Interp, a []sym.Str, d map[int]*Assign) { in.P.Unsupported("getopts") },
		"wait":     func(in *Interp, a []sym.Str, d map[int]*Assign) { in.setStatus(0) },
		"hash":     func(in *Interp, a []sym.Str, d map[int]*Assign) { in.setStatus(0) },
		"umask":    func(in *Interp, a []sym.Str, d map[int]*Assign) { in.P.Unsupported("umask") },
		"kill":     func(in *Interp, a []sym.Str, d map[int]*Assign) { in.P.Unsupported("kill") },
		"alias":    func(in *Interp, a []sym.Str, d map[int]*Assign) { in.P.Unsupported("alias") },
		"unalias":  func(in *Interp, a []sym.Str, d map[int]*Assign) { in.P.Unsupported("unalias") },
		"bg":       func(in *Interp, a []sym.Str, d map[int]*Assign) { in.P.Unsupported("bg") },
		"fg":       func(in *Interp, a []sym.Str, d map[int]*Assign) { in.P.Unsupported("fg") },
		"jobs":     func(in *Interp, a []sym.Str, d map[int]*Assign) { in.P.Unsupported("jobs") },
		"help":     func(in *Interp, a []sym.Str, d map[int]*Assign) { in.P.Unsupported("help") },
		"history":  func(in *Interp, a []sym.Str, d map[int]*Assign) { in.P.Unsupported("history") },
		"ulimit":   func(in *Interp, a []sym.Str, d map[int]*Assign) { in.P.Unsupported("ulimit") },
		"times":    func(in *Interp, a []sym.Str, d map[int]*Assign) { in.P.Unsupported("times") },
		"enable":   func(in *Interp, a []sym.Str, d map[int]*Assign) { in.P.Unsupported("enable") },
		"dirs":     func(in *Interp, a []sym.Str, d map[int]*Assign) { in.P.Unsupported("dirs") },
		"pushd":    func(in *Interp, a []sym.Str, d map[int]*Assign) { in.P.Unsupported("pushd") },
		"popd":     func(in *Interp, a []sym.Str, d map[int]*Assign) { in.P.Unsupported("popd") },
		"logout":   func(in *Interp, a []sym.Str, d map[int]*Assign) { in.P.Unsupported("logout") },
		"suspend":  func(in *Interp, a []sym.Str, d map[int]*Assign) { in.P.Unsupported("suspend") },
		"disown":   func(in *Interp, a []sym.Str, d map[int]*Assign) { in.P.Unsupported("disown") },
		"caller":   func(in *Interp, a []sym.Str, d map[int]*Assign) { in.P.Unsupported("caller") },
		"bind":     func(in *Interp, a []sym.Str, d map[int]*Assign) { in.P.Unsupported("bind") },
		"fc":       func(in *Interp, a []sym.Str, d map[int]*Assign) { in.P.Unsupported("fc") },
		"compgen":  func(in *Interp, a []sym.Str, d map[int]*Assign) { in.P.Unsupported("compgen") },
		"complete": func(in *Interp, a []sym.Str, d map[int]*Assign) { in.P.Unsupported("complete") },
		"compopt":  func(in *Interp, a []sym.Str, d map[int]*Assign) { in.P.Unsupported("compopt") },
	}
}

func (in *Interp) echoOpt(s sym.Str) (n, e, E, ok bool) {
	if len(s) < 2 || s.HasItoa() {
		if len(s) > 0 && s[0].IsItoa() {
			return
		}
		if len(s) < 2 || s[0].IsLit() && s[0].B != '-' {
			return
		}
		return
	}
	if !in.chIs(s[0], '-') {
		return
	}
	for _, c := range s[1:] {
		switch {
		case in.chIs(c, 'n'):
			n = true
		case in.chIs(c, 'e'):
			e, E = true, false
		case in.chIs(c, 'E'):
			E, e = true, false
		default:
			return false, false, false, false
		}
	}
	return n, e, E, true
}

func bEcho(in *Interp, args []sym.Str, _ map[int]*Assign) {
	args = args[1:]
	nl, esc := true, false
	for len(args) > 0 {
		n, e, E, ok := in.echoOpt(args[0])
		if !ok {
			break
		}
		if n {
			nl = false
		}
		if e {
			esc = true
		}
		if E {
			esc = false
		}
		args = args[1:]
	}
	var out sym.Str
	for i, a := range args {
		if i > 0 {
			out = append(out, sym.Ch{B: ' '})
		}
		if esc {
			s, stop := in.escapes(a, true)
			out = append(out, s...)
			if stop {
				in.write(1, out)
				in.setStatus(0)
				return
			}
		} else {
			out = append(out, a...)
		}
	}
	if nl {
		out = append(out, sym.Ch{B: '\n'})
	}
	in.write(1, out)
	in.setStatus(0)
}

// escapes interprets backslash escapes (echo -e, printf %b, printf formats).
func (in *Interp) escapes(s sym.Str, echo bool) (sym.Str, bool) {
	var r sym.Str
	for i := 0; i < len(s); i++ {
		if !in.chIs(s[i], '\\') || i+1 >= len(s) {
			r = append(r, s[i])
			continue
		}
		i++
		c := s[i]
		if c.IsItoa() {
			in.P.Unsupported("escape before a decimal rendering")
		}
		b := c.B
		if c.IsByte() {
			b = byte(in.P.Concretize(c.T, 256))
		}
		switch b {
		case 'n':
			r = append(r, sym.Ch{B: '\n'})
		case 't':
			r = append(r, sym.Ch{B: '\t'})
		case 'r':
			r = append(r, sym.Ch{B: '\r'})
		case 'a':
			r = append(r, sym.Ch{B: 7})
		case 'b':
			r = append(r, sym.Ch{B: 8})
		case 'f':
			r = append(r, sym.Ch{B: 12})
		case 'v':
			r = append(r, sym.Ch{B: 11})
		case 'e', 'E':
			r = append(r, sym.Ch{B: 27})
		case '\\':
			r = append(r, sym.Ch{B: '\\'})
		case '"', '\'':
			if echo {
				r = append(r, sym.Ch{B: '\\'}, sym.Ch{B: b})
			} else {
				r = append(r, sym.Ch{B: b})
			}
		case 'c':
			return r, true
		case '0', '1', '2', '3', '4', '5', '6', '7', 'x', 'u', 'U':
			if b != '0' && b != 'x' && b != 'u' && b != 'U' && echo {
				r = append(r, sym.Ch{B: '\\'}, sym.Ch{B: b})
				continue
			}
			v, k, lim, base := 0, 0, 3, 8
			switch b {
			case 'x':
				lim, base = 2, 16
			case 'u', 'U':
				in.P.Unsupported("\\u escape")
			case '0':
				if !echo {
					v, k = 0, 1
				}
			default:
				v, k = int(b-'0'), 1
			}
			for k < lim && i+1 < len(s) {
				d := s[i+1]
				if d.IsItoa() {
					in.P.Unsupported("escape digits")
				}
				db := d.B
				if d.IsByte() {
					db = byte(in.P.Concretize(d.T, 256))
				}
				h := hexVal(db)
				if h < 0 || h >= base {
					break
				}
				v = v*base + h
				i++
				k++
			}
			r = append(r, sym.Ch{B: byte(v)})
		default:
			r = append(r, sym.Ch{B: '\\'}, sym.Ch{B: b})
		}
	}
	return r, false
}

// printfInt parses a numeric printf argument.
func (in *Interp) printfInt(s sym.Str) *sym.Term {
	if len(s) == 0 {
		return in.F.BV(0, 64)
	}
	t, ok := in.parseInt(s, true)
	if !ok {
		in.errf("printf: invalid number")
		in.setStatus(1)
		return in.F.BV(0, 64)
	}
	return t
}

func bPrintf(in *Interp, args []sym.Str, _ map[int]*Assign) {
	args = args[1:]
	in.setStatus(0)
	target := ""
	if len(args) > 0 {
		if c, ok := args[0].Concrete(); ok {
			if c == "-v" && len(args) >= 2 {
				t, ok := args[1].Concrete()
				if !ok {
					in.P.Unsupported("printf -v")
				}
				target = t
				args = args[2:]
			}
			if len(args) > 0 {
				if c, ok := args[0].Concrete(); ok && c == "--" {
					args = args[1:]
				} else if ok && len(c) > 1 && c[0] == '-' {
					in.errf("printf: %s: invalid option", c)
					in.setStatus(2)
					return
				}
			}
		} else if len(args[0]) > 1 && in.chIs(args[0][0], '-') {
			in.P.Unsupported("printf with a symbolic option")
		}
	}
	if len(args) == 0 {
		in.errf("printf: usage: printf [-v var] format [arguments]")
		in.setStatus(2)
		return
	}
	format := args[0]
	rest := args[1:]
	var out sym.Str
	next := func() (sym.Str, bool) {
		if len(rest) == 0 {
			return nil, false
		}
		s := rest[0]
		rest = rest[1:]
		return s, true
	}
	stop := false
	for round := 0; ; round++ {
		consumed := false
		i := 0
		for i < len(format) && !stop {
			c := format[i]
			if in.chIs(c, '\\') {
				j := i + 1
				for j < len(format) && j < i+4 && format[j].IsLit() && !in.chIs(format[j], '\\') && !in.chIs(format[j], '%') {
					j++
				}
				if j == i+1 && j < len(format) {
					j++
				}
				// a minimal escape: one character, or digits
				k := i + 2
				if i+1 < len(format) && format[i+1].IsLit() && (format[i+1].B == 'x' || isDigit(format[i+1].B)) {
					for k < len(format) && k < i+4 && format[k].IsLit() && hexVal(format[k].B) >= 0 {
						k++
					}
				}
				if k > len(format) {
					k = len(format)
				}
				s, st := in.escapes(format[i:k], false)
				out = append(out, s...)
				stop = st
				i = k
				continue
			}
			if !in.chIs(c, '%') {
				out = append(out, c)
				i++
				continue
			}
			i++
			if i >= len(format) {
				in.errf("printf: `%%': missing format character")
				in.setStatus(1)
				stop = true
				break
			}
			if in.chIs(format[i], '%') {
				out = append(out, sym.Ch{B: '%'})
				i++
				continue
			}
			left, zero := false, false
			width, prec := 0, -1
			lb := func() byte {
				if i >= len(format) {
					return 0
				}
				if !format[i].IsLit() {
					if format[i].IsByte() {
						return byte(in.P.Concretize(format[i].T, 256))
					}
					in.P.Unsupported("printf format")
				}
				return format[i].B
			}
			for lb() == '-' || lb() == '0' || lb() == '+' || lb() == ' ' || lb() == '#' {
				switch lb() {
				case '-':
					left = true
				case '0':
					zero = true
				default:
					in.P.Unsupported("printf flag")
				}
				i++
			}
			if lb() == '*' {
				in.P.Unsupported("printf *")
			}
			for isDigit(lb()) {
				width = width*10 + int(lb()-'0')
				i++
			}
			if lb() == '.' {
				i++
				prec = 0
				for isDigit(lb()) {
					prec = prec*10 + int(lb()-'0')
					i++
				}
			}
			var s sym.Str
			cv := lb()
			i++
			switch cv {
			case 's', 'b', 'q', 'c':
				a, ok := next()
				consumed = consumed || ok
				s = a
				switch cv {
				case 'b':
					s, stop = in.escapes(a, true)
				case 'q':
					if c, ok := a.Concrete(); ok && plainStr(c) {
						s = a
					} else {
						in.P.Unsupported("printf %%q")
					}
				case 'c':
					s = in.P.Digits(s)
					if len(s) > 1 {
						s = s[:1]
					}
				}
				if prec >= 0 {
					s = in.P.Digits(s)
					if len(s) > prec {
						s = s[:prec]
					}
				}
			case 'd', 'i', 'u':
				a, ok := next()
				consumed = consumed || ok
				s = sym.Itoa(in.printfInt(a))
				if zero && width > 0 {
					in.P.Unsupported("printf %%0d")
				}
			case 'x', 'o', 'X':
				a, ok := next()
				consumed = consumed || ok
				t := in.printfInt(a)
				if !t.IsConst() {
					in.P.Unsupported("printf %%x")
				}
				base := 16
				if cv == 'o' {
					base = 8
				}
				x := strconv.FormatUint(t.V, base)
				if zero {
					for len(x) < width {
						x = "0" + x
					}
				}
				s = sym.Lit(x)
			default:
				in.errf("printf: `%c': invalid format character", cv)
				in.setStatus(1)
				stop = true
				continue
			}
			if width > 0 {
				s = in.P.Digits(s)
				for len(s) < width {
					if left {
						s = append(s[:len(s):len(s)], sym.Ch{B: ' '})
					} else {
						s = append(sym.Str{{B: ' '}}, s...)
					}
				}
			}
			out = append(out, s...)
		}
		if stop || len(rest) == 0 || !consumed {
			break
		}
	}
	if target != "" {
		if !validName(target) {
			in.P.Unsupported("printf -v %s", target)
		}
		in.setVar(target, out)
		return
	}
	in.write(1, out)
}

func plainStr(c string) bool {
	if c == "" {
		return false
	}
	for i := range c {
		if !plainByte(c[i]) {
			return false
		}
	}
	return true
}

func bRead(in *Interp, args []sym.Str, _ map[int]*Assign) {
	raw := false
	var prompt sym.Str
	delim := byte('\n')
	array := ""
	nchars := -1
	i := 1
	for i < len(args) {
		c, ok := args[i].Concrete()
		if !ok {
			in.P.Unsupported("read with symbolic arguments")
		}
		if len(c) < 2 || c[0] != '-' {
			break
		}
		if c == "--" {
			i++
			break
		}
		j := 1
	opts:
		for j < len(c) {
			switch c[j] {
			case 'r':
				raw = true
			case 's', 'e':
			case 'p', 'd', 'a', 'n', 'N', 't', 'u', 'i':
				var v sym.Str
				if j+1 < len(c) {
					v = sym.Lit(c[j+1:])
				} else {
					i++
					if i >= len(args) {
						in.errf("read: -%c: option requires an argument", c[j])
						in.setStatus(2)
						return
					}
					v = args[i]
				}
				cv, okv := v.Concrete()
				switch c[j] {
				case 'p':
					prompt = v
				case 'd':
					if !okv {
						in.P.Unsupported("read -d")
					}
					delim = 0
					if cv != "" {
						delim = cv[0]
					}
				case 'a':
					array = cv
				case 'n', 'N':
					k, err := strconv.Atoi(cv)
					if err != nil || c[j] == 'N' {
						in.P.Unsupported("read -N")
					}
					nchars = k
				default:
					in.P.Unsupported("read -%c", c[j])
				}
				break opts
			default:
				in.errf("read: -%c: invalid option", c[j])
				in.setStatus(2)
				return
			}
			j++
		}
		i++
	}
	_ = prompt // the prompt is only shown on terminals
	var names []string
	for ; i < len(args); i++ {
		c, ok := args[i].Concrete()
		if !ok {
			in.P.Unsupported("read with a symbolic name")
		}
		if !validName(c) {
			if k := indexByte(c, '['); k > 0 && validName(c[:k]) {
				in.P.Unsupported("read into an element")
			}
			in.errf("read: `%s': not a valid identifier", c)
			in.setStatus(1)
			return
		}
		names = append(names, c)
	}
	// consume one line
	var line []qch
	s := in.stdin.S
	found := false
	k := 0
	for k < len(s) {
		if nchars >= 0 && len(line) >= nchars {
			found = true
			break
		}
		c := s[k]
		if in.chIs(c, delim) {
			k++
			found = true
			break
		}
		if !raw && in.chIs(c, '\\') {
			k++
			if k >= len(s) {
				break
			}
			if in.chIs(s[k], '\n') {
				k++
				continue
			}
			line = append(line, qch{s[k], true})
			k++
			continue
		}
		line = append(line, qch{c, false})
		k++
	}
	in.stdin.S = s[k:]
	if found {
		in.setStatus(0)
	} else {
		in.setStatus(1)
	}
	str := func(l []qch) sym.Str {
		r := make(sym.Str, len(l))
		for i, c := range l {
			r[i] = c.c
		}
		return r
	}
	if len(names) == 0 && array == "" {
		in.setVar("REPLY", str(line))
		return
	}
	ifs := in.ifs()
	var wsSet, nws []byte
	for _, b := range ifs {
		if b == ' ' || b == '\t' || b == '\n' {
			wsSet = append(wsSet, b)
		} else {
			nws = append(nws, b)
		}
	}
	ws := func(c qch) bool { return !c.q && chIn(in, c.c, wsSet) }
	// strip leading and trailing IFS whitespace
	for len(line) > 0 && ws(line[0]) {
		line = line[1:]
	}
	if array != "" || len(nws) > 0 && len(names) > 1 {
		in.P.Unsupported("read into several fields")
	}
	for n := 0; n < len(names); n++ {
		if n == len(names)-1 {
			for len(line) > 0 && ws(line[len(line)-1]) {
				line = line[:len(line)-1]
			}
			if len(nws) > 0 {
				// a single trailing delimiter is removed when nothing else contains one
				cnt := 0
				for _, c := range line {
					if !c.q && chIn(in, c.c, nws) {
						cnt++
					}
				}
				if cnt > 0 {
					in.P.Unsupported("read with a custom IFS")
				}
			}
			in.setVar(names[n], str(line))
			return
		}
		j := 0
		for j < len(line) && !ws(line[j]) {
			j++
		}
		in.setVar(names[n], str(line[:j]))
		line = line[j:]
		for len(line) > 0 && ws(line[0]) {
			line = line[1:]
		}
	}
}

func bDeclare(in *Interp, args []sym.Str, decl map[int]*Assign) {
	cmd, _ := args[0].Concrete()
	if cmd == "local" && in.inFunc == 0 {
		in.errf("local: can only be used in a function")
		in.setStatus(1)
		return
	}
	isLocal := cmd == "local" || (cmd == "declare" || cmd == "typeset") && in.inFunc > 0
	var fArr, fAssoc, fInt, fRO, fExp, fRef, fPrint bool
	if cmd == "export" {
		fExp = true
	}
	if cmd == "readonly" {
		fRO = true
	}
	in.lastSub = nil
	st := int64(0)
	i := 1
	for ; i < len(args); i++ {
		if decl[i] != nil {
			break
		}
		c, ok := args[i].Concrete()
		if !ok {
			in.P.Unsupported("symbolic declaration")
		}
		if len(c) < 2 || c[0] != '-' && c[0] != '+' {
			break
		}
		if c == "--" {
			i++
			break
		}
		if c[0] == '+' {
			in.P.Unsupported("declare +")
		}
		for _, o := range c[1:] {
			switch o {
			case 'a':
				fArr = true
			case 'A':
				fAssoc = true
			case 'i':
				fInt = true
			case 'r':
				fRO = true
			case 'x':
				fExp = true
			case 'n':
				fRef = true
				if cmd == "export" {
					in.P.Unsupported("export -n")
				}
			case 'g':
				isLocal = false
			case 'p':
				fPrint = true
			default:
				in.P.Unsupported("declare -%c", o)
			}
		}
	}
	if fPrint {
		in.P.Unsupported("declare -p")
	}
	pick := func(n string) *Var {
		var v *Var
		if isLocal {
			v = in.local(n)
		} else if cmd == "declare" || cmd == "typeset" {
			n = in.canon(n)
			v = in.scopes[0].vars[n]
			if v == nil {
				v = &Var{}
				in.scopes[0].vars[n] = v
			}
		} else {
			v = in.lvalue(n)
		}
		if fAssoc && v.Assoc == nil {
			v.Assoc = map[string]sym.Str{}
		}
		if fArr && !v.IsArr {
			in.toArray(v)
		}
		if fInt {
			v.Int = true
		}
		return v
	}
	for ; i < len(args); i++ {
		a := decl[i]
		if a == nil {
			c, ok := args[i].Concrete()
			if !ok {
				in.P.Unsupported("symbolic declaration")
			}
			if !validName(c) {
				if k := indexByte(c, '='); k > 0 && validName(c[:k]) {
					a = &Assign{Name: c[:k], Val: &Word{Parts: []Part{{Kind: PLit, Quoted: true, S: sym.Lit(c[k+1:])}}}}
				} else {
					in.errf("%s: `%s': not a valid identifier", cmd, c)
					st = 1
					continue
				}
			} else {
				v := pick(c)
				if fRO {
					v.RO = true
				}
				if fExp {
					v.Export = true
				}
				if fRef {
					v.Ref = true
				}
				continue
			}
		}
		if a.IsArr && !fAssoc {
			// evaluate with the outer value visible, then bind
			tmp := &Var{}
			in.assign(&Assign{Name: a.Name, IsArr: true, Array: a.Array, Append: a.Append}, func(n string) *Var {
				if a.Append {
					return pick(n)
				}
				return tmp
			})
			if !a.Append {
				v := pick(a.Name)
				in.roCheck(a.Name, v)
				v.IsArr, v.Arr, v.Set = true, tmp.Arr, true
			}
		} else if a.IsArr {
			in.assign(a, pick)
		} else if a.Sub == nil {
			// the right-hand side is expanded before the local exists
			val := in.expandAssign(a.Val)
			if fRef {
				v := pick(a.Name)
				v.Ref = true
				v.S, v.Set = val, true
				continue
			}
			v := pick(a.Name)
			if v.Ref {
				v.S, v.Set = val, true
				continue
			}
			lw := &Word{Parts: []Part{{Kind: PLit, Quoted: true, S: val}}}
			in.assign(&Assign{Name: a.Name, Val: lw, Append: a.Append}, func(string) *Var { return v })
		} else {
			in.assign(a, pick)
		}
		v := pick(a.Name)
		if fRO {
			v.RO = true
		}
		if fExp {
			v.Export = true
		}
	}
	in.setStatus(st)
}

func bEval(in *Interp, args []sym.Str, _ map[int]*Assign) {
	var s sym.Str
	for i, a := range args[1:] {
		if i > 0 {
			s = append(s, sym.Ch{B: ' '})
		}
		s = append(s, a...)
	}
	in.setStatus(0)
	in.Depth++
	if in.Depth > 300 {
		in.P.Bound("eval depth")
	}
	defer func() { in.Depth-- }()
	ps := &Parser{P: in.P, F: in.F, S: append(sym.Str{}, s...)}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if e, ok := r.(SyntaxError); ok {
					in.errf("eval: %s", e.Msg)
					in.setStatus(2)
					return
				}
				panic(r)
			}
		}()
		for {
			n := ps.NextCommand()
			if n == nil {
				return
			}
			in.exec(n)
		}
	}()
}

func (in *Interp) statusArg(args []sym.Str) bool {
	if len(args) < 2 {
		return true
	}
	t, ok := in.parseInt(args[1], false)
	if !ok {
		in.errf("numeric argument required")
		in.setStatus(2)
		return false
	}
	in.status = in.F.BAnd(t, in.F.BV(255, 64))
	return true
}

func bReturn(in *Interp, args []sym.Str, _ map[int]*Assign) {
	if in.inFunc == 0 {
		in.errf("return: can only `return' from a function or sourced script")
		in.setStatus(2)
		return
	}
	in.statusArg(args)
	panic(ret{})
}

func bExit(in *Interp, args []sym.Str, _ map[int]*Assign) {
	in.statusArg(args)
	panic(exit{})
}

func bBreak(in *Interp, args []sym.Str, _ map[int]*Assign) {
	c, _ := args[0].Concrete()
	if in.loops == 0 {
		in.errf("%s: only meaningful in a `for', `while', or `until' loop", c)
		in.setStatus(0)
		return
	}
	n := 1
	if len(args) > 1 {
		k, ok := args[1].Concrete()
		v, err := strconv.Atoi(k)
		if !ok || err != nil || v < 1 {
			in.P.Unsupported("break argument")
		}
		n = v
	}
	in.setStatus(0)
	if c == "break" {
		panic(brk{n})
	}
	panic(cont{n})
}

func bShift(in *Interp, args []sym.Str, _ map[int]*Assign) {
	n := 1
	if len(args) > 1 {
		t, ok := in.parseInt(args[1], false)
		if !ok {
			in.setStatus(1)
			return
		}
		n = int(in.P.Concretize(t, 64))
	}
	if n > len(in.params) || n < 0 {
		in.setStatus(1)
		return
	}
	in.params = in.params[n:]
	in.setStatus(0)
}

func bSet(in *Interp, args []sym.Str, _ map[int]*Assign) {
	in.setStatus(0)
	i := 1
	for ; i < len(args); i++ {
		c, ok := args[i].Concrete()
		if !ok {
			if len(args[i]) > 0 && !in.chIn2(args[i][0]) {
				break
			}
			in.P.Unsupported("symbolic set option")
		}
		if c == "--" {
			i++
			in.params = append([]sym.Str{}, args[i:]...)
			return
		}
		if len(c) < 2 || c[0] != '-' && c[0] != '+' {
			break
		}
		for j := 1; j < len(c); j++ {
			on := c[0] == '-'
			switch c[j] {
			case 'e', 'u', 'f':
				in.opts[string(c[j])] = on
			case 'o':
				i++
				if i >= len(args) {
					in.P.Unsupported("set -o")
				}
				o, _ := args[i].Concrete()
				switch o {
				case "errexit":
					in.opts["e"] = on
				case "nounset":
					in.opts["u"] = on
				case "noglob":
					in.opts["f"] = on
				case "pipefail":
					in.opts["pipefail"] = on
				default:
					in.P.Unsupported("set -o %s", o)
				}
			case 'h', 'B':
			default:
				in.P.Unsupported("set -%c", c[j])
			}
		}
	}
	if i < len(args) {
		in.params = append([]sym.Str{}, args[i:]...)
	}
}

func (in *Interp) chIn2(c sym.Ch) bool { return chIn(in, c, []byte("-+")) }

func bShopt(in *Interp, args []sym.Str, _ map[int]*Assign) { in.P.Unsupported("shopt") }

func bUnset(in *Interp, args []sym.Str, _ map[int]*Assign) {
	in.setStatus(0)
	fn := false
	for _, a := range args[1:] {
		c, ok := a.Concrete()
		if !ok {
			in.P.Unsupported("unset of a symbolic name")
		}
		switch c {
		case "-v":
			continue
		case "-f":
			fn = true
			continue
		}
		if len(c) > 0 && c[0] == '-' {
			in.P.Unsupported("unset %s", c)
		}
		if fn {
			delete(in.funcs, c)
			continue
		}
		if k := indexByte(c, '['); k > 0 && c[len(c)-1] == ']' {
			v := in.lookup(c[:k])
			sub := c[k+1 : len(c)-1]
			if v == nil {
				continue
			}
			if sub == "@" || sub == "*" {
				v.Arr = map[int64]sym.Str{}
				continue
			}
			if v.Assoc != nil {
				delete(v.Assoc, sub)
				continue
			}
			t := in.arithStr(sym.Lit(sub))
			if v.IsArr {
				delete(v.Arr, int64(in.P.Concretize(t, 64)))
			}
			continue
		}
		if !validName(c) {
			in.errf("unset: `%s': not a valid identifier", c)
			in.setStatus(1)
			continue
		}
		c = in.canon(c)
		for i := len(in.scopes) - 1; i >= 0; i-- {
			if v := in.scopes[i].vars[c]; v != nil {
				in.roCheck(c, v)
				if i > 0 && i == len(in.scopes)-1 {
					in.scopes[i].vars[c] = &Var{}
				} else {
					delete(in.scopes[i].vars, c)
				}
				break
			}
		}
	}
}

func bLet(in *Interp, args []sym.Str, _ map[int]*Assign) {
	var t *sym.Term
	for _, a := range args[1:] {
		t = in.arithStr(a)
	}
	if t == nil {
		in.setStatus(1)
		return
	}
	in.status = in.F.Ite(in.F.Ne(t, in.F.BV(0, 64)), in.F.BV(0, 64), in.F.BV(1, 64))
}

func bCommand(in *Interp, args []sym.Str, d map[int]*Assign) {
	if len(args) == 1 {
		in.setStatus(0)
		return
	}
	c, ok := args[1].Concrete()
	if !ok {
		in.P.Unsupported("command with a symbolic name")
	}
	self, _ := args[0].Concrete()
	if c == "--" {
		args = args[1:]
		if len(args) == 1 {
			in.setStatus(0)
			return
		}
		if c, ok = args[1].Concrete(); !ok {
			in.P.Unsupported("command with a symbolic name")
		}
	} else if len(c) > 0 && c[0] == '-' {
		if c == "-v" && len(args) == 3 && self == "command" {
			n, _ := args[2].Concrete()
			n = in.canon(n)
			if in.funcs[n] != nil || builtins[n] != nil {
				in.write(1, sym.Lit(n+"\n"))
				in.setStatus(0)
				return
			}
		}
		in.P.Unsupported("command %s", c)
	}
	if len(d) > 0 {
		in.P.Unsupported("command with assignments")
	}
	c = in.canon(c)
	saved := in.funcs
	if in.funcs[c] != nil {
		nf := map[string]*FuncDef{}
		for k, v := range in.funcs {
			if k != c {
				nf[k] = v
			}
		}
		in.funcs = nf
		defer func() { in.funcs = saved }()
		if b := builtins[c]; b != nil {
			in.funcs = saved
			b(in, args[1:], nil)
			return
		}
	}
	in.command(args[1:], nil)
}

func bType(in *Interp, args []sym.Str, _ map[int]*Assign) { in.P.Unsupported("type") }

func bPwd(in *Interp, args []sym.Str, _ map[int]*Assign) {
	in.write(1, sym.Lit("/work\n"))
	in.setStatus(0)
}

// --- test ---

// parseInt parses a decimal integer with optional blanks and sign.
func (in *Interp) parseInt(s sym.Str, cLike bool) (*sym.Term, bool) {
	f := in.F
	if len(s) == 1 && s[0].IsItoa() {
		return s[0].T, true
	}
	s = in.P.Digits(s)
	ws := []byte(" \t\n\r\v\f")
	for len(s) > 0 && chIn(in, s[0], ws) {
		s = s[1:]
	}
	if !cLike {
		for len(s) > 0 && chIn(in, s[len(s)-1], ws[:2]) {
			s = s[:len(s)-1]
		}
	}
	neg := false
	if len(s) > 0 && chIn(in, s[0], []byte("+-")) {
		neg = in.chIs(s[0], '-')
		s = s[1:]
	}
	if len(s) == 0 {
		return nil, false
	}
	if c, ok := s.Concrete(); ok {
		if neg {
			c = "-" + c
		}
		base := 10
		if cLike {
			base = 0
		}
		v, err := strconv.ParseInt(c, base, 64)
		if err != nil {
			return nil, false
		}
		return f.BV(v, 64), true
	}
	if len(s) > 18 {
		in.P.Bound("long symbolic number")
	}
	v := f.BV(0, 64)
	for i, c := range s {
		t := f.ByteTerm(c)
		if !in.P.Branch(f.And(f.Ule(f.BV('0', 8), t), f.Ule(t, f.BV('9', 8)))) {
			return nil, false
		}
		if cLike && i == 0 && len(s) > 1 && in.chIs(c, '0') {
			in.P.Unsupported("octal printf argument")
		}
		v = f.Add(f.Mul(v, f.BV(10, 64)), f.ZExt(f.Sub(t, f.BV('0', 8)), 64))
	}
	if neg {
		v = f.Neg(v)
	}
	return v, true
}

type testErr struct{ msg string }

func bTest(in *Interp, args []sym.Str, _ map[int]*Assign) {
	c, _ := args[0].Concrete()
	a := args[1:]
	if c == "[" {
		if len(a) == 0 || !isLitStr(a[len(a)-1], "]") {
			in.errf("[: missing `]'")
			in.setStatus(2)
			return
		}
		a = a[:len(a)-1]
	}
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(testErr); ok {
				in.errf("%s: %s", c, e.msg)
				in.setStatus(2)
				return
			}
			panic(r)
		}
	}()
	t := in.test(a)
	in.status = in.F.Ite(t, in.F.BV(0, 64), in.F.BV(1, 64))
}

func isLitStr(s sym.Str, l string) bool {
	c, ok := s.Concrete()
	return ok && c == l
}

// sIs decides whether an argument equals a literal operator.
func (in *Interp) sIs(s sym.Str, l string) bool {
	if c, ok := s.Concrete(); ok {
		return c == l
	}
	if s.HasItoa() {
		return false
	}
	if len(s) != len(l) {
		return false
	}
	return in.P.Branch(in.P.StrEq(s, sym.Lit(l)))
}

var unaryOps = []string{"-e", "-f", "-d", "-z", "-n", "-s", "-r", "-w", "-x", "-v", "-h", "-L", "-p", "-S", "-b", "-c", "-g", "-k", "-u", "-O", "-G", "-N", "-t", "-o", "-R", "-a"}
var binaryOps = []string{"=", "==", "!=", "-eq", "-ne", "-lt", "-le", "-gt", "-ge", "<", ">", "-nt", "-ot", "-ef"}

func (in *Interp) oneOf(s sym.Str, ops []string) string {
	for _, o := range ops {
		if in.sIs(s, o) {
			return o
		}
	}
	return ""
}

func (in *Interp) test(a []sym.Str) *sym.Term {
	f := in.F
	switch len(a) {
	case 0:
		return f.False
	case 1:
		return f.Bool(len(a[0]) > 0)
	case 2:
		if in.sIs(a[0], "!") {
			return f.Bool(len(a[1]) == 0)
		}
		if o := in.oneOf(a[0], unaryOps); o != "" {
			return in.testUnary(o, a[1])
		}
		panic(testErr{a[0].String() + ": unary operator expected"})
	case 3:
		if o := in.oneOf(a[1], binaryOps); o != "" {
			return in.testBinary(a[0], o, a[2])
		}
		if in.sIs(a[1], "-a") {
			return f.And(f.Bool(len(a[0]) > 0), f.Bool(len(a[2]) > 0))
		}
		if in.sIs(a[1], "-o") {
			return f.Or(f.Bool(len(a[0]) > 0), f.Bool(len(a[2]) > 0))
		}
		if in.sIs(a[0], "!") {
			return f.Not(in.test(a[1:]))
		}
		if in.sIs(a[0], "(") && in.sIs(a[2], ")") {
			return f.Bool(len(a[1]) > 0)
		}
		panic(testErr{a[1].String() + ": binary operator expected"})
	case 4:
		if in.sIs(a[0], "!") {
			return f.Not(in.test(a[1:]))
		}
		if in.sIs(a[0], "(") && in.sIs(a[3], ")") {
			return in.test(a[1:3])
		}
	}
	pos := 0
	t := in.testOr(a, &pos)
	if pos != len(a) {
		panic(testErr{"too many arguments"})
	}
	return t
}

func (in *Interp) testOr(a []sym.Str, pos *int) *sym.Term {
	l := in.testAnd(a, pos)
	for *pos < len(a) && in.sIs(a[*pos], "-o") {
		*pos++
		l = in.F.Or(l, in.testAnd(a, pos))
	}
	return l
}

func (in *Interp) testAnd(a []sym.Str, pos *int) *sym.Term {
	l := in.testPrim(a, pos)
	for *pos < len(a) && in.sIs(a[*pos], "-a") {
		*pos++
		l = in.F.And(l, in.testPrim(a, pos))
	}
	return l
}

func (in *Interp) testPrim(a []sym.Str, pos *int) *sym.Term {
	if *pos >= len(a) {
		panic(testErr{"argument expected"})
	}
	if in.sIs(a[*pos], "!") {
		*pos++
		return in.F.Not(in.testPrim(a, pos))
	}
	if in.sIs(a[*pos], "(") {
		*pos++
		t := in.testOr(a, pos)
		if *pos >= len(a) || !in.sIs(a[*pos], ")") {
			panic(testErr{"`)' expected"})
		}
		*pos++
		return t
	}
	if *pos+2 < len(a) {
		if o := in.oneOf(a[*pos+1], binaryOps); o != "" {
			t := in.testBinary(a[*pos], o, a[*pos+2])
			*pos += 3
			return t
		}
	}
	if *pos+1 < len(a) {
		if o := in.oneOf(a[*pos], unaryOps); o != "" {
			t := in.testUnary(o, a[*pos+1])
			*pos += 2
			return t
		}
	}
	t := in.F.Bool(len(a[*pos]) > 0)
	*pos++
	return t
}

func (in *Interp) testUnary(o string, s sym.Str) *sym.Term {
	f := in.F
	switch o {
	case "-z":
		return f.Bool(len(s) == 0)
	case "-n":
		return f.Bool(len(s) > 0)
	case "-e", "-f", "-d", "-s", "-r", "-w", "-a":
		if len(s) == 0 {
			return f.False
		}
		fl := in.FS.Find(in.P, s)
		if fl == nil {
			return f.False
		}
		switch o {
		case "-f":
			return f.Bool(!fl.Dir)
		case "-d":
			return f.Bool(fl.Dir)
		case "-s":
			return f.Bool(fl.Dir || len(fl.Data) > 0)
		}
		return f.True
	case "-v":
		c, ok := s.Concrete()
		if !ok || !validName(c) {
			in.P.Unsupported("-v")
		}
		_, set := in.get(c)
		return f.Bool(set)
	}
	in.P.Unsupported("test %s", o)
	return nil
}

func (in *Interp) testBinary(l sym.Str, o string, r sym.Str) *sym.Term {
	f := in.F
	switch o {
	case "=", "==":
		return in.P.StrEq(l, r)
	case "!=":
		return f.Not(in.P.StrEq(l, r))
	case "<", ">":
		if o == ">" {
			l, r = r, l
		}
		return in.strLess(l, r)
	case "-eq", "-ne", "-lt", "-le", "-gt", "-ge":
		a, ok := in.parseInt(l, false)
		if !ok {
			panic(testErr{l.String() + ": integer expression expected"})
		}
		b, ok := in.parseInt(r, false)
		if !ok {
			panic(testErr{r.String() + ": integer expression expected"})
		}
		return intCmp(f, o, a, b)
	}
	in.P.Unsupported("test %s", o)
	return nil
}

func intCmp(f *sym.Factory, o string, a, b *sym.Term) *sym.Term {
	switch o {
	case "-eq":
		return f.Eq(a, b)
	case "-ne":
		return f.Ne(a, b)
	case "-lt":
		return f.Slt(a, b)
	case "-le":
		return f.Sle(a, b)
	case "-gt":
		return f.Slt(b, a)
	}
	return f.Sle(b, a)
}

// strLess: byte-wise order.
func (in *Interp) strLess(l, r sym.Str) *sym.Term {
	l, r = in.P.Digits(l), in.P.Digits(r)
	f := in.F
	n := min(len(l), len(r))
	res := f.Bool(len(l) < len(r))
	for i := n - 1; i >= 0; i-- {
		a, b := f.ByteTerm(l[i]), f.ByteTerm(r[i])
		res = f.Ite(f.Eq(a, b), res, f.Ult(a, b))
	}
	return res
}

func (in *Interp) cond(e *CondExpr) *sym.Term {
	f := in.F
	switch e.Op {
	case "&&":
		l := in.cond(e.L)
		if !in.P.Branch(l) {
			return f.False
		}
		return in.cond(e.R)
	case "||":
		l := in.cond(e.L)
		if in.P.Branch(l) {
			return f.True
		}
		return in.cond(e.R)
	case "!":
		return f.Not(in.cond(e.L))
	case "word":
		return f.Bool(len(in.expandString(e.A)) > 0)
	case "un":
		return in.testUnary(e.Name, in.expandString(e.A))
	}
	switch e.Name {
	case "=", "==", "!=":
		l := in.expandString(e.A)
		pat := in.expandPattern(e.B)
		var t *sym.Term
		if !hasGlob(pat) {
			lit := make(sym.Str, len(pat))
			for i, c := range pat {
				lit[i] = c.c
			}
			t = in.P.StrEq(l, lit)
		} else {
			t = f.Bool(in.match(l, pat))
		}
		if e.Name == "!=" {
			return f.Not(t)
		}
		return t
	case "<", ">":
		l, r := in.expandString(e.A), in.expandString(e.B)
		if e.Name == ">" {
			l, r = r, l
		}
		return in.strLess(l, r)
	case "-eq", "-ne", "-lt", "-le", "-gt", "-ge":
		return intCmp(f, e.Name, in.arithWord(e.A), in.arithWord(e.B))
	}
	in.P.Unsupported("[[ %s ]]", e.Name)
	return nil
}

// --- external commands of the model ---

var externals = map[string]Cmd{
	"cat": func(in *Interp, args []sym.Str, stdin *Stdin) (sym.Str, int) {
		var out sym.Str
		st := 0
		opts := true
		var files []sym.Str
		for _, a := range args {
			if opts && in.sIs(a, "--") {
				opts = false
				continue
			}
			if opts && len(a) > 1 && in.chIs(a[0], '-') {
				c, ok := a.Concrete()
				if !ok {
					in.P.Unsupported("cat with a symbolic option")
				}
				if strings.HasPrefix(c, "--") {
					in.errf("cat: unrecognized option '%s'", c)
					return nil, 1
				}
				in.P.Unsupported("cat %s", c)
			}
			files = append(files, a)
		}
		if len(files) == 0 {
			out = stdin.S
			stdin.S = nil
			return out, 0
		}
		for _, a := range files {
			if in.sIs(a, "-") {
				out = sym.Cat(out, stdin.S)
				stdin.S = nil
				continue
			}
			fl := in.FS.Find(in.P, a)
			if fl == nil || fl.Dir || len(a) == 0 {
				in.err(sym.Cat(sym.Lit("cat: "), a, sym.Lit(": No such file or directory")))
				st = 1
				continue
			}
			out = sym.Cat(out, fl.Data)
		}
		return out, st
	},
}
