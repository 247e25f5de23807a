package gen

import (
	"fmt"
	"math/rand"
	"strings"
)

// Rand composes well-typed programs; features: funcs slices calls32.
type Rand struct {
	R     *rand.Rand
	Feat  map[string]bool
	sb    strings.Builder
	ind   int
	scope []map[string]string // name -> type
	n     int
	hole  int
	funcs []rfunc
	loops int
	infn  *rfunc
	budg  int
	ro    map[string]bool
	nofn  bool
	Small bool
	used  map[string]bool
}

type rfunc struct {
	name   string
	params []string
	rets   []string
}

func (r *Rand) line(f string, a ...any) {
	r.sb.WriteString(strings.Repeat("\t", r.ind) + fmt.Sprintf(f, a...) + "\n")
}
func (r *Rand) name(p string) string {
	r.n++
	if r.Feat["collide"] && r.infn != nil && p != "fn" {
		// reuse short names within functions; later globals use them as well
		for _, n := range []string{"a", "b", "c", "x", "y"} {
			used := false
			for _, s := range r.scope {
				if _, ok := s[n]; ok {
					used = true
				}
			}
			if !used && !r.used[n] {
				r.used[n] = true
				return n
			}
		}
	}
	return fmt.Sprintf("%s%d", p, r.n)
}
func (r *Rand) push()            { r.scope = append(r.scope, map[string]string{}) }
func (r *Rand) pop()             { r.scope = r.scope[:len(r.scope)-1] }
func (r *Rand) decl(n, t string) { r.scope[len(r.scope)-1][n] = t }
func (r *Rand) vars(t string, write bool) []string {
	var out []string
	for i := range r.scope {
		var ns []string
		for n, x := range r.scope[i] {
			if x == t && !(write && r.ro[n]) {
				ns = append(ns, n)
			}
		}
		sortStrings(ns)
		out = append(out, ns...)
	}
	return out
}
func sortStrings(s []string) {
	for i := range s {
		for j := i + 1; j < len(s); j++ {
			if s[j] < s[i] {
				s[i], s[j] = s[j], s[i]
			}
		}
	}
}
func (r *Rand) pick(s []string) string { return s[r.R.Intn(len(s))] }

func (r *Rand) types() []string {
	t := []string{"int", "int", "bool", "string"}
	if r.Feat["slices"] {
		t = append(t, "[]int", "[]string")
	}
	return t
}

// Program builds a program.
func (r *Rand) Program() string {
	r.ro = map[string]bool{}
	r.push()
	r.budg = 14
	for i := 0; i < 2; i++ {
		r.def("")
	}
	late := []string{"x", "a", "y"}
	if r.Feat["funcs"] {
		for i, n := 0, 1+r.R.Intn(3); i < n; i++ {
			r.funcDef()
			if r.R.Intn(3) == 0 {
				r.def("")
			}
		}
	}
	if r.Feat["effects"] {
		r.line("gg := 8100004")
		r.line("func fi(n int) int {\n\tprint(\"fi\", n)\n\tgg = gg * 3 + n\n\treturn gg\n}")
		r.line("func fb(b bool) bool {\n\tprint(\"fb\", b)\n\tgg++\n\treturn !b\n}")
		r.line("func fs(s string) string {\n\tprint(\"fs\", s)\n\tgg--\n\treturn s + \"'\"\n}")
		r.decl("gg", "int")
		r.funcs = append(r.funcs, rfunc{"fi", []string{"int"}, []string{"int"}}, rfunc{"fb", []string{"bool"}, []string{"bool"}}, rfunc{"fs", []string{"string"}, []string{"string"}})
	}
	if r.Feat["collide"] {
		for _, v := range late {
			t := r.pick(r.types())
			r.line("%s := %s", v, r.expr(t, 1))
			r.decl(v, t)
		}
	}
	n := 4 + r.R.Intn(5)
	for i := 0; i < n; i++ {
		r.stmt(0)
	}
	var pv []string
	for _, t := range []string{"int", "bool", "string"} {
		pv = append(pv, r.vars(t, false)...)
	}
	if len(pv) > 0 {
		r.line("print(%s)", strings.Join(pv, ", "))
	}
	return r.sb.String()
}

func (r *Rand) funcDef() {
	f := rfunc{name: r.name("fn")}
	r.push()
	r.infn = &f
	r.used = map[string]bool{}
	var ps []string
	for i, n := 0, r.R.Intn(4); i < n; i++ {
		t := r.pick(r.types())
		p := r.name("p")
		r.decl(p, t)
		f.params = append(f.params, t)
		ps = append(ps, p+" "+t)
	}
	for i, n := 0, r.R.Intn(3); i < n; i++ {
		f.rets = append(f.rets, r.pick(r.types()))
	}
	ret := ""
	switch len(f.rets) {
	case 0:
	case 1:
		ret = " " + f.rets[0]
	default:
		ret = " (" + strings.Join(f.rets, ", ") + ")"
	}
	r.line("func %s(%s)%s {", f.name, strings.Join(ps, ", "), ret)
	r.ind++
	lo := r.loops
	r.loops = 0
	b := r.budg
	r.budg = 5
	for i, n := 0, 1+r.R.Intn(3); i < n; i++ {
		r.stmt(0)
	}
	if len(f.rets) > 0 {
		r.line("return %s", r.values(f.rets))
	} else if len(ps) == 0 {
		r.line("print(\"%s\")", f.name)
	}
	r.budg = b
	r.loops = lo
	r.infn = nil
	r.ind--
	r.pop()
	r.line("}")
	r.funcs = append(r.funcs, f)
}

func (r *Rand) values(ts []string) string {
	var v []string
	for _, t := range ts {
		v = append(v, r.expr(t, 2))
	}
	return strings.Join(v, ", ")
}

func (r *Rand) def(t string) string {
	if t == "" {
		t = r.pick(r.types())
	}
	n := r.name("v")
	switch r.R.Intn(5) {
	case 0:
		if t != "[]int" && t != "[]string" {
			r.line("var %s %s", n, t)
			break
		}
		fallthrough
	case 1:
		r.line("var %s %s = %s", n, t, r.expr(t, 2))
	default:
		r.line("%s := %s", n, r.expr(t, 2))
	}
	r.decl(n, t)
	return n
}

func (r *Rand) block(depth int) {
	r.ind++
	r.push()
	for i, n := 0, 1+r.R.Intn(3); i < n; i++ {
		r.stmt(depth + 1)
	}
	r.pop()
	r.ind--
}

func (r *Rand) stmt(depth int) {
	r.budg--
	k := r.R.Intn(20)
	if depth >= 3 || r.budg < 0 {
		k = r.R.Intn(8)
	}
	switch {
	case k < 2:
		var v []string
		for i, n := 0, 1+r.R.Intn(3); i < n; i++ {
			v = append(v, r.expr(r.pick([]string{"int", "bool", "string"}), 2))
		}
		r.line("print(%s)", strings.Join(v, ", "))
	case k < 3:
		r.def("")
	case k < 6:
		t := r.pick(r.types())
		vs := r.vars(t, true)
		if len(vs) == 0 {
			r.def(t)
			return
		}
		v := r.pick(vs)
		switch {
		case t == "int" && r.R.Intn(2) == 0:
			switch r.R.Intn(3) {
			case 0:
				r.line("%s%s", v, r.pick([]string{"++", "--"}))
			case 1:
				r.line("%s %s= %s", v, r.pick([]string{"+", "-", "*"}), r.expr("int", 2))
			default:
				r.line("%s %s= %s", v, r.pick([]string{"/", "%"}), r.pick([]string{"3", "7", "-2"}))
			}
		case t == "string" && r.R.Intn(3) == 0:
			r.line("%s += %s", v, r.expr("string", 1))
		case strings.HasPrefix(t, "[]") && r.R.Intn(3) > 0:
			r.line("%s[%s] = %s", v, r.pick([]string{"0", "1", "len(" + v + ")", "2"}), r.expr(t[2:], 1))
		case len(vs) > 1 && r.R.Intn(3) == 0:
			w := r.pick(vs)
			if w != v {
				r.line("%s, %s = %s, %s", v, w, r.expr(t, 1), r.expr(t, 1))
				break
			}
			fallthrough
		default:
			r.line("%s = %s", v, r.expr(t, 2))
		}
	case k < 8:
		if r.loops > 0 && r.R.Intn(2) == 0 {
			r.line("if %s {", r.expr("bool", 1))
			r.line("\t%s", r.pick([]string{"break", "continue"}))
			r.line("}")
			return
		}
		if len(r.funcs) > 0 {
			f := r.funcs[r.R.Intn(len(r.funcs))]
			switch {
			case len(f.rets) < 1:
				r.line("%s(%s)", f.name, r.values(f.params))
			case len(f.rets) > 1:
				var ns []string
				for range f.rets {
					ns = append(ns, r.name("m"))
				}
				r.line("%s := %s(%s)", strings.Join(ns, ", "), f.name, r.values(f.params))
				for i, n := range ns {
					r.decl(n, f.rets[i])
				}
			default:
				n := r.name("m")
				r.line("%s := %s(%s)", n, f.name, r.values(f.params))
				r.decl(n, f.rets[0])
			}
			return
		}
		r.line("print(%s)", r.expr("int", 2))
	case k < 13:
		r.line("if %s {", r.expr("bool", 2))
		r.block(depth)
		for i, n := 0, r.R.Intn(3); i < n; i++ {
			r.line("} else if %s {", r.expr("bool", 2))
			r.block(depth)
		}
		if r.R.Intn(2) == 0 {
			r.line("} else {")
			r.block(depth)
		}
		r.line("}")
	case k < 15:
		t := r.pick([]string{"int", "string", "bool", ""})
		if t == "" {
			r.line("switch {")
			t = "bool"
		} else {
			r.nofn = true // the number of evaluations of the tag is unspecified
			tag := r.expr(t, 1)
			for r.Feat["effects"] && strings.Contains(tag, "gg") {
				tag = r.expr(t, 1)
			}
			r.line("switch %s {", tag)
			r.nofn = false
		}
		lo := r.loops
		for i, n := 0, 1+r.R.Intn(3); i < n; i++ {
			r.line("case %s:", r.expr(t, 1))
			r.loops = 0 // break inside a switch is exercised separately
			r.block(depth)
		}
		if r.R.Intn(2) == 0 {
			r.line("default:")
			r.block(depth)
		}
		r.loops = lo
		r.line("}")
	case k < 18:
		i := r.name("i")
		hi := r.pick([]string{"2", "3", r.small()})
		switch r.R.Intn(3) {
		case 0:
			r.line("for %s := 0; %s < %s; %s++ {", i, i, hi, i)
			r.loop(i, depth)
		case 1:
			r.line("%s := 0", i)
			r.decl(i, "int")
			r.ro[i] = true
			r.line("for %s < %s {", i, hi)
			r.line("\t%s++", i)
			r.loop("", depth)
		default:
			r.line("%s := 0", i)
			r.decl(i, "int")
			r.ro[i] = true
			r.line("for {")
			r.line("\t%s++", i)
			r.line("\tif %s > %s {", i, hi)
			r.line("\t\tbreak")
			r.line("\t}")
			r.loop("", depth)
		}
	default:
		i, c := r.name("i"), r.name("c")
		if r.Feat["slices"] && r.R.Intn(2) == 0 {
			r.nofn = true
			r.line("for %s, %s := range []int{%s, %s} {", i, c, r.expr("int", 1), r.expr("int", 1))
			r.nofn = false
			r.push()
			r.decl(c, "int")
		} else {
			r.line("for %s, %s := range %q {", i, c, r.pick([]string{"ab", "xyz", ""}))
			r.push()
			r.decl(c, "string")
		}
		r.ro[c] = true
		r.loop(i, depth)
		r.pop()
	}
}

func (r *Rand) loop(i string, depth int) {
	r.push()
	if i != "" {
		r.decl(i, "int")
		r.ro[i] = true
	}
	r.loops++
	r.block(depth)
	r.loops--
	r.pop()
	r.line("}")
}

func (r *Rand) small() string {
	r.hole++
	return fmt.Sprintf("8200%03d", r.hole%4+1)
}

func (r *Rand) lit(t string) string {
	switch t {
	case "int":
		switch r.R.Intn(5) {
		case 0:
			r.hole++
			return fmt.Sprintf("8100%03d", r.hole%4+1)
		case 1:
			return r.small()
		case 2:
			return fmt.Sprint(-r.R.Intn(9) - 1)
		default:
			return fmt.Sprint(r.R.Intn(9))
		}
	case "bool":
		return r.pick([]string{"true", "false", "8300001 == 1"})
	case "string":
		return fmt.Sprintf("%q", r.pick([]string{"", "a", "b c", "xyz", "k"}))
	case "[]int":
		return r.pick([]string{"[]int{}", "[]int{1, 8100001}", "[]int{4, 5, 6}"})
	}
	return r.pick([]string{"[]string{}", "[]string{\"q\"}", "[]string{\"a b\", \"\", \"c\"}"})
}

func (r *Rand) expr(t string, d int) string {
	k := r.R.Intn(10)
	if d <= 0 && k > 5 {
		k = r.R.Intn(6)
	}
	if k < 4 {
		if vs := r.vars(t, false); len(vs) > 0 {
			return r.pick(vs)
		}
		return r.lit(t)
	}
	if k < 6 {
		return r.lit(t)
	}
	if len(r.funcs) > 0 && !r.nofn && (r.R.Intn(4) == 0 || r.Feat["effects"] && r.R.Intn(3) > 0) {
		var c []rfunc
		for _, f := range r.funcs {
			if len(f.rets) == 1 && f.rets[0] == t {
				c = append(c, f)
			}
		}
		if len(c) > 0 {
			f := c[r.R.Intn(len(c))]
			var v []string
			for _, p := range f.params {
				v = append(v, r.expr(p, d-1))
			}
			return f.name + "(" + strings.Join(v, ", ") + ")"
		}
	}
	switch t {
	case "int":
		switch r.R.Intn(7) {
		case 0:
			return fmt.Sprintf("(%s %s %s)", r.expr("int", d-1), r.pick([]string{"+", "-", "*"}), r.expr("int", d-1))
		case 1:
			return fmt.Sprintf("%s %s %s", r.expr("int", d-1), r.pick([]string{"/", "%"}), r.pick([]string{"2", "3", "10", "-3"}))
		case 2:
			if r.Feat["slices"] || r.Feat["strings"] {
				return "len(" + r.expr(r.pick([]string{"string", "[]int"}), 0) + ")"
			}
			fallthrough
		case 3:
			if vs := r.vars("[]int", false); len(vs) > 0 && r.Feat["slices"] {
				return r.pick(vs) + "[0]"
			}
			fallthrough
		default:
			return fmt.Sprintf("%s %s %s", r.expr("int", d-1), r.pick([]string{"+", "-", "*"}), r.expr("int", d-1))
		}
	case "bool":
		switch r.R.Intn(6) {
		case 0:
			return fmt.Sprintf("!(%s)", r.expr("bool", d-1))
		case 1:
			return fmt.Sprintf("(%s %s %s)", r.expr("bool", d-1), r.pick([]string{"&&", "||"}), r.expr("bool", d-1))
		case 2:
			return fmt.Sprintf("%s %s %s", r.atom("string"), r.pick([]string{"==", "!="}), r.atom("string"))
		case 3:
			return fmt.Sprintf("%s %s %s", r.expr("bool", d-1), r.pick([]string{"&&", "||"}), r.expr("bool", d-1))
		default:
			return fmt.Sprintf("%s %s %s", r.expr("int", d-1), r.pick(CmpOps), r.expr("int", d-1))
		}
	case "string":
		switch r.R.Intn(4) {
		case 0:
			return "itoa(" + r.expr("int", d-1) + ")"
		default:
			return fmt.Sprintf("%s + %s", r.atom("string"), r.atom("string"))
		}
	}
	return r.lit(t)
}

func (r *Rand) atom(t string) string {
	if vs := r.vars(t, false); len(vs) > 0 && r.R.Intn(2) == 0 {
		return r.pick(vs)
	}
	return r.lit(t)
}
