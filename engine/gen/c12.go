package gen

import (
	"fmt"
	"strings"

	"verif/ts"
)

// Relayout is one program with token-preserving layouts of its main file (templates, see Tmpl).
type Relayout struct {
	Prog
	Variants []Tmpl
}

// rep gives a representative of a symbolic byte.
func rep(k byte) string {
	switch k {
	case 'w':
		return "\n"
	case 'x', 'y':
		return "c"
	}
	return " "
}

func instantiate(t string) string {
	var sb strings.Builder
	for i := 0; i < len(t); i++ {
		if t[i] == 1 {
			i++
			sb.WriteString(rep(t[i]))
			continue
		}
		sb.WriteByte(t[i])
	}
	return sb.String()
}

// sameTokens compares token lists up to repeated, leading and trailing line breaks.
func sameTokens(a, b string) bool {
	norm := func(s string) (string, bool) {
		toks, err := ts.Tokenize(s)
		if err != nil {
			return "", false
		}
		var sb strings.Builder
		nl := true
		for _, t := range toks {
			if t.Kind == ts.KEOF {
				break
			}
			if t.Kind == ts.KNewline {
				if !nl {
					sb.WriteString("\n")
				}
				nl = true
				continue
			}
			nl = false
			fmt.Fprintf(&sb, "%s %q|", t.Kind, t.Text)
		}
		return strings.TrimRight(sb.String(), "\n"), true
	}
	x, ok1 := norm(a)
	y, ok2 := norm(b)
	return ok1 && ok2 && x == y
}

// layouts lists re-layouts of src.
func layouts(src string, thorough bool, salt int) []Tmpl {
	toks, err := ts.Tokenize(src)
	if err != nil {
		return nil
	}
	var out []Tmpl
	n := len(toks) - 1 // without EOF
	text := make([]string, n)
	gap := make([]string, n+1) // gap[i] precedes token i
	last := 0
	for i := 0; i < n; i++ {
		// Tokens record their start and the position the scanner had reached when they were emitted.
		gap[i] = src[last:toks[i].Pos]
		text[i] = src[toks[i].Pos:toks[i].End]
		last = toks[i].End
	}
	gap[n] = src[last:]
	build := func(g func(i int, old string) string, brk func(i int) string) string {
		var sb strings.Builder
		for i := 0; i < n; i++ {
			sb.WriteString(g(i, gap[i]))
			if toks[i].Kind == ts.KNewline {
				sb.WriteString(brk(i))
			} else {
				sb.WriteString(text[i])
			}
		}
		sb.WriteString(gap[n])
		return sb.String()
	}
	keepG := func(i int, old string) string { return old }
	keepB := func(i int) string { return "\n" }
	seen := map[string]bool{src: true}
	add := func(id, t string) {
		if seen[t] || !sameTokens(src, instantiate(t)) {
			return
		}
		seen[t] = true
		out = append(out, Tmpl{id, "layout", t})
	}
	edge := func(i int) bool { // the gap touches a line break or an end of the file
		return i == 0 || i == n || toks[i].Kind == ts.KNewline || toks[i-1].Kind == ts.KNewline
	}
	// minimal gaps: drop every blank that can be dropped
	min := make([]string, n+1)
	for i := range min {
		min[i] = gap[i]
		if min[i] != "" {
			min[i] = ""
			if !sameTokens(src, build(func(k int, old string) string {
				if k <= i {
					return min[k]
				}
				return old
			}, keepB)) {
				min[i] = gap[i]
			}
		}
	}
	add("min", build(func(i int, _ string) string { return min[i] }, keepB))
	add("max", build(func(i int, _ string) string {
		if i == 0 {
			return "  "
		}
		return "  \t "
	}, keepB))
	add("crlf", strings.ReplaceAll(src, "\n", "\r\n"))
	add("crlfmin", strings.ReplaceAll(build(func(i int, _ string) string { return min[i] }, keepB), "\n", "\r\n"))
	add("nofinal", strings.TrimRight(src, "\n"))
	add("nofinalblank", strings.TrimRight(src, "\n")+"  ")
	add("nofinalcom", strings.TrimRight(src, "\n")+" // end")
	add("nofinalcom2", strings.TrimRight(src, "\n")+"/* end */")
	add("final3", src+"\n\n")
	add("finalws", src+"\t ")
	add("finalcom", src+"// end")
	add("lead", "\n\n"+src)
	add("leadcom", "// lead\n"+src)
	add("leadcom2", "/* lead\n lines */\n\n"+src)
	add("blank", build(keepG, func(int) string { return "\n\n" }))
	add("blankws", build(keepG, func(int) string { return " \n \t\n" }))
	add("comline", build(keepG, func(int) string { return "\n// c { ( \"\n" }))
	add("comline2", build(keepG, func(int) string { return "\n\t/* c\n } */\n" }))
	add("eolcom", build(keepG, func(int) string { return " // x := 1 {\n" }))
	add("eolcomtight", build(keepG, func(int) string { return "//\n" }))
	add("eolblock", build(keepG, func(int) string { return "/**/\n" }))
	add("com", build(func(i int, old string) string { return old + "/*c*/" }, keepB))
	add("com2", build(func(i int, old string) string {
		if edge(i) {
			return old
		}
		return " /* a * / // */\t"
	}, keepB))
	add("noindent", build(func(i int, old string) string {
		if i > 0 && toks[i-1].Kind == ts.KNewline {
			return ""
		}
		return old
	}, keepB))
	add("trail", build(keepG, func(int) string { return "\t  \n" }))
	// symbolic gaps, one at a time
	for i := 0; i <= n; i++ {
		if i > 0 && i < n && toks[i].Kind == ts.KNewline || i == n {
			continue
		}
		kinds := []string{sy("bb"), "/*" + sy("yy") + "*/", sy("b") + "/*" + sy("y") + "*/" + sy("b"), ""}
		for k, t := range kinds {
			if !thorough && (i+salt)%len(kinds) != k {
				continue
			}
			g := t
			add(fmt.Sprintf("gap%d-%d", i, k), build(func(j int, old string) string {
				if j == i {
					return g
				}
				return old
			}, keepB))
		}
	}
	nb := 0
	for i := 0; i < n; i++ {
		if toks[i].Kind != ts.KNewline {
			continue
		}
		nb++
		kinds := []string{sy("b") + "\n" + sy("ww"), "//" + sy("xx") + "\n", "\n" + sy("b") + "/*" + sy("yy") + "*/\n", "\r\n" + sy("w") + "\r\n", "\n//" + sy("x") + "\n" + sy("b"), "/*" + sy("y") + "\n" + sy("y") + "*/\n"}
		for k, t := range kinds {
			if k == len(kinds)-1 {
				t = "\n" + t
			}
			if !thorough && (nb+salt)%len(kinds) != k && k != 0 {
				continue
			}
			add(fmt.Sprintf("brk%d-%d", i, k), build(keepG, func(j int) string {
				if j == i {
					return t
				}
				return "\n"
			}))
		}
	}
	return out
}

// C12 lists programs with their re-layouts.
func C12(thorough bool, seed int64) []Relayout {
	var out []Relayout
	ps := append(Corpus(), Rejected()...)
	if thorough {
		for k, l := range [][]Prog{C01(false, seed), C02(false, seed), C03(false, seed), C04(false, seed)} {
			for i, p := range l {
				if (i+k)%9 == 0 && len(p.Src) < 1500 {
					ps = append(ps, p)
				}
			}
		}
	}
	for i, p := range ps {
		full := thorough && i < len(ps)/2
		out = append(out, Relayout{p, layouts(p.Src, full, i)})
	}
	return out
}
