package gen

import "fmt"

// Lib is a program that calls one function of the bundled library.
type Lib struct {
	Prog
	Fn   string
	Keys []string // arguments: keys of symbolic strings or literal values
	Hole string   // integer argument
	Add  int64
}

// C15 enumerates calls of the library functions.
func C15(thorough bool, seed int64) []Lib {
	var out []Lib
	sig := map[string]string{
		"Index": "ss i", "Contains": "ss b", "HasPrefix": "ss b", "HasSuffix": "ss b", "Count": "ss i", "Split": "ss l", "Join": "ls s", "Repeat": "sn s", "Replace": "sssn s", "ReplaceAll": "sss s",
		"Cut": "ss ssb", "CutPrefix": "ss sb", "CutSuffix": "ss sb", "TrimPrefix": "ss s", "TrimSuffix": "ss s", "TrimLeft": "ss s", "TrimRight": "ss s", "Trim": "ss s", "TrimSpace": "s s",
	}
	show := func(ret string) (string, string) {
		switch ret {
		case "i", "b":
			return "r", "print(r)\n"
		case "l":
			return "r", "print(len(r))\nfor i, x := range r {\n\tprint(\"[\" + x + \"]\")\n}\n"
		case "s":
			return "r", "print(\"[\" + r + \"]\")\n"
		case "sb":
			return "r, ok", "print(\"[\" + r + \"]\")\nprint(ok)\n"
		}
		return "r, r2, ok", "print(\"[\" + r + \"]\")\nprint(\"[\" + r2 + \"]\")\nprint(ok)\n"
	}
	type lens map[string][2]int
	class := "plain"
	add := func(fn, id string, args string, l lens, keys []string, hole string, plus int64, form int) {
		var a string
		for i := 0; i < len(fn); i++ {
			if fn[i] == ' ' {
				_, a = fn[:i], fn[i+1:]
				fn = fn[:i]
				break
			}
		}
		ret := a
		names, pr := show(ret)
		call := "strings." + fn + "(" + args + ")"
		src := "import \"strings\"\n"
		switch form {
		case 0:
			src += names + " := " + call + "\n" + pr
		case 1: // through variables, inside a function
			src += "func run(a string, b string, c string, n int) {\n\tl := []string{}\n\tl[0] = a\n\t" + names + " := strings." + fn + "(a"
			switch sig[fn][:2] {
			case "s ":
				src += ")"
			case "sn":
				src += ", n)"
			default:
				switch args {
				default:
					src += ", b"
					if len(keys) == 3 {
						src += ", c"
					}
					if hole != "" || plus != 0 {
						src += ", n"
					}
					src += ")"
				}
			}
			n := "0"
			if hole != "" {
				n = hole
			}
			if plus != 0 {
				n += fmt.Sprintf(" + %d", plus)
			}
			src += "\n" + indent(pr) + "}\n"
			av := []string{"\"SSA\"", "\"SSB\"", "\"SSC\""}
			src += "run(" + av[0] + ", " + av[1] + ", " + av[2] + ", " + n + ")\n"
		}
		p := Lib{Fn: fn, Keys: keys, Hole: hole, Add: plus}
		p.ID, p.Fam, p.Src = fn+"/"+id, fn, src
		p.Strs = map[string][3]string{}
		for k, v := range l {
			p.Strs[k] = [3]string{fmt.Sprint(v[0]), fmt.Sprint(v[1]), class}
		}
		if form == 1 {
			for _, k := range []string{"SSB", "SSC"} {
				if _, ok := l[k]; !ok {
					p.Strs[k] = [3]string{"0", "0", class}
				}
			}
		}
		out = append(out, p)
	}
	big := 0
	if thorough {
		big = 1
	}
	for _, fn := range sortedKeys(sig) {
		s := sig[fn]
		var ret string
		for i := range s {
			if s[i] == ' ' {
				ret = s[i+1:]
				s = s[:i]
				break
			}
		}
		key := fn + " " + ret
		switch s {
		case "ss":
			hi := [2]int{5 + 2*big, 3 + big}
			switch fn {
			case "TrimLeft", "TrimRight":
				hi = [2]int{4 + big, 2 + big}
			case "Trim":
				hi = [2]int{3 + big, 2 + big}
			case "Split", "Count":
				hi = [2]int{5 + big, 3}
			}
			for n := 0; n <= hi[0]; n++ {
				for m := 0; m <= hi[1]; m++ {
					add(key, fmt.Sprintf("%d-%d", n, m), "\"SSA\", \"SSB\"", lens{"SSA": {n, n}, "SSB": {m, m}}, []string{"SSA", "SSB"}, "", 0, 0)
				}
			}
			add(key, "fn", "", lens{"SSA": {0, 3}, "SSB": {0, 2}}, []string{"SSA", "SSB"}, "", 0, 1)
			class = "control"
			add(key, "esc", "\"SSA\", \"SSB\"", lens{"SSA": {0, 1 + big}, "SSB": {0, 1}}, []string{"SSA", "SSB"}, "", 0, 0)
			class = "plain"
		case "s":
			for n := 0; n <= 4+big; n++ {
				add(key, fmt.Sprintf("%d", n), "\"SSA\"", lens{"SSA": {n, n}}, []string{"SSA"}, "", 0, 0)
			}
			add(key, "fn", "", lens{"SSA": {0, 1}}, []string{"SSA"}, "", 0, 1)
		case "sn":
			add(key, "n", "\"SSA\", 8200001", lens{"SSA": {0, 2}}, []string{"SSA"}, "8200001", 0, 0)
			add(key, "n4", "\"SSA\", 8200001 + 4", lens{"SSA": {0, 1}}, []string{"SSA"}, "8200001", 4, 0)
			add(key, "fn", "", lens{"SSA": {0, 2}}, []string{"SSA"}, "8200001", 0, 1)
		case "ls":
			for n := 0; n <= 3+big; n++ {
				l := "[]string{"
				ln := lens{"SSS": {0, 2}}
				keys := []string{"SSS"}
				for i := 0; i < n; i++ {
					if i > 0 {
						l += ", "
					}
					k := "SS" + string(rune('A'+i))
					l += "\"" + k + "\""
					ln[k] = [2]int{0, 1}
					keys = append(keys, k)
				}
				add(key, fmt.Sprintf("%d", n), l+"}, \"SSS\"", ln, keys, "", 0, 0)
			}
		case "sss":
			for n := 0; n <= 4+big; n++ {
				for m := 0; m <= 2+big; m++ {
					add(key, fmt.Sprintf("%d-%d", n, m), "\"SSA\", \"SSB\", \"SSC\"", lens{"SSA": {n, n}, "SSB": {m, m}, "SSC": {0, 2}}, []string{"SSA", "SSB", "SSC"}, "", 0, 0)
				}
			}
			add(key, "fn", "", lens{"SSA": {0, 2}, "SSB": {0, 1}, "SSC": {0, 1}}, []string{"SSA", "SSB", "SSC"}, "", 0, 1)
		case "sssn":
			for n := 0; n <= 4+big; n++ {
				for m := 0; m <= 2+big; m++ {
					add(key, fmt.Sprintf("%d-%d", n, m), "\"SSA\", \"SSB\", \"SSC\", 8200001 - 2", lens{"SSA": {n, n}, "SSB": {m, m}, "SSC": {0, 1}}, []string{"SSA", "SSB", "SSC"}, "8200001", -2, 0)
					add(key, fmt.Sprintf("%d-%d+", n, m), "\"SSA\", \"SSB\", \"SSC\", 8200001 + 2", lens{"SSA": {n, n}, "SSB": {m, m}, "SSC": {1, 1}}, []string{"SSA", "SSB", "SSC"}, "8200001", 2, 0)
				}
			}
			add(key, "fn", "", lens{"SSA": {0, 2}, "SSB": {0, 1}, "SSC": {0, 1}}, []string{"SSA", "SSB", "SSC"}, "8200001", -1, 1)
		}
	}
	return out
}

func indent(s string) string {
	r := ""
	for i, c := range s {
		if i == 0 || s[i-1] == '\n' {
			r += "\t"
		}
		r += string(c)
	}
	return r
}
