// dump writes concrete instances of the generated programs as JSON (used for mutation tests of the checks only).
package main

import (
	"encoding/json"
	"flag"
	"math/rand"
	"os"
	"strings"

	"verif/gen"
)

type prog struct {
	ID, Main string
	Files    map[string]string
}

var kinds = map[byte]string{'T': "ibsexyz", 'F': "pqruvwghm", 'N': "abcd", '3': "bcdn", 'o': "()[]{}=!<>&|+-*/%:,;.@", 'q': "\"\\`nx'a", 'c': "/*\n x\"", 'd': "0123456789", 'h': "0123456789abcdefABCDEF",
	's': " \t\r\n", 'b': " \t", 'w': " \t\n", 'n': "\r\n", '2': "0123", 'L': "abcxyz", 'l': "abzAZ09_"}

func concrete(r *rand.Rand, s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case 1:
			i++
			k := kinds[s[i]]
			if k == "" {
				k = "aZ0 \"\\$`!%^&|()<>*?~#'-=;{}[]\t\nx"
			}
			sb.WriteByte(k[r.Intn(len(k))])
		case 2:
			e := i + strings.IndexByte(s[i:], 4)
			a := strings.Split(s[i+1:e], "\x03")
			sb.WriteString(a[r.Intn(len(a))])
			i = e
		default:
			sb.WriteByte(s[i])
		}
	}
	return sb.String()
}

func main() {
	n := flag.Int("n", 12, "instances per template")
	flag.Parse()
	r := rand.New(rand.NewSource(1))
	var out []prog
	tmpl := func(id, m string, fs map[string]string) {
		k := *n
		if !strings.ContainsAny(m, "\x01\x02") {
			k = 1
		}
		for i := 0; i < k; i++ {
			g := map[string]string{}
			for f, s := range fs {
				g[f] = concrete(r, s)
			}
			out = append(out, prog{id, concrete(r, m), g})
		}
	}
	for _, g := range []func(bool, int64) []gen.Prog{gen.C01, gen.C02, gen.C03, gen.C04, gen.C05, gen.C08, gen.C09, gen.C17, gen.C18, func(bool, int64) []gen.Prog { return gen.Corpus() }} {
		for _, p := range g(false, 1) {
			tmpl(p.ID, p.Src, p.Files)
		}
	}
	for _, g := range [][]gen.Accept{gen.C06(false, 1), gen.C07(false, 1), gen.C09Accept(false, 1)} {
		for _, a := range g {
			tmpl(a.ID, a.Main, a.Files)
		}
	}
	for _, f := range gen.C16(false, 1) {
		k := *n
		*n = 3
		tmpl(f.ID, f.Main, f.Files)
		*n = k
	}
	for _, t := range gen.C11(false, 1) {
		tmpl(t.ID, t.Text, nil)
	}
	json.NewEncoder(os.Stdout).Encode(out)
}
