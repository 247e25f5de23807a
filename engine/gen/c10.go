package gen

import (
	"fmt"
	"math/rand"
	"regexp"
	"sort"
	"strings"
)

// Rename is a program whose identifiers starting with q or Q are renamed.
type Rename struct {
	ID, Src string
	Files   map[string]string
	Stdin   string
	Pre     map[string]string
	Apps    bool
	Names   []string
}

// RenameJob gives the new names of some identifiers: symbolic (lengths Min..Max) or words.
type RenameJob struct {
	ID    string
	Names map[string]NameSpec
	Words bool // the words found in the emitted script are added
}

// NameSpec describes the new names of one identifier.
type NameSpec struct {
	Min, Max int
	Upper    bool
	Vals     []string
}

var qRe = regexp.MustCompile(`\b[qQ][a-z0-9]+\b`)

func renamePrograms() []Rename {
	var out []Rename
	add := func(id, src string) *Rename {
		out = append(out, Rename{ID: id, Src: src})
		return &out[len(out)-1]
	}
	add("scalar", "qa := 8100001\nvar qb int\nqc, qd := true, \"s\"\nqb = 11 % 7\nqb += 3 * (12 % 5) - 1\nqz := qa + qb\nqc = qb > 3 && !qc || qb == 5\nif qc {\n\tqe := qb + 1\n\tprint(\"if\", qe)\n} else if qb == 2 {\n\tprint(\"two\")\n} else {\n\tqb--\n}\nqa, qb = qb, qa\nfor qi := 0; qi < 3; qi++ {\n\tif qi == 1 {\n\t\tcontinue\n\t}\n\tqd += itoa(qi)\n\tqd = qd + \"-\"\n}\nprint(qa, qb, qc, qd, qb < 3, 0 - qb, qz)\n")
	add("func", "qg := 8\nfunc qf(qp int, qs string) (int, string) {\n\tql := qp + qg % 3\n\tqg++\n\tif ql > 4 {\n\t\tqs = qs + \"!\"\n\t\treturn ql, qs\n\t}\n\treturn ql * 2, qs + itoa(qg % 3)\n}\nfunc qh(qp int) int {\n\tql, qm := qf(qp, \"h\")\n\tprint(\"h\", ql, qm)\n\treturn ql + 1\n}\nql := 7\nqp := 8\nqx, qy := qf(qp, \"m\")\nprint(ql, qp, qx, qy, qg, qh(qh(1) + qx % 3), qg)\n")
	add("chain", "func qf(qn int, qa int) int {\n\tqt := qn * 2\n\tif qn <= 1 {\n\t\treturn qa\n\t}\n\tqr := qa + qt\n\treturn qr\n}\nfunc qg(qa int) int {\n\tqr := qf(qa, qa + 1)\n\tqt2 := qf(qr, 1)\n\treturn qr * 10 + qt2\n}\nqt := 8100001\nqn := 3\nprint(qf(qn, qt), qg(4), qt, qn)\n")
	add("slice", "qs := []int{8100001, 2, 3}\nvar qt []string\nqs[4] = 9\nqt[0] = \"a\"\nqt[1] = \"b\"\nfor qi, qv := range qs {\n\tprint(qi, qv)\n\tqs[qi] = qv + qi\n}\nfunc qf(qp []int, qk int) []int {\n\tqp[qk] = len(qp)\n\tql := []int{}\n\tql[1] = qp[qk]\n\treturn ql\n}\nqr := qf(qs, 6)\nqc := []string{}\nqn := copy(qc, qt)\nqc[1] = \"c\"\nprint(len(qs), qs[0], qs[4], qs[6], len(qr), qr[1], qn, qc[0], qc[1], qt[1])\nfor qi := 0; qi < len(qt); qi++ {\n\tprint(qt[qi])\n}\n")
	add("string", "qs := \"hello world\"\nqn := 2\nqc := qs[2]\nqu := qs[1:5] + qs[qn:] + qs[:3]\nfor qi, qv := range qu {\n\tif qi > 8 {\n\t\tbreak\n\t}\n\tprint(qi, qv)\n}\nfunc qf(qt string) string {\n\tqw := \"\"\n\tfor qi := len(qt) - 1; qi >= 0; qi-- {\n\t\tqw += qt[qi]\n\t}\n\treturn qw\n}\nprint(qf(qs), qc, len(qu), qu == qs, qs != qc, itoa(len(qs)) + qc)\n")
	add("switch", "qa := 2\nfor qi := 0; qi < 4; qi++ {\n\tfor qj := 0; qj < 3; qj++ {\n\t\tif qj == 2 {\n\t\t\tbreak\n\t\t}\n\t\tif qi == qj {\n\t\t\tcontinue\n\t\t}\n\t\tswitch qi + qj {\n\t\tcase qa:\n\t\t\tprint(\"a\", qi, qj)\n\t\tcase 2:\n\t\t\tqb := qi * 10\n\t\t\tprint(\"two\", qb)\n\t\tdefault:\n\t\t\tprint(\"d\", qi)\n\t\t}\n\t}\n}\nswitch {\ncase qa > 1:\n\tprint(\"big\")\n}\n")
	p := add("files", "qn := \"f.txt\"\nqe := exists(qn)\nwrite(qn, \"line 81\")\nwrite(qn, \"more\", true)\nqd := read(qn)\nqi := input(\"prompt \")\nfunc qf(qp string) bool {\n\tqr := read(qp)\n\tif exists(qp + \"x\") {\n\t\treturn true\n\t}\n\treturn qr == \"pre\"\n}\nprint(qe, qd, qi, exists(qn), qf(\"pre.txt\"))\n")
	p.Stdin, p.Pre = "one line\n", map[string]string{"pre.txt": "pre"}
	p = add("command", "qa := \"x y\"\nqo, qe, qc := @argv(qa, \"$HOME\")\nprint(qo, qe, qc)\n@say(qa)\nfunc qf(qp string) string {\n\tqr, qs, qt := @say(qp) | @wrap()\n\tprint(qs, qt)\n\treturn qr\n}\nprint(qf(qa))\nqo, qe, qc = @fail(\"3\")\nprint(qo, qe, qc)\n")
	p.Apps = true
	add("panic", "qa := 2\nfunc qf(qp int) int {\n\tqm := \"bad \" + itoa(qp)\n\tif qp == 2 {\n\t\tpanic(qm)\n\t}\n\treturn qp\n}\nfor qi := 0; qi < 4; qi++ {\n\tprint(qf(qi))\n\tif qi == qa {\n\t\tpanic(\"stop\")\n\t}\n}\n")
	add("shadow", "qa := 71\nfunc qf() int {\n\tqb := 1\n\tfor qi := 0; qi < 2; qi++ {\n\t\tqc := qi\n\t\tqb += qc\n\t}\n\treturn qb\n}\nfunc qg() int {\n\tqb := 2\n\tfor qi := 0; qi < 2; qi++ {\n\t\tqc := qf() + qi\n\t\tqb += qc\n\t}\n\treturn qb + qa % 2\n}\nfor qi := 0; qi < 2; qi++ {\n\tqc := qg()\n\tprint(qi, qc)\n}\nqb := 5\nqi := 6\nqc := 7\nprint(qf(), qg(), qa, qb, qc, qi)\n")
	add("manyfuncs", "func qf() int {\n\treturn 1\n}\nfunc qg() int {\n\treturn qf() + 1\n}\nfunc qh(qa int, qb int, qc int) int {\n\treturn qa * 100 + qb * 10 + qc\n}\nfunc qi(qa string, qb []string) string {\n\tqb[len(qb)] = qa\n\treturn qa + qb[0]\n}\nfunc qj() {\n\tprint(\"j\")\n}\nqz := []string{\"z\"}\nqj()\nprint(qh(qf(), qg(), 2), qi(\"q\", qz), len(qz), qf() + qg() * qh(1, qf(), qg()))\nqj()\n")
	add("slicefn", "func qmk(qn int) []string {\n\tqr := []string{}\n\tfor qi := 0; qi < qn; qi++ {\n\t\tqr[qi] = \"e\" + itoa(qi)\n\t}\n\treturn qr\n}\nfunc qjoin(qs []string, qsep string) string {\n\tqr := \"\"\n\tfor qi, qv := range qs {\n\t\tif qi > 0 {\n\t\t\tqr += qsep\n\t\t}\n\t\tqr += qv\n\t}\n\treturn qr\n}\nqa := qmk(2)\nqb := qmk(3)\nqb[1] = \"x\"\nqa[len(qa)] = \"last\"\nprint(qjoin(qa, \",\"), qjoin(qb, \"-\"), len(qa), len(qb))\n")
	p = add("import", "import (\n\tqm \"m.tsh\"\n\tqk \"k.tsh\"\n)\nqa := 7\nfunc qf(qp int) int {\n\tql := qm.Qf(qp) + qa % 3\n\treturn ql\n}\nprint(qf(1), qm.Qf(2), qk.Qg(qa), qa)\n")
	p.Files = map[string]string{"m.tsh": "qa := 5\nfunc qf(qp int) int {\n\tql := qp + qa\n\tqa++\n\treturn ql\n}\nfunc Qf(qp int) int {\n\treturn qf(qp) * 2\n}\n", "k.tsh": "import qm \"m.tsh\"\n\nqb := []int{1, 2}\nfunc Qg(qp int) int {\n\tqb[len(qb)] = qp\n\treturn len(qb) + qm.Qf(1)\n}\n"}
	add("std", "import qs \"strings\"\n\nqa := \"abc,def\"\nqn := qs.Index(qa, \",\")\nqi := qs.Count(qa, \"d\")\nfunc qf(qsub string) string {\n\tqr := qs.Replace(qa, qsub, \"X\", -1)\n\treturn qr\n}\nqr, qt, qok := qs.Cut(qa, \",\")\nprint(qn, qi, qf(\"b\"), qr, qt, qok, qs.Contains(qa, \"zz\"), qs.HasPrefix(qa, \"ab\"), qs.Repeat(\"ab\", 2))\n")
	for i := range out {
		seen := map[string]bool{}
		all := out[i].Src
		for _, n := range sortedKeys(out[i].Files) {
			all += out[i].Files[n]
		}
		for _, n := range qRe.FindAllString(all, -1) {
			if !seen[n] {
				seen[n] = true
				out[i].Names = append(out[i].Names, n)
			}
		}
		sort.Strings(out[i].Names)
	}
	return out
}

var reservedWords = strings.Fields("_h0 _h1 _h2 _h10 _rv0 _rv1 _rv2 _fa0 _fa1 _fa2 _fv0 _fv1 _dv0 _dv1 _dvc _dvi _dvl _ret _i _j _l _n _s _c _t _v _len _val _idx _tmp _ch _cmd _ec _e _o f0_x f1_x f2_qa f1_qa f1_qp f1_ql f2_qb qa_0 qa_1 qs_0 qs_1 qs_len qt_0 qt_len qs_4 qa_len _sah _sch _sls _slg _slc _stsh _stlh _ech _rf _fw _wf _fr _inp _pc _ex LF _lf EOF " +
	"_f0 _f1 _e0 _e1 _i0 _i1 _ret_f _eo_f _eof v_qa f_qf v_a f_a v_ f_ v__h0 V_QA _0 _1 _2 __ ___ _a _qa qa_ qa__ _qa_ QA Qa qA QF qF Qf QS qS A a_b aB a_B _b a__b a0 x X I i s S n N " +
	"echo eval read local printf declare set unset export shift test exit source alias let trap time type wait kill jobs cd pwd true_ false_ if_ then fi do done while until esac elif case_ select in_ function coproc exec command builtin help history hash times umask ulimit shopt " +
	"PATH IFS HOME PWD OLDPWD SHELL USER UID EUID PPID RANDOM SECONDS LINENO REPLY BASH BASHPID BASH_VERSION FUNCNAME GROUPS DIRSTACK HOSTNAME OPTARG OPTIND PS1 PS4 TERM LANG LC_ALL PIPESTATUS BASH_REMATCH MAPFILE SHLVL HISTCMD COLUMNS LINES TMOUT _ENV ERRORLEVEL errorlevel CD DATE TIME PATHEXT COMSPEC CMDCMDLINE TEMP OS nul NUL con CON setlocal endlocal goto call rem REM pause cls copy_ del dir exist not defined equ neq geq leq gtr lss EQU off on for_ in FOR start title type_ " +
	"ls cat grep sed awk head tail tr wc argv say wrap fail sh bash main init string_ strings os Index Contains sub sep old Replace len_ append println fmt iota nil_ byte rune float map struct")

// C10 enumerates renamings.
func C10(thorough bool, seed int64) (ps []Rename, jobs [][]RenameJob) {
	ps = renamePrograms()
	r := rand.New(rand.NewSource(seed * 1009))
	rel := []string{"a", "A", "_a", "a_", "a_0", "a_1", "a_len", "a0", "v_a", "f_a", "f1_a", "_a_0", "a__0", "aA", "Aa", "_A", "_h0", "_H0"}
	full := rel
	for _, p := range ps {
		var js []RenameJob
		if rel = full; !thorough {
			r.Shuffle(len(full), func(i, j int) { full[i], full[j] = full[j], full[i] })
			rel = full[:10]
		}
		up := func(n string) bool { return n[0] == 'Q' }
		public := func(l []string, n string) []string {
			if !up(n) {
				return l
			}
			var o []string
			for _, w := range l {
				if w[0] >= 'A' && w[0] <= 'Z' {
					o = append(o, w)
				}
			}
			if len(o) < 3 {
				o = append(o, "U", "Ux", "U_0")
			}
			return o
		}
		for i, n := range p.Names {
			words := reservedWords
			if !thorough {
				words = nil
				for k, w := range reservedWords {
					if k%4 == (i+len(js))%4 || len(w) > 4 && k%2 == i%2 {
						words = append(words, w)
					}
				}
			}
			mx := 3
			if thorough {
				mx = 4
			}
			js = append(js, RenameJob{ID: "sym-" + n, Names: map[string]NameSpec{n: {Min: 1, Max: mx, Upper: up(n)}}})
			js = append(js, RenameJob{ID: "word-" + n, Words: true, Names: map[string]NameSpec{n: {Vals: public(words, n)}}})
		}
		var pairs [][2]string
		for i, a := range p.Names {
			for _, b := range p.Names[i+1:] {
				pairs = append(pairs, [2]string{a, b})
			}
		}
		r.Shuffle(len(pairs), func(i, j int) { pairs[i], pairs[j] = pairs[j], pairs[i] })
		for k, pr := range pairs {
			if !thorough && k >= 4 {
				break
			}
			js = append(js, RenameJob{ID: fmt.Sprintf("rel-%s-%s", pr[0], pr[1]), Names: map[string]NameSpec{pr[0]: {Vals: public(rel, pr[0])}, pr[1]: {Vals: public(rel, pr[1])}}})
			if k < 2 || thorough {
				m := 1
				if thorough {
					m = 2
				}
				js = append(js, RenameJob{ID: fmt.Sprintf("sym2-%s-%s", pr[0], pr[1]), Names: map[string]NameSpec{pr[0]: {Min: 1, Max: 2, Upper: up(pr[0])}, pr[1]: {Min: 1, Max: m, Upper: up(pr[1])}}})
			}
		}
		// all names at once
		rounds := 6
		if thorough {
			rounds = 60
		}
		for k := 0; k < rounds; k++ {
			m := map[string]NameSpec{}
			perm := r.Perm(len(reservedWords))
			for i, n := range p.Names {
				w := reservedWords[perm[i]]
				if up(n) {
					w = "U" + w
				}
				m[n] = NameSpec{Vals: []string{w}}
			}
			js = append(js, RenameJob{ID: fmt.Sprintf("all-%02d", k), Names: m})
		}
		jobs = append(jobs, js)
	}
	return
}
