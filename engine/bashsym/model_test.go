package bashsym

import (
	"os/exec"
	"strings"
	"testing"

	"verif/sym"
)

// Concrete snippets: the model must agree with the real shell on output and status.
var snippets = []string{
	`echo a "b  c" 'd'"e"; echo -n x; echo -e 'a\tb\\n'; echo -E 'a\n'; echo -ne x; echo -z; echo --; echo -`,
	`x=5; y=$((x*3-2%4)); echo $y $((5--3)) $((--3)) $((y++)) $y $((-7/2)) $((-7%2)) $((2**10)) $((1<<4)) $(( (1+2)*3 ))`,
	`x="a b  c"; echo $x "$x" '$x' \$x; for i in $x; do echo "[$i]"; done`,
	`f() { local a=$1; a=$((a+1)); echo $a; return 3; }; f 4; echo $?; a=9; f 1; echo $a`,
	`if [ 1 -eq 2 ]; then echo a; elif [ "x" == "x" ] && [ 3 -gt 2 ]; then echo b; else echo c; fi`,
	`i=0; while true; do if [ $i -ge 3 ]; then break; fi; i=$((i+1)); if [ $i -eq 2 ]; then continue; fi; echo $i; done`,
	`a=(x "y z" w); echo ${#a[@]} "${a[1]}" ${a[@]}; a[5]=q; echo ${#a[@]} ${!a[@]}; for e in "${a[@]}"; do echo "<$e>"; done`,
	`n=arr; eval "$n[2]=\"hi there\""; eval "echo \${$n[2]}"; echo "$(eval "echo \${#${n}[@]}")"`,
	`s=hello; echo ${s:1:3} ${s: -2} ${#s} ${s:1} ${s::2} ${s:0:-1}`,
	`s=path/to/file.txt; echo ${s##*/} ${s%.*} ${s#*/} ${s%%/*} ${s/t/T} ${s//t/T} ${s^^} ${s^}`,
	`printf '%s\n' a "b c" -n; printf '%s-%d|' x 5 y 7; printf '%%\t%5s|%-5s|\n' ab cd; printf '%b' 'a\nb\n'`,
	`echo "a
b"; echo $'t\tq\'x'; cat <<EOF
v=$((1+2)) "q"
EOF
cat <<'EOF'
v=$x
EOF`,
	`case abc in a*) echo 1;; *) echo 2;; esac; case "x y" in "x y"|z) echo yes;; esac; case q in [a-p]) echo lo;; [!a-p]) echo hi;; esac`,
	`x=$(echo a; echo; echo b; echo; echo); echo "[$x]"`,
	`echo hi | cat | cat; echo one two | { read -r a b; echo "$b,$a"; }`,
	`read -r l; echo "[$l]"; read l; echo "[$l]"; IFS= read -r l; echo "[$l]"; read -r a b; echo "$a|$b"; read -r z; echo $? "[$z]"`,
	`[ "(" == ")" ]; echo $?; [ ! -z ]; echo $?; [ ! -z x ]; echo $?; [ -n "" ]; echo $?; [ abc -eq 1 ] 2>/dev/null; echo $?; [ "" ]; echo $?; [ "!" == "!" ]; echo $?; [ "-n" == "x" ]; echo $?`,
	`[[ abc == a* ]]; echo $?; [[ "a*" == "a*" && 3 -lt 4 ]]; echo $?; [[ -z "" || x ]]; echo $?; [[ ! a < b ]]; echo $?`,
	`(( 3 > 2 )); echo $?; (( 0 )); echo $?; for ((i=0;i<3;i++)); do echo $i; done; let x=3+4; echo $x`,
	`f() { echo "$#" "$1" "${2}" "$@" "$*"; for a; do echo "<$a>"; done; shift; echo $1; }; f "a b" c ""; f`,
	`x=1; (x=2; echo $x); echo $x; { x=3; }; echo $x; exit 7; echo no`,
	`false || echo or; true && echo and; ! true; echo $?; true | false; echo $? ${PIPESTATUS[0]}`,
	`local_() { local r; r=$1; if [ $r -gt 0 ]; then local_ $((r-1)); fi; echo $r; }; local_ 3`,
	`echo ${u:-def} ${u-def} ${u:+alt}; u=; echo "[${u:-d}] [${u-d}] [${u+s}]"; : ${w:=9}; echo $w`,
	`v=x; x=inner; echo ${!v}; declare -n r=x; r=changed; echo $x; printf -v z '%s' "q r"; echo "$z"`,
	`echo a >&2; echo b 2>&1; echo c >/dev/null; echo $((1/0)); echo after; x=$((1/0)); echo "x=$x"`,
	`f() { return; }; false; f; echo $?; g() { false; return; }; g; echo $?; x=$(false); echo $?; local_x=5; echo $?`,
	`if [ 1 -eq 1 ]; then
: # comment
fi
while false; do :; done; until true; do :; done; echo "a#b" a#b # c`,
	`"echo" "x"; \echo y; e=echo; $e z; $e; cmd="echo a b"; $cmd`,
	`_nosuchcmd_xyz 2>/dev/null; echo $?`,
	`a="x\"y\\z\$q"; echo "$a"; b='it'"'"'s'; echo "$b"; echo "\a\q"`,
	`a=` + "`echo hi`" + `; echo $a; echo "$(echo "nested $(echo "deep")")"`,
	`s='*'; echo "$s"; t='a   b'; echo $t; echo "$t"; IFS=,; u=a,b,c; echo $u; set -- $u; echo $# $2`,
	`x=abc; if [ "${x}" == "abc" ]; then echo 1; fi; y="$(if [ "3" -lt "4" ]; then echo 1; else echo 0; fi)"; echo $y`,
	`f() { local a b=2; a=1; echo $a$b; unset a; echo "[$a]"; }; a=G; f; echo $a`,
	`while read -r l; do echo "<$l>"; done <<EOF
a b
 c

d\e
EOF`,
	`x=-5; echo $((x*-2)) $((${x}-${x})) $((10-${x})) $((!0)) $((~5)) $((7&3|8)) $((5>3?1:2)) $((x<0))`,
	`echo $((9223372036854775807+1)) $((-9223372036854775808)) $((010)) $((0x1F)) $((2#101))`,
	`arr=(); echo ${#arr[@]} "${arr[@]}"; arr+=(1 2); arr+=("3 4"); echo ${#arr[@]} "${arr[2]}" "${arr[-1]}"; unset "arr[0]"; echo "${!arr[@]}"`,
	`f(){ echo in; exit 3; }; x=$(f); echo "$x $?"; f; echo no`,
	`set -u; echo ${x:-ok}; echo $nope; echo not`,
	`g() { h() { echo inner; }; h; }; g; h; function k { echo k; }; k`,
	`for i in 1 2 3; do for j in a b; do if [ $j == b ]; then continue 2; fi; if [ $i == 3 ]; then break 2; fi; echo $i$j; done; done`,
	`echo "${x[0]}"; x[3]=z; echo "${x[3]}"; i=3; echo "${x[i]}" "${x[$i]}" "${x[i-0]}"`,
	`test 1 = 1 -a 2 = 3; echo $?; test ! 1 = 2; echo $?; [ 1 -eq 1 -o 1 -eq 2 ]; echo $?`,
	`echo "a'b" 'a"b'; echo a\ b; echo "$((1+1))"'$((1+1))'; echo "~" a~`,
	`>f1.tmp_v; echo x > f1.tmp_v; echo y >> f1.tmp_v; cat f1.tmp_v; z=$(<f1.tmp_v); echo "$z"; [ -e f1.tmp_v ] && echo ex; [ -f nofile ] || echo no; cat -- f1.tmp_v; while read -r q; do echo "l:$q"; done < f1.tmp_v`,
	`if then; fi`,
	`echo ok
echo "unterminated`,
	`echo a; )`,
	`foo() { echo x`,
	`x=5 y=6; z=$x$y; echo $z; A=1 B=2 :; echo ${x}y`,
	`printf '%s\n'; printf 'a%sb\n' ; printf '%d\n' 12 -3; printf "%s" "a" "b"; echo; printf -- '-x\n'; printf '%c' abc; echo; printf '%.2s|\n' abcdef`,
	`s="a,b,,c"; r=""; while [ "$s" != "${s#*,}" ]; do r="$r[${s%%,*}]"; s="${s#*,}"; done; echo "$r[$s]"`,
	`x='a*b'; case "$x" in a\*b) echo lit;; esac; case "$x" in "a*b") echo q;; esac; p='a*'; case abc in $p) echo pat;; esac; case abc in "$p") echo no;; *) echo quoted;; esac`,
	`echo "${#}" "$?" ; echo "a${x}b${y:-}c"; echo "$" "a$" "$ b" "\$x" "$%"`,
	`eval 'a=1; echo $a'; eval "b='q w'"; echo "$b"; eval "if then" 2>/dev/null; echo $?`,
	`f() { while true; do break; done; echo done; for x in 1 2; do return 4; done; }; f; echo $?`,
	`x=3; while (( x > 0 )); do echo $x; (( x-- )); done; (( x += 5, x *= 2 )); echo $x`,
	`declare -i n=5; n=n+3; echo $n; declare -a q=(1 2); echo ${q[1]}; readonly R=1; R=2; echo after`,
	`declare -A m; m[a]=1; m[b]="x y"; echo "${m[b]}" ${#m[@]} "${m[zz]}"`,
	`echo "a" "b" | while read -r x; do echo "got $x"; done; echo -n "" | cat; echo end`,
	`f() { echo "args: $*"; }; f a "b c" "$(echo d)" ""; f "$@"; f "x$@y"`,
	`[ a \< b ]; echo $?; [ "a b" = "a b" ]; echo $?; [ -z ]; echo $?; [ = ]; echo $?; [ 1 -eq ] 2>/dev/null; echo $?; [ 1 2 3 ] 2>/dev/null; echo $?`,
}

func TestModelAgainstBash(t *testing.T) {
	for i, s := range snippets {
		f := sym.NewFactory()
		sv := sym.NewSolver(f)
		x := &sym.Explorer{F: f, S: sv}
		stdin := "  l1 x\\y  \nl2\\z q\n  raw \nfirst second third\nlast"
		x.Run(func(p *sym.Path) {
			defer func() {
				if r := recover(); r != nil {
					t.Errorf("%d: %v\n%s", i, r, s)
				}
			}()
			r := Run(p, sym.Lit(s), Options{Stdin: sym.Lit(stdin), Cmds: map[string]Cmd{}})
			c := exec.Command("/bin/bash", "-c", s)
			dir := t.TempDir()
			c = exec.Command("/bin/bash", "--norc")
			_ = c
			c = exec.Command("/bin/bash", "/dev/fd/3")
			c.Dir = dir
			writeScript(t, dir, s)
			c = exec.Command("/bin/bash", dir+"/script")
			c.Dir = dir
			c.Env = []string{"PATH=/usr/bin:/bin", "HOME=/root", "LC_ALL=C"}
			c.Stdin = strings.NewReader(stdin)
			var out, er strings.Builder
			c.Stdout, c.Stderr = &out, &er
			c.Run()
			got := r.Out.Eval(nil)
			st := int(sym.Eval(r.Status, nil, nil))
			if got != out.String() || st != c.ProcessState.ExitCode() {
				t.Errorf("%d: %s\nmodel %q %d\nbash  %q %d\n%s", i, s, got, st, out.String(), c.ProcessState.ExitCode(), er.String())
			}
			if (len(r.Err) > 0) != (er.Len() > 0) {
				t.Errorf("%d: stderr model %q bash %q\n%s", i, r.Err.Eval(nil), er.String(), s)
			}
		})
		sv.Close()
	}
}
