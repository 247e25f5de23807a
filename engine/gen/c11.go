package gen

import (
	"fmt"
	"math/rand"
	"strings"
)

// Tmpl is a source template for the tokeniser (see chk.Tmpl).
type Tmpl struct{ ID, Fam, Text string }

func sy(kinds string) string {
	var sb strings.Builder
	for _, c := range kinds {
		sb.WriteString("\x01" + string(c))
	}
	return sb.String()
}

var lexemes = []string{"==", "!=", "<=", ">=", "&&", "||", "+=", "-=", "*=", "/=", "%=", ":=", "++", "--", "(", ")", "[", "]", "{", "}", "<", ">", "=", "!", "+", "-", "*", "/", "%", ",", ":", ";", ".", "@", "|",
	"import", "var", "func", "return", "if", "else", "switch", "case", "default", "for", "range", "break", "continue", "nil", "true", "false", "len", "print", "input", "copy", "itoa", "exists", "read", "write", "panic", "bool", "int", "string", "error",
	"x", "_a1", "Zz", "0", "42", "-7", "\"s\"", "\"\"", "`r`", "\n"}

// C11 lists tokeniser templates.
func C11(thorough bool, seed int64) []Tmpl {
	var out []Tmpl
	fam := ""
	add := func(id, text string) { out = append(out, Tmpl{fam + "/" + id, fam, text}) }

	fam = "bytes" // every text of up to 2 (3) arbitrary bytes, alone and in context
	add("empty", "")
	add("1", sy("a"))
	add("2", sy("aa"))
	pre := []string{"x", "1", "-", "\"a\"", "true", "nil", ")", "\n", " ", "\r", "/", "//c\n", "/*c*/", "a\r\n", "\xc3\xa9", "`é\n`"}
	for i, s := range pre {
		add(fmt.Sprintf("pre%d", i), s+sy("a"))
		add(fmt.Sprintf("post%d", i), sy("a")+s)
		add(fmt.Sprintf("mid%d", i), s+sy("a")+s)
	}
	add("mid2", "a b"+sy("aa")+"c \"d\"\n e")
	if thorough {
		for _, k := range []string{"oa", "la", "sa", "qa"} {
			add("3"+k, sy(k[:1])+sy("aa"))
			add("3b"+k, sy("a")+sy(k[:1])+sy("a"))
		}
		for i, s := range pre {
			add(fmt.Sprintf("pre2-%d", i), s+sy("aa"))
			add(fmt.Sprintf("mid2-%d", i), s+sy("aa")+s+"\nz")
		}
	}

	fam = "ops" // runs of operator characters
	add("2", sy("oo"))
	add("3", "a"+sy("oo")+"b")
	if thorough {
		add("4", sy("ooo"))
		add("5", "1"+sy("ooo")+"1")
	}

	fam = "pairs" // two lexemes with a separator of symbolic white space, or none
	seps := []string{"", sy("s"), sy("ss"), "/*" + sy("p") + "*/", "//" + sy("c") + "\n"}
	for i, a := range lexemes {
		for j, b := range lexemes {
			if !thorough && (i*31+j*17+int(seed))%3 != 0 && !(i < 35 && j < 35) {
				continue
			}
			k := (i + j) % len(seps)
			add(fmt.Sprintf("%d-%d", i, j), a+b)
			add(fmt.Sprintf("%d-%d-s%d", i, j, k), a+seps[k]+b)
			if thorough {
				add(fmt.Sprintf("%d-%d-t", i, j), a+seps[(k+1)%len(seps)]+b+seps[(k+2)%len(seps)]+a)
			}
		}
	}

	fam = "words" // keywords with neighbours, prefixes of keywords
	for _, kw := range lexemes[35:64] {
		add(kw+"+", kw+sy("a"))
		add("+"+kw, sy("a")+kw)
		add(kw+"ll", kw+sy("ll"))
		add("l"+kw+"l", sy("l")+kw+sy("l")+" "+kw)
		add(kw+"cut", kw[:len(kw)-1]+sy("l"))
		add(kw+"first", sy("l")+kw[1:])
		add(kw+"case", strings.ToUpper(kw[:1])+kw[1:]+sy("s")+strings.ToUpper(kw)+sy("s")+kw)
	}
	for i := 1; i <= 3; i++ {
		k := strings.Repeat("l", i)
		if i == 3 && !thorough {
			k = "LL"
			add("ident3", "_"+sy(k)+" ")
			continue
		}
		add(fmt.Sprintf("ident%d", i), sy(k))
		add(fmt.Sprintf("identsp%d", i), sy(k)+" "+sy(k[:1]))
	}
	add("num", sy("dd"))
	add("numl", sy("dl"))
	add("numx", sy("d")+"x"+sy("h"))
	add("numsp", sy("d")+sy("s")+sy("d"))
	add("neg", "-"+sy("d")+"-"+sy("d"))
	add("negs", "a"+sy("s")+"-"+sy("s")+"1")
	add("neg2", sy("l")+"-"+sy("d")+" - "+sy("d")+"-1")
	add("negop", sy("o")+"-"+sy("d"))
	add("numbig", "123456789012345678901"+sy("d"))
	add("long", strings.Repeat("abc_X9", 40)+sy("l")+" "+strings.Repeat("9", 60)+sy("a"))

	fam = "comments"
	add("line", "//"+sy("pp")+"\nx")
	add("linecr", "a//"+sy("aa")+"\r\nx")
	add("lineeof", "a //"+sy("pp"))
	add("block", "/*"+sy("pp")+"*/x")
	add("block3", "a/*"+sy("ccc")+"*/x")
	add("two", "/*"+sy("p")+"*/a/*"+sy("p")+"*/b")
	add("two2", "a /*1*/"+sy("a")+"/*2*/ c")
	add("twol", "/*"+sy("c")+"\n*/ a //"+sy("c")+"\nb /* */ c\n// */\nd")
	add("star", "/**"+sy("c")+"*/a/***/b/**/c")
	add("slash", "a/"+sy("c")+"/b")
	add("nest", "/* /*"+sy("c")+"*/ x */ y")
	add("instr", "\"/*"+sy("c")+"*/\" x // \"y\"\n`//"+sy("c")+"` z")
	add("strin", "/* \""+sy("c")+" */ a \" */ \" b")
	add("linein", "// /*"+sy("c")+"\na */ b")
	add("nl", "/*"+sy("n")+sy("n")+"*/x\n/*\n\n"+sy("n")+"*/ y z")
	add("end", "x /*"+sy("c")+"*"+sy("c")+"/")
	if thorough {
		add("block4", "/*"+sy("cccc")+"*/ x /* */ y")
		add("free5", "a"+sy("ccccc")+"b")
		add("blockp3", "/*"+sy("ppp")+"*/x\n y")
	}

	fam = "strings"
	for i, s := range []string{"a", "aa", "pp", "ap", "qa", "qq", "qqq"} {
		if i == 1 && !thorough {
			continue
		}
		add(fmt.Sprintf("int%d", i), "\""+sy(s)+"\"")
		add(fmt.Sprintf("intx%d", i), "x := \""+sy(s)+"\" + y")
		add(fmt.Sprintf("raw%d", i), "`"+sy(s)+"`")
		add(fmt.Sprintf("rawx%d", i), "x := `"+sy(s)+"` + y\nz")
		add(fmt.Sprintf("free%d", i), "\""+sy(s))
	}
	add("esc", "\"a\\"+sy("a")+"b\"")
	add("esc2", "\"\\"+sy("a")+"\\"+sy("q")+"\"")
	add("hex", "\"\\x"+sy("hh")+"\" x")
	add("hexbad", "\"\\x"+sy("aa")+"\"")
	add("hexmid", "\"a\\x"+sy("hh")+"z\\x41\" x")
	add("oct", "\"\\"+sy("2dd")+"\" x")
	add("octbad", "\"\\"+sy("dd")+"\"")
	for i, v := range []string{"00" + sy("hh"), sy("h") + "7f" + sy("h"), "0" + sy("hh") + "0", "d" + sy("h") + "00", "fff" + sy("h"), "0" + sy("h") + sy("p") + "1", "12" + sy("a")} {
		add(fmt.Sprintf("u%d", i), "\"\\u"+v+"\" x")
		add(fmt.Sprintf("ux%d", i), "a \"b\\u"+v+"\\u00e9c\" x\ny")
	}
	for i, v := range []string{"0000" + sy("h") + "0" + sy("h") + "0", "000" + sy("h") + "f" + sy("h") + "00", "00" + sy("dd") + "ffff", "000" + sy("p") + "0041", "0001f60" + sy("a")} {
		add(fmt.Sprintf("U%d", i), "\"\\U"+v+"\" x")
	}
	add("utf", "\""+"é"+sy("a")+"日本\" + `"+"ü"+sy("a")+"` + x")
	add("utfraw", "`\xe6"+sy("a")+"` x")
	add("two", "\""+sy("q")+"\"\""+sy("q")+"\" x")
	add("tworaw", "`"+sy("p")+"``"+sy("p")+"` x")
	add("mix", "`"+sy("q")+"\"` + \"`"+sy("q")+"\" x")
	add("bs", "\"\\\\"+sy("q")+"\" x \"\\\\\" y")
	add("cr", "`a"+sy("n")+sy("n")+"b` x\n y")
	add("nlint", "\"a"+sy("n")+"b\" x\n y")
	add("long", "\""+strings.Repeat("lorem ipsum $ `x` ", 12)+sy("p")+"\\n\" "+"`"+strings.Repeat("multi\nline\n", 9)+sy("p")+"` tail")
	for c := 'a'; c <= 'z'; c++ {
		add("escv-"+string(c), "\""+sy("p")+"\\"+string(c)+sy("p")+"\" z")
	}
	if thorough {
		add("int3", "\""+sy("ppp")+"\" x")
		add("raw3", "`"+sy("ppp")+"` x")
		add("q4", "\""+sy("qqqq")+"\" x")
		add("q4free", "x"+sy("qqqq")+" y")
	}

	fam = "positions"
	add("ws", sy("sss")+"x"+sy("s")+"y")
	add("crlf", "a\r\n"+sy("s")+"b\r\n\r\n c"+sy("n")+"d")
	add("raw", "a `"+sy("ss")+"` b\n c")
	add("rawtail", "`x\n"+sy("b")+"y` b `"+sy("s")+"` c")
	add("comment", "a /*"+sy("ss")+"*/ b\n c")
	add("linecom", "a //"+sy("bb")+"\n b")
	add("esc", "\"\\n"+sy("q")+"\\x41\" b \"\\u00e9\" c")
	add("utf", "`é"+sy("s")+"日` b // é\n\tc /* é */ d")
	add("multi", "x := 1\n\tif x "+sy("o")+" 2 {\n\t\tprint(`a\nb"+sy("s")+"`, y)\n\t}\n/* c\n*/ z := 3 // w\nq")
	add("eof", "a\n"+sy("ss"))
	add("tabs", "\t\ta\t"+sy("b")+"b")

	fam = "mixed" // random token sequences with symbolic separators
	n := 150
	if thorough {
		n = 3000
	}
	r := rand.New(rand.NewSource(seed*7919 + 5))
	for i := 0; i < n; i++ {
		var sb strings.Builder
		m := 3 + r.Intn(8)
		sym := 0
		for k := 0; k < m; k++ {
			sb.WriteString(lexemes[r.Intn(len(lexemes))])
			switch c := r.Intn(9); {
			case c == 0:
			case c == 1 && sym < 2:
				sb.WriteString(sy("s"))
				sym++
			case c == 2 && sym < 2:
				sb.WriteString("/*" + sy("c") + "*/")
				sym++
			case c == 3 && sym < 2:
				sb.WriteString(" \"" + sy("p") + "\" ")
				sym++
			case c == 4 && sym < 2:
				sb.WriteString("//" + sy("b") + "\n")
				sym++
			case c == 5:
				sb.WriteString("\r\n\t")
			case c == 6:
				sb.WriteString("`a\nb`")
			default:
				sb.WriteString(" ")
			}
		}
		add(fmt.Sprintf("s%d-%d", seed, i), sb.String())
	}
	return out
}
