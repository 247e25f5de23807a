// Package ts is an independent reference implementation of TypeShell: token grammar, typing and scoping
// rules (Go's rules for the shared syntax, the README's signatures for the builtins) and a symbolic
// interpreter of the Go meaning of programs. It shares no code with the repository.
package ts

import (
	"fmt"
	"strconv"
	"strings"
)

// Kinds of tokens.
const (
	KNewline = "newline"
	KIdent   = "ident"
	KKeyword = "keyword"
	KInt     = "int"
	KStr     = "string"
	KOp      = "op"
	KEOF     = "eof"
)

// Token of the reference grammar.
type Token struct {
	Kind     string
	Text     string // spelling; for strings the unquoted value
	Row, Col int
	End      int // byte offset after the token
	Pos      int
}

var keywords = map[string]bool{}

var sortedKeywords = strings.Fields("import var func return if else switch case default for range break continue nil true false len print input copy itoa exists read write panic bool int string error")

func init() {
	for _, k := range strings.Fields("import var func return if else switch case default for range break continue nil true false len print input copy itoa exists read write panic bool int string error") {
		keywords[k] = true
	}
}

var ops = []string{"==", "!=", "<=", ">=", "&&", "||", "+=", "-=", "*=", "/=", "%=", ":=", "++", "--",
	"(", ")", "[", "]", "{", "}", "<", ">", "=", "!", "+", "-", "*", "/", "%", ",", ":", ";", ".", "@", "|"}

func isLetter(c byte) bool { return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
func isDigit(c byte) bool  { return c >= '0' && c <= '9' }

// Keywords lists the reserved words.
func Keywords() []string { return sortedKeywords }

// Tokenize splits src along the token grammar.
func Tokenize(src string) ([]Token, error) {
	src = strings.ReplaceAll(src, "\r\n", "\n")
	var out []Token
	row, ls := 1, 0
	i := 0
	operand := false // whether the previous token can end an operand
	for i < len(src) {
		c := src[i]
		start, srow, scol := i, row, i-ls+1
		emit := func(kind, text string) {
			out = append(out, Token{kind, text, srow, scol, i, start})
			operand = kind == KIdent || kind == KInt || kind == KStr || kind == KKeyword && (text == "true" || text == "false" || text == "nil") || kind == KOp && (text == ")" || text == "]" || text == "}")
		}
		adv := func(to int) {
			for ; i < to; i++ {
				if src[i] == '\n' {
					row++
					ls = i + 1
				}
			}
		}
		switch {
		case c == '\n':
			adv(i + 1)
			emit(KNewline, "\n")
		case c == ' ' || c == '\t':
			i++
		case strings.HasPrefix(src[i:], "//"):
			j := strings.IndexByte(src[i:], '\n')
			if j < 0 {
				i = len(src)
			} else {
				i += j
			}
		case strings.HasPrefix(src[i:], "/*"):
			j := strings.Index(src[i+2:], "*/")
			if j < 0 {
				return nil, fmt.Errorf("%d:%d: comment not terminated", srow, scol)
			}
			adv(i + 2 + j + 2)
		case c == '`':
			j := strings.IndexByte(src[i+1:], '`')
			if j < 0 {
				return nil, fmt.Errorf("%d:%d: string not terminated", srow, scol)
			}
			v := src[i+1 : i+1+j]
			adv(i + 1 + j + 1)
			emit(KStr, v)
		case c == '"':
			j := i + 1
			for j < len(src) && src[j] != '"' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(src) {
				return nil, fmt.Errorf("%d:%d: string not terminated", srow, scol)
			}
			// TypeShell strings may contain raw newlines; everything else is Go's quoting.
			v, err := strconv.Unquote(strings.ReplaceAll(src[i:j+1], "\n", "\\n"))
			if err != nil {
				return nil, fmt.Errorf("%d:%d: bad string", srow, scol)
			}
			adv(j + 1)
			emit(KStr, v)
		case isDigit(c) || c == '-' && !operand && i+1 < len(src) && isDigit(src[i+1]):
			j := i + 1
			for j < len(src) && isDigit(src[j]) {
				j++
			}
			t := src[i:j]
			i = j
			emit(KInt, t)
		case isLetter(c):
			j := i
			for j < len(src) && (isLetter(src[j]) || isDigit(src[j])) {
				j++
			}
			t := src[i:j]
			i = j
			if keywords[t] {
				emit(KKeyword, t)
			} else {
				emit(KIdent, t)
			}
		default:
			ok := false
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					i += len(o)
					emit(KOp, o)
					ok = true
					break
				}
			}
			if !ok {
				return nil, fmt.Errorf("%d:%d: unknown character %q", srow, scol, c)
			}
		}
	}
	out = append(out, Token{KEOF, "", row, i - ls + 1, i, i})
	return out, nil
}
