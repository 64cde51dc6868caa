package svcparse

import (
	"fmt"
	"strings"
	"unicode"
)

// refLex: the tokens of a text from its scan units: the units that lie in a service definition, comments
// separated by nothing or by white space without newline merged.
func refLex(c []rune) []TokenGroup {
	us := refScan(c)
	var in []refUnit
	inside := false
	for i := 0; i < len(us); i++ {
		now := us[i].def || us[i].body
		if inside || us[i].kw {
			in = append(in, us[i])
		}
		inside = now
	}
	text := func(u refUnit) string { return string(c[u.start:u.end]) }
	isComment := func(u refUnit) bool { return u.end-u.start > 1 && c[u.start] == '/' }
	// merging also looks at units that follow a definition
	idx := map[int]int{}
	for i, u := range us {
		idx[u.start] = i
	}
	var out []TokenGroup
	for k := 0; k < len(in); k++ {
		u := in[k]
		r := c[u.start]
		tk := ILLEGAL
		switch {
		case unicode.IsSpace(r):
			tk = WHITESPACE
		case specIdentRune(r):
			tk = IDENT
		case r == '"':
			tk = STRING_LITERAL
		case r == '(':
			tk = OPEN_PAREN
		case r == ')':
			tk = CLOSE_PAREN
		case r == '{':
			tk = OPEN_BRACE
		case r == '}':
			tk = CLOSE_BRACE
		case isComment(u):
			tk = COMMENT
		default:
			tk = SYMBOL
		}
		g := TokenGroup{tk, text(u), u.line}
		if tk == COMMENT {
			for k+1 < len(in) {
				if isComment(in[k+1]) {
					g.value += text(in[k+1])
					g.line = in[k+1].line
					k++
					continue
				}
				if k+2 < len(in) && unicode.IsSpace(c[in[k+1].start]) && !strings.Contains(text(in[k+1]), "\n") && isComment(in[k+2]) {
					g.value += text(in[k+1]) + text(in[k+2])
					g.line = in[k+2].line
					k += 2
					continue
				}
				break
			}
		}
		out = append(out, g)
	}
	return out
}

func newTestLexer(toks []TokenGroup) *SvcLexer {
	l := &SvcLexer{Scn: NewSvcScanner(strings.NewReader(""))}
	for i := range toks {
		t := toks[i]
		l.Buf = append(l.Buf, &t)
	}
	return l
}

func showToks(ts []TokenGroup) string {
	var b strings.Builder
	for _, t := range ts {
		fmt.Fprintf(&b, "%v:%q@%d ", t.token, t.value, t.line)
	}
	return b.String()
}

// randToks draws a token buffer of arbitrary tokens.
func (h *vh) randToks(max int) []TokenGroup {
	var out []TokenGroup
	line := 1
	for n := h.Rng.Intn(max + 1); n > 0; n-- {
		line += h.Rng.Intn(2)
		var g TokenGroup
		switch h.Rng.Intn(12) {
		case 0, 1:
			g = TokenGroup{WHITESPACE, " ", line}
		case 2, 3:
			g = TokenGroup{COMMENT, "// c\n", line}
		case 4:
			g = TokenGroup{IDENT, h.Pick("service", "rpc", "returns", "stream", "option", "additional_bindings", "custom", "get", "x"), line}
		case 5:
			g = TokenGroup{SYMBOL, h.Pick(";", ":", ".", "="), line}
		case 6:
			g = TokenGroup{STRING_LITERAL, h.Pick(`"/a"`, `"\x"`, `"a\"b"`), line}
		case 7:
			g = TokenGroup{OPEN_PAREN, "(", line}
		case 8:
			g = TokenGroup{CLOSE_PAREN, ")", line}
		case 9:
			g = TokenGroup{OPEN_BRACE, "{", line}
		case 10:
			g = TokenGroup{CLOSE_BRACE, "}", line}
		case 11:
			g = TokenGroup{IDENT, "a", line}
		}
		out = append(out, g)
	}
	return out
}
