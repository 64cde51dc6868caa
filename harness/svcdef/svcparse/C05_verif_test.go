package svcparse

import (
	"fmt"
	"strings"
	"testing"
)

func TestVerif_C05(t *testing.T) {
	vhRun(t, "C05", "random token buffers of up to 12 tokens under random sequences of up to 14 cursor operations compared with an index; random scan texts under random reads, un-reads and rewinds; token streams of random texts (all of length up to 4 over proto fragments) against the text; non-trivial: at least one token", 25, 200, func(h *vh) {
		lexOps := func() bool {
			toks := h.randToks(12)
			var ops []int
			for n := h.Rng.Intn(15); n > 0; n-- {
				ops = append(ops, h.Rng.Intn(7), h.Rng.Intn(len(toks)+1))
			}
			h.Case("cursor", fmt.Sprintf("tokens %s operations %v (0 GetToken 1 UnGetToken 2 UnGetToPosition 3 IgnoreWhitespace 4 IgnoreCommentAndWhitespace 5 getTokenIgnore(COMMENT))", showToks(toks), ops), len(toks) > 0, func() string {
				l := newTestLexer(toks)
				pos := 0
				for i := 0; i+1 < len(ops); i += 2 {
					skip := map[Token]bool{}
					switch ops[i] {
					case 1:
						err := l.UnGetToken()
						if (err != nil) != (pos == 0) {
							return fmt.Sprintf("step %d: UnGetToken at %d returns %v", i/2, pos, err)
						}
						if pos > 0 {
							pos--
						}
						if l.GetPosition() != pos {
							return fmt.Sprintf("step %d: UnGetToken moves to %d, want %d", i/2, l.GetPosition(), pos)
						}
						continue
					case 2:
						if ops[i+1] > pos {
							continue
						}
						if err := l.UnGetToPosition(ops[i+1]); err != nil || l.GetPosition() != ops[i+1] {
							return fmt.Sprintf("step %d: UnGetToPosition(%d) from %d moves to %d (%v)", i/2, ops[i+1], pos, l.GetPosition(), err)
						}
						pos = ops[i+1]
						continue
					case 3:
						skip[WHITESPACE] = true
					case 4:
						skip[WHITESPACE], skip[COMMENT] = true, true
					case 5:
						skip[COMMENT] = true
					}
					wt, wv, wl := EOF, "", -1
					for pos < len(toks) {
						g := toks[pos]
						pos++
						if !skip[g.token] {
							wt, wv, wl = g.token, g.value, g.line
							break
						}
					}
					var gt Token
					var gv string
					switch ops[i] {
					case 3:
						gt, gv = l.GetTokenIgnoreWhitespace()
					case 4:
						gt, gv = l.GetTokenIgnoreCommentAndWhitespace()
					case 5:
						gt, gv = l.getTokenIgnore(COMMENT)
					default:
						gt, gv = l.GetToken()
					}
					if gt != wt || gv != wv || l.GetPosition() != pos {
						return fmt.Sprintf("step %d: read gives %v %q and position %d, want %v %q and %d", i/2, gt, gv, l.GetPosition(), wt, wv, pos)
					}
					if wl >= 0 && l.GetLineNumber() != wl {
						return fmt.Sprintf("step %d: line %d, want %d", i/2, l.GetLineNumber(), wl)
					}
				}
				return ""
			})
			return h.More()
		}
		scanOps := func() bool {
			s := h.protoText()
			var ops []int
			for n := h.Rng.Intn(20); n > 0; n-- {
				ops = append(ops, h.Rng.Intn(4), h.Rng.Intn(30))
			}
			h.Case("scannerCursor", fmt.Sprintf("text %q operations %v (0,3 ReadUnit 1 UnreadUnit 2 UnReadToPosition)", s, ops), true, func() string {
				c := runesOf(s)
				us := refScan(c)
				sc := NewSvcScanner(strings.NewReader(s))
				pos := 0
				for i := 0; i+1 < len(ops); i += 2 {
					switch ops[i] {
					case 0, 3:
						v, err := sc.ReadUnit()
						if (err != nil) != (pos >= len(us)) {
							return fmt.Sprintf("step %d: ReadUnit at %d gives %q %v", i/2, pos, string(v), err)
						}
						if err == nil {
							if string(v) != string(c[us[pos].start:us[pos].end]) {
								return fmt.Sprintf("step %d: ReadUnit at %d gives %q", i/2, pos, string(v))
							}
							pos++
						}
					case 1:
						err := sc.UnreadUnit()
						if (err != nil) != (pos == 0) {
							return fmt.Sprintf("step %d: UnreadUnit at %d returns %v", i/2, pos, err)
						}
						if pos > 0 {
							pos--
						}
					case 2:
						if ops[i+1] > pos {
							continue
						}
						if err := sc.UnReadToPosition(ops[i+1]); err != nil {
							return fmt.Sprintf("step %d: UnReadToPosition(%d) from %d: %v", i/2, ops[i+1], pos, err)
						}
						pos = ops[i+1]
					}
					if sc.UnitPos != pos {
						return fmt.Sprintf("step %d: position %d, want %d", i/2, sc.UnitPos, pos)
					}
					lev, def, body, line := 0, false, false, 0
					if pos > 0 {
						u := us[pos-1]
						lev, def, body, line = u.lev, u.def, u.body, u.line
					}
					if sc.BraceLevel != lev || sc.InDefinition != def || sc.InBody != body || sc.GetLineNumber() != line {
						return fmt.Sprintf("step %d at position %d: level %d definition %v body %v line %d, want %d %v %v %d", i/2, pos, sc.BraceLevel, sc.InDefinition, sc.InBody, sc.GetLineNumber(), lev, def, body, line)
					}
				}
				return ""
			})
			return h.More()
		}
		tokens := func(s string) bool {
			h.Case("tokens", fmt.Sprintf("tokens of %q", s), strings.Contains(s, "service"), func() string {
				want := refLex(runesOf(s))
				l := NewSvcLexer(strings.NewReader(s))
				for i := 0; i < len(want) || i < len(l.Buf); i++ {
					if i >= len(want) {
						return fmt.Sprintf("token %d is %v, the text has no further token", i, *l.Buf[i])
					}
					if i >= len(l.Buf) {
						return fmt.Sprintf("only %d tokens; the text goes on with %v", i, want[i])
					}
					if *l.Buf[i] != want[i] {
						return fmt.Sprintf("token %d is %v, want %v", i, *l.Buf[i], want[i])
					}
				}
				if l.GetPosition() != 0 {
					return "a new lexer does not start at position 0"
				}
				return ""
			})
			return h.More()
		}
		AllSeqs([]string{"service ", "{", "}", " ", "\n", "//c\n", "/*d*/", "a.b;", "\"s\""}, 4, func(x []string) bool { return tokens(strings.Join(x, "")) })
		AllSeqs([]string{" ", "\n", "//c\n", "/*d*/", "/", "x", "}"}, 5, func(x []string) bool { return tokens("service S{" + strings.Join(x, "")) })
		for i := 0; i < 20000 && h.More(); i++ {
			lexOps()
			scanOps()
			tokens(h.protoText())
		}
	})
}
