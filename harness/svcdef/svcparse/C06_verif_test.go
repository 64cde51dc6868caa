package svcparse

import (
	"fmt"
	"strings"
	"testing"
)

func TestVerif_C06(t *testing.T) {
	vhRun(t, "C06", "every token stream of up to 4 tokens over 12 kinds for each parsing entry point, then random token streams, truncations and mutations of well-formed services; non-trivial: at least two tokens", 30, 240, func(h *vh) {
		one := func(ts []TokenGroup) bool {
			in := "tokens " + showToks(ts)
			run := func(name string, f func(l *SvcLexer) (got bool, err error, ended bool)) {
				h.Case(name, in, len(ts) > 1, func() string {
					l := newTestLexer(ts)
					for n := 0; ; n++ {
						p0 := l.GetPosition()
						got, err, ended := f(l)
						if got && err != nil {
							return fmt.Sprintf("%s returns both a value and an error (%v)", name, err)
						}
						if l.GetPosition() < p0 {
							return fmt.Sprintf("%s moves the cursor back from %d to %d", name, p0, l.GetPosition())
						}
						if err != nil || ended {
							return ""
						}
						if l.GetPosition() <= p0 {
							return fmt.Sprintf("%s succeeds at %d without consuming a token", name, p0)
						}
					}
				})
			}
			run("ParseService", func(l *SvcLexer) (bool, error, bool) {
				s, err := ParseService(l)
				if err == nil && s == nil {
					return false, nil, false
				}
				return s != nil, err, true
			})
			run("ParseMethod", func(l *SvcLexer) (bool, error, bool) {
				m, err := ParseMethod(l)
				return m != nil, err, false
			})
			run("ParseHttpBindings", func(l *SvcLexer) (bool, error, bool) {
				b, err := ParseHttpBindings(l)
				return b != nil, err, false
			})
			run("ParseBindingFields", func(l *SvcLexer) (bool, error, bool) {
				f, c, err := ParseBindingFields(l)
				return f != nil || c != nil, err, true
			})
			return h.More()
		}
		alpha := []string{"rpc", "{", "}", "additional_bindings", "custom", "option", ":", "\"s\"", "//c\n", ";", "("}
		mk := func(x []string) []TokenGroup {
			var ts []TokenGroup
			for i, v := range x {
				tk := IDENT
				switch {
				case v == "{":
					tk = OPEN_BRACE
				case v == "}":
					tk = CLOSE_BRACE
				case v == "(":
					tk = OPEN_PAREN
				case v[0] == '"':
					tk = STRING_LITERAL
				case v[0] == '/':
					tk = COMMENT
				case v == ":" || v == ";":
					tk = SYMBOL
				}
				ts = append(ts, TokenGroup{tk, v, i})
			}
			return ts
		}
		for i := 0; i < 6000 && h.More(); i++ {
			s, _ := h.serviceText()
			l := NewSvcLexer(strings.NewReader(s))
			var ts []TokenGroup
			for _, g := range l.Buf {
				ts = append(ts, *g)
			}
			one(h.mutateToks(ts))
			if len(ts) > 0 {
				one(ts[h.Rng.Intn(len(ts)):])
			}
			one(h.randToks(20))
			if len(ts) > 0 {
				ts[h.Rng.Intn(len(ts))] = TokenGroup{Token(h.Rng.Intn(11)), h.Pick("}", "{", "additional_bindings", "custom", ";", ":", "\"q", "rpc"), 1}
				one(ts)
			}
		}
		AllSeqs(alpha, 4, func(x []string) bool { return one(mk(x)) })
	})
}
