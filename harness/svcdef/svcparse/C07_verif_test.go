package svcparse

import (
	"fmt"
	"strings"
	"testing"
)

func TestVerif_C07(t *testing.T) {
	vhRun(t, "C07", "random well-formed services (comments, dotted and stream types, custom verbs, additional bindings, escapes) compared with what was written; mutated and random token streams, wherever parsing succeeds, compared with the tokens; non-trivial: parsing succeeds", 30, 240, func(h *vh) {
		cmp := func(got, want *Service) string {
			if showSvc(got) != showSvc(want) {
				return fmt.Sprintf("parsed as %s\nthe text says %s", showSvc(got), showSvc(want))
			}
			return ""
		}
		for i := 0; i < 40000 && h.More(); i++ {
			s, want := h.serviceText()
			h.Case("fidelity", s, true, func() string {
				got, err := ParseService(NewSvcLexer(strings.NewReader(s)))
				if err != nil {
					return "a well-formed definition is rejected: " + err.Error()
				}
				return cmp(got, want)
			})
			l := NewSvcLexer(strings.NewReader(s))
			var ts []TokenGroup
			for _, g := range l.Buf {
				ts = append(ts, *g)
			}
			for k := 0; k < 3; k++ {
				m := ts
				if k > 0 {
					m = h.mutateToks(ts)
				}
				ok := false
				func() {
					defer func() { recover() }()
					_, err := ParseService(newTestLexer(m))
					ok = err == nil
				}()
				h.Case("noInvention", "tokens "+showToks(m), ok, func() string {
					got, err := ParseService(newTestLexer(m))
					if err != nil {
						return ""
					}
					want, wok := refService(m)
					if !wok {
						return fmt.Sprintf("accepted as %s, but the tokens are no service definition", showSvc(got))
					}
					return cmp(got, want)
				})
				h.Case("noInventedField", "tokens "+showToks(m), ok, func() string {
					for j := range m {
						if m[j].token != OPEN_BRACE {
							continue
						}
						fs, cu, err := ParseBindingFields(newTestLexer(m[j+1:]))
						if err != nil {
							continue
						}
						p := &pcur{t: stripped(m[j+1:]), ok: true}
						wf, wc := p.fields()
						if !p.ok || showFields(fs) != showFields(wf) || showFields(cu) != showFields(wc) {
							return fmt.Sprintf("binding fields from token %d are %s custom %s, the tokens say %s custom %s", j+1, showFields(fs), showFields(cu), showFields(wf), showFields(wc))
						}
					}
					return ""
				})
			}
		}
	})
}
