package svcparse

import (
	"fmt"
	"strings"
	"testing"
)

func TestVerif_C03(t *testing.T) {
	vhRun(t, "C03", "every text over {/,*,\",\\,newline,a,space,{} up to length 5 (7 in thorough), then random concatenations of proto fragments and random runes; non-trivial: at least two runes", 25, 200, func(h *vh) {
		one := func(s string) bool {
			h.Case("units", fmt.Sprintf("scan of %q", s), len(s) > 1, func() string {
				c := runesOf(s)
				want := refScan(c)
				got := NewSvcScanner(strings.NewReader(s)).Buf
				for i := 0; i < len(got) || i < len(want); i++ {
					if i >= len(got) {
						return fmt.Sprintf("only %d units; the text goes on with %q", len(got), string(c[want[i].start:want[i].end]))
					}
					if i >= len(want) {
						return fmt.Sprintf("unit %d is %q where the text has no complete unit", i, string(got[i].Value))
					}
					if w := string(c[want[i].start:want[i].end]); string(got[i].Value) != w {
						return fmt.Sprintf("unit %d is %q, the text has %q", i, string(got[i].Value), w)
					}
					if got[i].LineNo != want[i].line {
						return fmt.Sprintf("unit %d %q: line %d, want %d", i, string(got[i].Value), got[i].LineNo, want[i].line)
					}
				}
				// the same line numbers are reported while reading
				sc := NewSvcScanner(strings.NewReader(s))
				for i := range want {
					v, err := sc.ReadUnit()
					if err != nil || string(v) != string(c[want[i].start:want[i].end]) || sc.GetLineNumber() != want[i].line {
						return fmt.Sprintf("ReadUnit %d gives %q, line %d, %v; want %q line %d", i, string(v), sc.GetLineNumber(), err, string(c[want[i].start:want[i].end]), want[i].line)
					}
				}
				if v, err := sc.ReadUnit(); err == nil {
					return fmt.Sprintf("ReadUnit past the end gives %q", string(v))
				}
				return ""
			})
			return h.More()
		}
		max := 5
		if h.Thorough {
			max = 7
		}
		for i := 0; i < 4000 && h.More(); i++ {
			one(h.protoText())
		}
		AllStrings("/*\"\\\na {", max, one)
		for i := 0; i < 20000 && h.More(); i++ {
			one(h.Mix("/*/*\"\\\n\n a{}s\xc3\xa9\xff", 30))
		}
	})
}
