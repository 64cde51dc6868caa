package svcparse

import (
	"fmt"
	"strings"
	"testing"
)

func TestVerif_C04(t *testing.T) {
	vhRun(t, "C04", "random sequences of one to five scans of random proto fragments (truncated services, unbalanced braces, fields and packages named service); non-trivial: a scan that contains a brace or the keyword", 25, 200, func(h *vh) {
		check := func(s string) string {
			c := runesOf(s)
			want := refScan(c)
			sc := NewSvcScanner(strings.NewReader(s))
			if sc.InBody || sc.InDefinition || sc.BraceLevel != 0 || sc.UnitPos != 0 {
				return fmt.Sprintf("a new scanner of %q starts inside a definition", s)
			}
			got := sc.Buf
			for i := 0; i < len(got) && i < len(want); i++ {
				u := got[i]
				if u.BraceLevel != want[i].lev || u.InRpcDefinition != want[i].def || u.InRpcBody != want[i].body {
					return fmt.Sprintf("%q unit %d %q: level %d definition %v body %v, want %d %v %v", s, i, string(u.Value), u.BraceLevel, u.InRpcDefinition, u.InRpcBody, want[i].lev, want[i].def, want[i].body)
				}
			}
			if len(got) != len(want) {
				return fmt.Sprintf("%q: %d units, want %d", s, len(got), len(want))
			}
			for i := range want {
				sc.ReadUnit()
				if sc.BraceLevel != want[i].lev || sc.InDefinition != want[i].def || sc.InBody != want[i].body {
					return fmt.Sprintf("%q after reading unit %d: level %d definition %v body %v, want %d %v %v", s, i, sc.BraceLevel, sc.InDefinition, sc.InBody, want[i].lev, want[i].def, want[i].body)
				}
			}
			for i := len(want) - 1; i > 0; i-- {
				if err := sc.UnreadUnit(); err != nil || sc.UnitPos != i || sc.BraceLevel != want[i-1].lev || sc.InDefinition != want[i-1].def || sc.InBody != want[i-1].body {
					return fmt.Sprintf("%q after un-reading to unit %d: level %d definition %v body %v (%v), want %d %v %v", s, i, sc.BraceLevel, sc.InDefinition, sc.InBody, err, want[i-1].lev, want[i-1].def, want[i-1].body)
				}
			}
			// fast-forwarding stops right before each service keyword in turn
			ff := NewSvcScanner(strings.NewReader(s))
			pos := 0
			for n := 0; n < 8; n++ {
				next := -1
				for i := pos; i < len(want); i++ {
					if want[i].kw {
						next = i
						break
					}
				}
				err := ff.FastForward()
				if next < 0 {
					if err == nil {
						return fmt.Sprintf("%q: FastForward from unit %d stops at %d; no service keyword follows", s, pos, ff.UnitPos)
					}
					break
				}
				if err != nil || ff.UnitPos != next {
					return fmt.Sprintf("%q: FastForward from unit %d stops at %d (%v), the keyword is unit %d", s, pos, ff.UnitPos, err, next)
				}
				ff.ReadUnit()
				at := ff.UnitPos
				if err := ff.FastForward(); err != nil || ff.UnitPos != at {
					return fmt.Sprintf("%q: FastForward inside the definition moves from %d to %d (%v)", s, at, ff.UnitPos, err)
				}
				for (ff.InBody || ff.InDefinition) && ff.UnitPos < len(ff.Buf) {
					ff.ReadUnit()
				}
				if ff.InBody || ff.InDefinition {
					break // the text ends inside the definition
				}
				pos = ff.UnitPos
			}
			return ""
		}
		one := func(hist []string) bool {
			h.Case("scan", fmt.Sprintf("scans of %q in this order", hist), strings.ContainsAny(strings.Join(hist, ""), "{}") || strings.Contains(strings.Join(hist, ""), "service"), func() string {
				for _, s := range hist {
					if r := check(s); r != "" {
						return r
					}
				}
				return ""
			})
			return h.More()
		}
		AllSeqs([]string{"service", " ", "S", "{", "}", "\n", "/*{*/", "\"}\"", "//{\n", "x"}, 5, func(x []string) bool { return one([]string{strings.Join(x, "")}) })
		for i := 0; i < 20000 && h.More(); i++ {
			n := 1 + h.Rng.Intn(5)
			var hist []string
			for j := 0; j < n; j++ {
				hist = append(hist, h.protoText())
			}
			one(hist)
		}
	})
}
