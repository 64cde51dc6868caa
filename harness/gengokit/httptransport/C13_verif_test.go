package httptransport

import (
	"fmt"
	"reflect"
	"strings"
	"testing"
)

func refPathParams(url, tmpl string) (map[string]string, bool) {
	if len(refParts(trimSlashes(url))) != len(refParts(trimSlashes(tmpl))) {
		return nil, false
	}
	us := refParts(url)
	rv := map[string]string{}
	for i, p := range refParts(tmpl) {
		if n := noBraces(p); n != p {
			rv[n] = us[i]
		}
	}
	return rv, true
}

func TestVerif_C13(t *testing.T) {
	vhRun(t, "C13", "every template over {a, {, }, /} up to length 6 against every URL over {b, /, {} up to length 3, then random templates with URLs made from them (parts replaced, added, dropped, trailing slashes); non-trivial: the template has a braced part", 12, 90, func(h *vh) {
		one := func(url, tmpl string) bool {
			h.Case("params", fmt.Sprintf("PathParams(%q, %q)", url, tmpl), noBraces(tmpl) != tmpl, func() string {
				got, err := PathParams(url, tmpl)
				want, ok := refPathParams(url, tmpl)
				if ok != (err == nil) {
					return fmt.Sprintf("error %v, want an error: %v", err, !ok)
				}
				if !ok {
					if len(got) > 0 {
						return fmt.Sprintf("parameters %v besides an error", got)
					}
					return ""
				}
				if len(got) != len(want) || !reflect.DeepEqual(got, want) && len(want) > 0 {
					return fmt.Sprintf("parameters %v, want %v", got, want)
				}
				return ""
			})
			return h.More()
		}
		tl := 5
		if h.Thorough {
			tl = 6
		}
		AllStrings("a{}/", tl, func(tm string) bool {
			return AllStrings("b/{", 3, func(u string) bool { return one(u, tm) })
		})
		for i := 0; i < 60000 && h.More(); i++ {
			var tp, up []string
			for n := h.Rng.Intn(6); n >= 0; n-- {
				p := h.PickW("{"+h.Ident()+"}", "", "v1", "{a}", "{b}", "{a.b}", "{c}:x", "x{d}", "{}", "}{", "{", "{{e}}", "a%2Fb", "é")
				tp = append(tp, p)
				if h.Rng.Intn(4) == 0 {
					p = h.Pick("", "z", "{q}")
				} else if noBraces(p) != p {
					p = h.PickW("1", "val", "", "ü", "a b", "..")
				}
				up = append(up, p)
			}
			switch h.Rng.Intn(8) {
			case 0:
				up = append(up, h.Pick("", "x"))
			case 1:
				up = up[:len(up)-1]
			}
			one(strings.Join(up, "/")+h.Pick("", "", "/", "//"), strings.Join(tp, "/")+h.Pick("", "", "/", "//"))
		}
	})
}
