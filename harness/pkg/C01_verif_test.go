package pkg

import (
	"fmt"
	"testing"
)

func TestVerif_C01(t *testing.T) {
	vhRun(t, "C01", "every string over {a,z,A,Z,0,9,_,.,-,0x80} up to length 5, then random byte strings; non-trivial: at least two characters", 10, 60, func(h *vh) {
		one := func(s string) bool {
			h.Case("protocGenGo", fmt.Sprintf("GoCamelCase(%q)", s), len(s) > 1, func() string {
				if got, want := GoCamelCase(s), specCamel(s, 0); got != want {
					return fmt.Sprintf("got %q, protoc-gen-go gives %q", got, want)
				}
				return ""
			})
			return h.More()
		}
		max := 4
		if h.Thorough {
			max = 5
		}
		AllStrings("azAZ09_.-\x80", max, one)
		for i := 0; i < 20000 && h.More(); i++ {
			one(h.Mix("abcxyzABCXYZ0189___...-/ \x7f\x80\xff\u00e9", 24))
		}
	})
}
