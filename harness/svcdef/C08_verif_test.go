package svcdef

import (
	"fmt"
	"testing"

	"github.com/teamlint/baron/svcdef/svcparse"
)

func TestVerif_C08(t *testing.T) {
	vhRun(t, "C08", "paramLocation for every path over the 3-part templates of {a, {a}, {a_b}, {a.b}, v1, {a=v/*}, {}, ...}, every body of a fixed set and every field of {A, B, AB, FooBar, XX, ...}, then random bindings with custom patterns and repeated body fields; non-trivial: the binding has a path variable or a body", 10, 60, func(h *vh) {
		fields := []string{"A", "B", "AB", "FooBar", "Name", "XX", "X1", "Foo", "a", "", "A=v/*", "A/b", "B "}
		one := func(b *svcparse.HTTPBinding, name string) bool {
			_, p := refRule(b)
			h.Case("location", fmt.Sprintf("field %q of binding %s", name, showBinding(b)), len(refVars(p)) > 0 || len(b.Fields) > 1, func() string {
				got, want := paramLocation(&Field{Name: name, Type: &FieldType{}}, b), refLocation(name, b)
				if got != want {
					return fmt.Sprintf("location %q, want %q", got, want)
				}
				return ""
			})
			return h.More()
		}
		AllSeqs([]string{"a", "{a}", "{a_b}", "{a.b}", "v1", "{foo_bar.a}", "x{b}", "{a=v/*}", "{a/b}", "{}", "{b }", "}{a"}, 3, func(ps []string) bool {
			path := ""
			for _, p := range ps {
				path += "/" + p
			}
			for _, body := range []string{"-", "*", "a", "A", "a_b", "a.b", "zz", "foo_bar", ""} {
				b := &svcparse.HTTPBinding{Fields: []*svcparse.Field{{Name: "get", Kind: "get", Value: path}}}
				if body != "-" {
					b.Fields = append(b.Fields, &svcparse.Field{Name: "body", Kind: "body", Value: body})
				}
				for _, f := range fields {
					if !one(b, f) {
						return false
					}
				}
			}
			return h.More()
		})
		for i := 0; i < 40000 && h.More(); i++ {
			b := randBinding(h)
			for _, f := range fields {
				one(b, f)
			}
		}
	})
}
