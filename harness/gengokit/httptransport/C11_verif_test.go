package httptransport

import (
	"fmt"
	"strings"
	"testing"

	"github.com/teamlint/baron/pkg"
	"github.com/teamlint/baron/svcdef"
)

var digitNames = []string{"Zero", "One", "Two", "Three", "Four", "Five", "Six", "Seven", "Eight", "Nine"}

func refNumber(i int) string {
	s := ""
	for {
		s = digitNames[i%10] + s
		i /= 10
		if i == 0 {
			return s
		}
	}
}

func refBase(p string) string {
	if i := strings.IndexByte(p, '{'); i >= 0 {
		return p[:i]
	}
	return p
}

func refSections(path string, enums map[string]bool) []string {
	var out []string
	for _, p := range refParts(path) {
		if len(p) > 2 && p[0] == '{' && p[len(p)-1] == '}' {
			n := pkg.GoCamelCase(noBraces(p))
			if enums[n] {
				out = append(out, "fmt.Sprintf(\"%d\", req."+n+")")
			} else {
				out = append(out, "fmt.Sprint(req."+n+")")
			}
		} else {
			out = append(out, "\""+p+"\"")
		}
	}
	return out
}

func TestVerif_C11(t *testing.T) {
	vhRun(t, "C11", "EnglishNumber for 0..2200 and random larger numbers (all different), every path over {/, a, {, }} up to length 6, and random methods with 0-130 bindings and enum, base and message fields built through NewHelper; non-trivial: the path has a variable or the index is above nine", 12, 90, func(h *vh) {
		seen := map[string]int{}
		num := func(i int) {
			h.Case("digits", fmt.Sprintf("EnglishNumber(%d)", i), i > 9, func() string {
				got := EnglishNumber(i)
				if got != refNumber(i) {
					return fmt.Sprintf("got %q, want %q", got, refNumber(i))
				}
				if j, ok := seen[got]; ok && j != i {
					return fmt.Sprintf("%q is also the label of %d", got, j)
				}
				seen[got] = i
				return ""
			})
		}
		for i := 0; i < 2200; i++ {
			num(i)
		}
		for i := 0; i < 500; i++ {
			num(h.Rng.Intn(1 << 40))
		}
		path := func(p string, enums map[string]bool) bool {
			if strings.ContainsAny(p, "\"\\\n") {
				return true
			}
			h.Case("sections", fmt.Sprintf("base path and PathSections of %q with enum fields %v", p, enums), strings.Contains(p, "{"), func() string {
				if got := basePath(p); got != refBase(p) {
					return fmt.Sprintf("base path %q, want %q", got, refBase(p))
				}
				b := &Binding{PathTemplate: p}
				for _, n := range []string{"A", "B", "FooBar"} {
					b.Fields = append(b.Fields, &Field{Name: n, CamelName: n, IsEnum: enums[n]})
				}
				got, want := b.PathSections(), refSections(p, enums)
				if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
					return fmt.Sprintf("sections %q, want %q", got, want)
				}
				return ""
			})
			return h.More()
		}
		AllStrings("/a{}", 6, func(p string) bool { return path(p, nil) })
		rp := func() string {
			p := ""
			for n := h.Rng.Intn(5); n > 0; n-- {
				p += "/" + h.PickW("{"+h.Ident()+"}", "{a}", "{b}", "{foo_bar}", "{FooBar}", "v1", "{a", "b}", "x{a}", "{a}y", "{}", "{a.b}", "a_b", "", "{_x}", "{{a}}")
			}
			return p
		}
		for i := 0; i < 20000 && h.More(); i++ {
			path(rp(), map[string]bool{"A": h.Rng.Intn(2) == 0, "FooBar": h.Rng.Intn(2) == 0})
			if i%20 != 0 {
				continue
			}
			svc := &svcdef.Service{Name: "S"}
			in := ""
			var fields []*svcdef.Field
			enums := map[string]bool{}
			for _, n := range []string{"A", "B", "FooBar", "a_b"} {
				ft := &svcdef.FieldType{Name: "string"}
				switch h.Rng.Intn(4) {
				case 0:
					ft = &svcdef.FieldType{Name: "Kind", Enum: &svcdef.Enum{Name: "Kind"}}
					enums[pkg.GoCamelCase(n)] = true
				case 1:
					ft = &svcdef.FieldType{Name: "Msg", StarExpr: true, Message: &svcdef.Message{Name: "Msg"}}
				}
				fields = append(fields, &svcdef.Field{Name: n, PBFieldName: strings.ToLower(n), Type: ft})
			}
			for k := h.Rng.Intn(4); k > 0; k-- {
				m := &svcdef.ServiceMethod{Name: h.PickW("Sum", "Echo", "X") + fmt.Sprint(k), RequestType: &svcdef.FieldType{Name: "Req"}, ResponseType: &svcdef.FieldType{Name: "Resp"}}
				nb := h.Rng.Intn(4)
				if h.Rng.Intn(12) == 0 {
					nb = h.Rng.Intn(130)
				}
				for ; nb > 0; nb-- {
					b := &svcdef.HTTPBinding{Verb: h.Pick("get", "post"), Path: rp()}
					for _, f := range fields {
						b.Params = append(b.Params, &svcdef.HTTPParameter{Field: f, Location: h.Pick("body", "path")})
					}
					m.Bindings = append(m.Bindings, b)
				}
				svc.Methods = append(svc.Methods, m)
				in += fmt.Sprintf("%s: %d bindings; ", m.Name, len(m.Bindings))
			}
			h.Case("helper", fmt.Sprintf("NewHelper(%s) enum fields %v", in, enums), in != "", func() string {
				hp := NewHelper(svc)
				k := 0
				for _, m := range svc.Methods {
					if len(m.Bindings) == 0 {
						continue
					}
					if k >= len(hp.Methods) {
						return "a method with bindings has no transport"
					}
					g := hp.Methods[k]
					k++
					if g.Name != m.Name || g.RequestType != "Req" || g.ResponseType != "Resp" || len(g.Bindings) != len(m.Bindings) {
						return fmt.Sprintf("method %s became %s(%s) %s with %d bindings, want %d", m.Name, g.Name, g.RequestType, g.ResponseType, len(g.Bindings), len(m.Bindings))
					}
					labels := map[string]bool{}
					for j, b := range g.Bindings {
						s := m.Bindings[j]
						if b.Label != m.Name+refNumber(j) || labels[b.Label] {
							return fmt.Sprintf("binding %d of %s is labelled %q", j, m.Name, b.Label)
						}
						labels[b.Label] = true
						if b.Verb != s.Verb || b.PathTemplate != s.Path || b.BasePath != refBase(s.Path) {
							return fmt.Sprintf("binding %d of %s: %s %q base %q, want %s %q base %q", j, m.Name, b.Verb, b.PathTemplate, b.BasePath, s.Verb, s.Path, refBase(s.Path))
						}
						if b.Parent != g {
							return fmt.Sprintf("binding %d of %s has another parent", j, m.Name)
						}
						got, want := b.PathSections(), refSections(s.Path, enums)
						if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
							return fmt.Sprintf("binding %d of %s: sections %q, want %q", j, m.Name, got, want)
						}
					}
				}
				if k != len(hp.Methods) {
					return "methods without bindings have transport"
				}
				return ""
			})
		}
	})
}
