package svcdef

import (
	"fmt"
	"io"
	"reflect"
	"strings"
	"testing"

	"github.com/teamlint/baron/pkg"
	"github.com/teamlint/baron/svcdef/svcparse"
)

func showDef(s *Service) string {
	if s == nil {
		return "nil"
	}
	r := s.Name + "["
	for _, m := range s.Methods {
		r += m.Name + "("
		if m.RequestType.Message != nil {
			for _, f := range m.RequestType.Message.Fields {
				r += f.Name + " "
			}
		} else {
			r += "no message"
		}
		r += ")"
		for _, b := range m.Bindings {
			r += fmt.Sprintf(" %s %q{", b.Verb, b.Path)
			for _, p := range b.Params {
				r += fmt.Sprintf("%s:%s ", p.Field.Name, p.Location)
			}
			r += "}"
		}
		r += "; "
	}
	return r + "]"
}

func randService(h *vh) *Service {
	s := &Service{Name: "S"}
	var msgs []*Message
	for i := 0; i < 3; i++ {
		m := &Message{Name: fmt.Sprintf("M%d", i)}
		for j := h.Rng.Intn(5); j > 0; j-- {
			m.Fields = append(m.Fields, &Field{Name: h.PickW("A", "B", "AB", "FooBar", "Name"), Type: &FieldType{Name: "string"}})
		}
		msgs = append(msgs, m)
	}
	for j := h.Rng.Intn(5); j > 0; j-- {
		m := &ServiceMethod{Name: h.PickW("A", "B", "GetIt", "FooBar", "Other"), RequestType: &FieldType{Name: "M"}, ResponseType: &FieldType{Name: "R"}}
		if h.Rng.Intn(6) > 0 {
			m.RequestType.Message = msgs[h.Rng.Intn(3)]
		}
		for k := h.Rng.Intn(3); k > 0; k-- {
			m.Bindings = append(m.Bindings, &HTTPBinding{Verb: "old", Path: "/old"})
		}
		s.Methods = append(s.Methods, m)
	}
	return s
}

type wantBind struct {
	m    *ServiceMethod
	b    *svcparse.HTTPBinding
	have *HTTPBinding
}

func TestVerif_C09(t *testing.T) {
	vhRun(t, "C09", "random services (0-4 methods, duplicate and unknown names, request types without a message, bindings already present) with random parsed rules, checked against the whole resulting service; plus whole proto files through consolidateHTTP; non-trivial: at least one rule for a known method", 14, 90, func(h *vh) {
		for i := 0; i < 60000 && h.More(); i++ {
			svc := randService(h)
			if h.Rng.Intn(40) == 0 {
				svc = nil
			}
			hs := &svcparse.Service{Name: "s"}
			for j := h.Rng.Intn(5); j > 0; j-- {
				m := &svcparse.Method{Name: h.PickW("A", "a", "B", "get_it", "GetIt", "foo_bar", "FooBar", "b")}
				if h.Rng.Intn(12) == 0 {
					m.Name = h.Pick("unknown", "Foo", "")
				}
				for k := h.Rng.Intn(4); k > 0; k-- {
					m.HTTPBindings = append(m.HTTPBindings, randBinding(h))
				}
				hs.Methods = append(hs.Methods, m)
			}
			in := showDef(svc) + " rules "
			for _, m := range hs.Methods {
				in += m.Name
				for _, b := range m.HTTPBindings {
					in += showBinding(b)
				}
				in += "; "
			}
			checkAssemble(h, "assemble", in, svc, hs, func() error { return assembleHTTPParams(svc, hs) })
			if i%8 == 0 {
				consolidateCase(h)
			}
		}
	})
}

// checkAssemble: run attaches the rules of hs to svc.
func checkAssemble(h *vh, clause, in string, svc *Service, hs *svcparse.Service, run func() error) {
	// the expected attachments and a deep snapshot
	find := func(name string) *ServiceMethod {
		if svc != nil {
			for _, m := range svc.Methods {
				if m.Name == pkg.GoCamelCase(name) {
					return m
				}
			}
		}
		return nil
	}
	want := map[*ServiceMethod][]*svcparse.HTTPBinding{}
	unknown, known := false, false
	for _, m := range hs.Methods {
		t := find(m.Name)
		if t == nil {
			unknown = true
			break
		}
		for _, b := range m.HTTPBindings {
			known = true
			want[t] = append(want[t], b)
		}
	}
	old := map[*ServiceMethod][]*HTTPBinding{}
	var oldCopies []HTTPBinding
	var shape string
	if svc != nil {
		for _, m := range svc.Methods {
			old[m] = append([]*HTTPBinding{}, m.Bindings...)
			for _, b := range m.Bindings {
				oldCopies = append(oldCopies, *b)
			}
			shape += fmt.Sprintf("%s %p %p %v;", m.Name, m.RequestType, m.ResponseType, *m.RequestType)
			if m.RequestType.Message != nil {
				shape += fmt.Sprintf("%v", m.RequestType.Message.Fields)
			}
		}
	}
	h.Case(clause, in, known, func() string {
		err := run()
		if unknown != (err != nil) {
			return fmt.Sprintf("error %v, but an rule for an unknown method: %v", err, unknown)
		}
		if svc == nil {
			return ""
		}
		n, shape2 := 0, ""
		for _, m := range svc.Methods {
			if err == nil && len(m.Bindings) != len(old[m])+len(want[m]) {
				return fmt.Sprintf("method %s has %d bindings, want %d", m.Name, len(m.Bindings), len(old[m])+len(want[m]))
			}
			for k, b := range m.Bindings {
				if k < len(old[m]) {
					if b != old[m][k] || !reflect.DeepEqual(*b, oldCopies[n]) {
						return fmt.Sprintf("existing binding %d of %s changed", k, m.Name)
					}
					n++
					continue
				}
				if k-len(old[m]) >= len(want[m]) {
					return fmt.Sprintf("method %s has an extra binding", m.Name)
				}
				w := want[m][k-len(old[m])]
				v, p := refRule(w)
				if b.Verb != v || b.Path != p {
					return fmt.Sprintf("method %s binding %d is %s %q, want %s %q", m.Name, k, b.Verb, b.Path, v, p)
				}
				var fs []*Field
				if m.RequestType.Message != nil {
					fs = m.RequestType.Message.Fields
				}
				if len(b.Params) != len(fs) {
					return fmt.Sprintf("method %s binding %d has %d parameters, want one for each of %d fields", m.Name, k, len(b.Params), len(fs))
				}
				for x, f := range fs {
					if b.Params[x] == nil || b.Params[x].Field != f {
						return fmt.Sprintf("method %s binding %d parameter %d is not for field %s", m.Name, k, x, f.Name)
					}
					if l := refLocation(f.Name, w); b.Params[x].Location != l {
						return fmt.Sprintf("method %s binding %d field %s is in %s, want %s", m.Name, k, f.Name, b.Params[x].Location, l)
					}
				}
			}
			shape2 += fmt.Sprintf("%s %p %p %v;", m.Name, m.RequestType, m.ResponseType, *m.RequestType)
			if m.RequestType.Message != nil {
				shape2 += fmt.Sprintf("%v", m.RequestType.Message.Fields)
			}
		}
		if shape != shape2 {
			return "the service's methods, types or fields changed"
		}
		return ""
	})
}

// consolidateCase: proto files with services, other definitions, and rpcs without rules.
func consolidateCase(h *vh) {
	svc := &Service{Name: "Svc"}
	hs := &svcparse.Service{Name: "Svc"}
	names := []string{"GetIt", "FooBar", "Ping", "Send", "X1"}
	text := "syntax = \"proto3\";\npackage p;\n" + h.Pick("", "// service Foo {\n", "/* service */\n") + "message M { string a = 1; }\nservice Svc {\n"
	n := 1 + h.Rng.Intn(4)
	for i := 0; i < n; i++ {
		m := &ServiceMethod{Name: names[i], RequestType: &FieldType{Name: "M", Message: &Message{Name: "M", Fields: []*Field{{Name: "A", Type: &FieldType{}}, {Name: "FooBar", Type: &FieldType{}}}}}, ResponseType: &FieldType{Name: "R"}}
		svc.Methods = append(svc.Methods, m)
		text += "  rpc " + names[i] + " (M) returns (R) {"
		if h.Rng.Intn(4) > 0 {
			b := &svcparse.HTTPBinding{}
			verb, path := pick(h, verbs), h.Pick("/v1/{a}", "/x", "/{foo_bar}/y/{a}", "/")
			b.Fields = append(b.Fields, &svcparse.Field{Kind: verb, Value: path})
			text += "\n    option (google.api.http) = {\n      " + verb + ": \"" + path + "\"\n"
			if h.Rng.Intn(2) == 0 {
				body := h.Pick("*", "a", "foo_bar")
				b.Fields = append(b.Fields, &svcparse.Field{Kind: "body", Value: body})
				text += "      body: \"" + body + "\"\n"
			}
			text += "    };\n  "
			hs.Methods = append(hs.Methods, &svcparse.Method{Name: names[i], HTTPBindings: []*svcparse.HTTPBinding{b}})
		}
		text += "}\n"
	}
	text += "}\n" + h.Pick("", "message Z {}\n", "enum E { A = 0; }\n")
	other := []string{"syntax = \"proto3\";\npackage p;\nmessage Q { string a = 1; }\n", "", "// nothing\n", "syntax = \"proto3\";\nservice Plain {\n  rpc GetIt (M) returns (R) {}\n}\n"}
	files := map[string]io.Reader{"a.proto": strings.NewReader(text)}
	var used []string
	for k := h.Rng.Intn(3); k > 0; k-- {
		o := other[h.Rng.Intn(len(other))]
		used = append(used, o)
		files[fmt.Sprintf("o%d.proto", k)] = strings.NewReader(o)
	}
	checkAssemble(h, "consolidate", fmt.Sprintf("proto files %q", append([]string{text}, used...)), svc, hs, func() error {
		return consolidateHTTP(&Svcdef{Service: svc}, files)
	})
}
