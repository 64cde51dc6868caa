package svcdef

import (
	"fmt"
	"testing"
)

type ftSnap struct {
	ft         *FieldType
	old        FieldType
	isMapTop   bool
	resolvable bool
	where      string
}

func TestVerif_C10(t *testing.T) {
	vhRun(t, "C10", "random definitions with 0-4 messages, 0-3 enums, fields of base, message, enum, undefined, repeated, pointer and map types (message, enum and base values) and a service with 0-4 methods or none; every type of the definition is compared before and after; non-trivial: some type name is defined", 10, 60, func(h *vh) {
		names := []string{"A", "B", "C", "D", "E", "F", "string", "int64", ""}
		for i := 0; i < 100000 && h.More(); i++ {
			sd := &Svcdef{PkgName: "pb"}
			perm := h.Rng.Perm(6)
			nm, ne := h.Rng.Intn(4), h.Rng.Intn(3)
			for j := 0; j < nm; j++ {
				sd.Messages = append(sd.Messages, &Message{Name: names[perm[j]]})
			}
			for j := 0; j < ne; j++ {
				sd.Enums = append(sd.Enums, &Enum{Name: names[perm[nm+j]]})
			}
			msg, enum := map[string]*Message{}, map[string]*Enum{}
			for _, m := range sd.Messages {
				msg[m.Name] = m
			}
			for _, e := range sd.Enums {
				enum[e.Name] = e
			}
			var snaps []ftSnap
			desc := fmt.Sprintf("messages %v enums %v:", keysM(msg), keysE(enum))
			nt := false
			add := func(f *FieldType, res bool, where string) {
				snaps = append(snaps, ftSnap{ft: f, resolvable: res, where: where})
				desc += fmt.Sprintf(" %s %q", where, f.Name)
				if f.StarExpr {
					desc += "*"
				}
				if msg[f.Name] != nil || enum[f.Name] != nil {
					nt = true
				}
			}
			mk := func(where string, maps bool) *FieldType {
				f := &FieldType{Name: names[h.Rng.Intn(8)], StarExpr: h.Rng.Intn(2) == 0, ArrayType: h.Rng.Intn(3) == 0}
				if maps && h.Rng.Intn(3) == 0 {
					f = &FieldType{Map: &Map{KeyType: &FieldType{Name: h.Pick("string", "int32", "bool")}, ValueType: &FieldType{Name: names[h.Rng.Intn(8)]}}}
					f.Map.ValueType.StarExpr = msg[f.Map.ValueType.Name] != nil
					add(f, false, where+".map")
					add(f.Map.KeyType, false, where+".key")
					add(f.Map.ValueType, true, where+".value")
					return f
				}
				if h.Rng.Intn(10) == 0 {
					o := &FieldType{Name: "string"}
					f = &FieldType{Name: "isX_Y", Oneof: []*Field{{Name: "O", Type: o}}}
					add(o, false, where+".oneof")
				}
				add(f, true, where)
				return f
			}
			for _, m := range sd.Messages {
				for k := h.Rng.Intn(4); k > 0; k-- {
					m.Fields = append(m.Fields, &Field{Name: fmt.Sprintf("F%d", k), PBFieldName: fmt.Sprintf("f%d", k), Type: mk(m.Name+fmt.Sprintf(".F%d", k), true)})
				}
			}
			if h.Rng.Intn(5) > 0 {
				sd.Service = &Service{Name: "S"}
				for k := h.Rng.Intn(4); k > 0; k-- {
					w := fmt.Sprintf("rpc%d", k)
					sd.Service.Methods = append(sd.Service.Methods, &ServiceMethod{Name: w, RequestType: mk(w+".req", false), ResponseType: mk(w+".resp", false)})
				}
			}
			for k := range snaps {
				snaps[k].old = *snaps[k].ft
			}
			before := shapeOf(sd)
			h.Case("resolved", desc, nt, func() string {
				resolveTypes(sd)
				for _, s := range snaps {
					w := s.old
					if s.resolvable {
						if m := msg[w.Name]; m != nil {
							w.Message = m
						}
						if e := enum[w.Name]; e != nil {
							w.Enum = e
						}
					}
					g := *s.ft
					if g.Message != w.Message {
						return fmt.Sprintf("%s %q: message is %v, want %v", s.where, w.Name, mn(g.Message), mn(w.Message))
					}
					if g.Enum != w.Enum {
						return fmt.Sprintf("%s %q: enum is %v, want %v", s.where, w.Name, en(g.Enum), en(w.Enum))
					}
					if g.Name != w.Name || g.StarExpr != w.StarExpr || g.ArrayType != w.ArrayType || g.Map != w.Map || len(g.Oneof) != len(w.Oneof) {
						return fmt.Sprintf("%s %q: name or flags changed to %+v", s.where, w.Name, g)
					}
				}
				if a := shapeOf(sd); a != before {
					return "the definition changed: " + before + " became " + a
				}
				return ""
			})
		}
	})
}

func keysM(m map[string]*Message) (n []string) {
	for _, k := range []string{"A", "B", "C", "D", "E", "F"} {
		if m[k] != nil {
			n = append(n, k)
		}
	}
	return
}
func keysE(m map[string]*Enum) (n []string) {
	for _, k := range []string{"A", "B", "C", "D", "E", "F"} {
		if m[k] != nil {
			n = append(n, k)
		}
	}
	return
}
func mn(m *Message) string {
	if m == nil {
		return "none"
	}
	return m.Name
}
func en(m *Enum) string {
	if m == nil {
		return "none"
	}
	return m.Name
}

// shapeOf: every name, pointer and order of the definition except what resolution sets.
func shapeOf(sd *Svcdef) string {
	s := sd.PkgName
	for _, m := range sd.Messages {
		s += fmt.Sprintf(" %p %s{", m, m.Name)
		for _, f := range m.Fields {
			s += fmt.Sprintf("%p %s %s %p;", f, f.Name, f.PBFieldName, f.Type)
			if f.Type.Map != nil {
				s += fmt.Sprintf("%p %p", f.Type.Map.KeyType, f.Type.Map.ValueType)
			}
		}
		s += "}"
	}
	for _, e := range sd.Enums {
		s += fmt.Sprintf(" %p %s", e, e.Name)
	}
	if sd.Service != nil {
		s += fmt.Sprintf(" %p %s", sd.Service, sd.Service.Name)
		for _, m := range sd.Service.Methods {
			s += fmt.Sprintf(" %p %s %p %p %d", m, m.Name, m.RequestType, m.ResponseType, len(m.Bindings))
		}
	}
	return s
}
