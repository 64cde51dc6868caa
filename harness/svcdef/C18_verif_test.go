package svcdef

import (
	"fmt"
	"io"
	"sort"
	"strings"
	"testing"
)

// dumpDef is everything a definition says, independent of pointers and of the order of the files.
func dumpDef(sd *Svcdef) string {
	if sd == nil {
		return "nil"
	}
	var ls []string
	for _, m := range sd.Messages {
		s := "message " + m.Name + " {"
		for _, f := range m.Fields {
			s += dumpField(f) + "; "
		}
		ls = append(ls, s+"}")
	}
	for _, e := range sd.Enums {
		ls = append(ls, "enum "+e.Name)
	}
	sort.Strings(ls)
	s := "package " + sd.PkgName + "\n" + strings.Join(ls, "\n") + "\n"
	if sd.Service != nil {
		s += "service " + sd.Service.Name + "\n"
		for _, m := range sd.Service.Methods {
			s += "  " + m.Name + " " + dumpType(m.RequestType) + " -> " + dumpType(m.ResponseType)
			for _, b := range m.Bindings {
				s += " [" + b.Verb + " " + b.Path
				for _, p := range b.Params {
					s += " " + p.Field.Name + "@" + p.Location
				}
				s += "]"
			}
			s += "\n"
		}
	}
	return s
}

func dumpField(f *Field) string { return f.Name + "/" + f.PBFieldName + " " + dumpType(f.Type) }

func dumpType(t *FieldType) string {
	s := ""
	if t.ArrayType {
		s += "[]"
	}
	if t.StarExpr {
		s += "*"
	}
	s += t.Name
	if t.Message != nil {
		s += "=message " + t.Message.Name
	}
	if t.Enum != nil {
		s += "=enum " + t.Enum.Name
	}
	if t.Map != nil {
		s += "map(" + dumpType(t.Map.KeyType) + "," + dumpType(t.Map.ValueType) + ")"
	}
	if t.Oneof != nil {
		s += "oneof("
		for _, o := range t.Oneof {
			s += dumpField(o) + ","
		}
		s += ")"
	}
	return s
}

type genFile struct {
	text string
	want []string // messages and enums of this file, without resolution of names
}

type genDef struct {
	files map[string]string
	proto map[string]string
	want  string
}

func tag(wire, pb string) string {
	return "`protobuf:\"" + wire + ",1,opt,name=" + pb + ",proto3\" json:\"" + pb + ",omitempty\"`"
}

// randDef makes protoc-gen-go style files together with the definition they must give.
func randDef(h *vh) genDef {
	d := genDef{files: map[string]string{}, proto: map[string]string{}}
	nf := 1 + h.Rng.Intn(2)
	perm := h.Rng.Perm(8)
	all := []string{"User", "Item", "Order", "Req", "Resp", "Node", "Node_Leaf", "User_Inner"}
	en := []string{"Kind", "Color", "State"}
	eperm := h.Rng.Perm(3)
	nm, ne := 1+h.Rng.Intn(4), h.Rng.Intn(3)
	isMsg, isEnum := map[string]bool{}, map[string]bool{}
	for i := 0; i < nm; i++ {
		isMsg[all[perm[i]]] = true
	}
	for i := 0; i < ne; i++ {
		isEnum[en[eperm[i]]] = true
	}
	fileOf := func() int { return h.Rng.Intn(nf) }
	texts := make([]string, nf)
	var want []string
	resolved := func(n string) string {
		if isMsg[n] {
			return n + "=message " + n
		}
		if isEnum[n] {
			return n + "=enum " + n
		}
		return n
	}
	for i := 0; i < ne; i++ {
		e := en[eperm[i]]
		texts[fileOf()] += "type " + e + " int32\n\nconst (\n\t" + e + "_A " + e + " = 0\n)\n\nvar " + e + "_name = map[int32]string{0: \"A\"}\n\n"
		want = append(want, "enum "+e)
	}
	for i := 0; i < nm; i++ {
		m := all[perm[i]]
		f := fileOf()
		s := "type " + m + " struct {\n\tstate         protoimpl.MessageState\n"
		w := "message " + m + " {"
		after := ""
		for k := 0; k < h.Rng.Intn(5); k++ {
			name, pb := fmt.Sprintf("F%c", 'A'+k), fmt.Sprintf("f_%c", 'a'+k)
			tn, tw := "", ""
			base := h.Pick("string", "int64", "int32", "bool", "float64", "uint32")
			switch h.Rng.Intn(9) {
			case 0:
				tn, tw = base, base
			case 1:
				tn, tw = "*"+base, "*"+base
			case 2:
				tn, tw = "[]"+base, "[]"+base
			case 3:
				x := all[h.Rng.Intn(8)]
				tn, tw = "*"+x, "*"+resolved(x)
			case 4:
				x := all[h.Rng.Intn(8)]
				tn, tw = "[]*"+x, "[]*"+resolved(x)
			case 5:
				x := en[h.Rng.Intn(3)]
				tn, tw = x, resolved(x)
			case 6:
				x := h.Pick(all[h.Rng.Intn(8)], base)
				if isMsg[x] || !isEnum[x] && x != base {
					tn, tw = "map[string]*"+x, "map(string,*"+resolved(x)+")"
				} else {
					tn, tw = "map[string]"+x, "map(string,"+resolved(x)+")"
				}
			case 7:
				tn, tw = "[][]byte", "[][]byte"
			case 8:
				// a oneof with 1-3 alternatives
				iface := "is" + m + "_" + name
				s += "\t// Types that are assignable to " + name + ":\n\t" + name + " " + iface + " `protobuf_oneof:\"" + pb + "\"`\n"
				ow := ""
				after += "type " + iface + " interface {\n\t" + iface + "()\n}\n\n"
				meth := ""
				for a := 0; a <= h.Rng.Intn(3); a++ {
					an := fmt.Sprintf("%s%c", name, 'x'+a)
					wn := m + "_" + an
					ab := h.Pick("string", "int64", "bool")
					after += "type " + wn + " struct {\n\t" + an + " " + ab + " " + strings.Replace(tag("bytes", strings.ToLower(an)), ",proto3", ",proto3,oneof", 1) + "\n}\n\n"
					meth += "func (*" + wn + ") " + iface + "() {}\n\n"
					ow += an + "/" + strings.ToLower(an) + " " + ab + "=message " + wn + ","
				}
				after += meth
				w += name + "/" + " " + iface + "oneof(" + ow + "); "
				continue
			}
			s += "\t" + name + " " + tn + " " + tag("bytes", pb) + "\n"
			w += name + "/" + pb + " " + tw + "; "
		}
		if h.Rng.Intn(4) == 0 {
			s += "\tXXX_unrecognized []byte `json:\"-\"`\n"
		}
		s += "}\n\nfunc (x *" + m + ") Reset() {}\n\n"
		texts[f] += s + after
		if h.Rng.Intn(3) == 0 {
			texts[f] += "type hidden" + m + " struct {\n\tA int\n}\n\n"
		}
		want = append(want, w+"}")
	}
	svc := ""
	if h.Rng.Intn(4) > 0 {
		n := "Svc" + h.Pick("", "A", "B")
		s := "type " + n + "Server interface {\n"
		c := "type " + n + "Client interface {\n"
		svc = "service " + n + "\n"
		for k := 0; k < h.Rng.Intn(4); k++ {
			rn, a, b := fmt.Sprintf("Do%c", 'A'+k), all[h.Rng.Intn(8)], all[h.Rng.Intn(8)]
			s += "\t" + rn + "(context.Context, *" + a + ") (*" + b + ", error)\n"
			c += "\t" + rn + "(ctx context.Context, in *" + a + ", opts ...grpc.CallOption) (*" + b + ", error)\n"
			svc += "  " + rn + " *" + resolved(a) + " -> *" + resolved(b) + "\n"
		}
		s += "\tmustEmbedUnimplemented" + n + "Server()\n}\n\n"
		texts[fileOf()] += c + "}\n\n" + s + "type Unsafe" + n + "Server interface {\n\tmustEmbedUnimplemented" + n + "Server()\n}\n\n"
	}
	for i, t := range texts {
		d.files[fmt.Sprintf("f%d.pb.go", i)] = "package pb\n\n" + t
	}
	d.proto["a.proto"] = "syntax = \"proto3\";\npackage pb;\nmessage M { string a = 1; }\n"
	sort.Strings(want)
	d.want = "package pb\n" + strings.Join(want, "\n") + "\n" + svc
	return d
}

func (d genDef) build() (string, error) {
	g, p := map[string]io.Reader{}, map[string]io.Reader{}
	for n, t := range d.files {
		g[n] = strings.NewReader(t)
	}
	for n, t := range d.proto {
		p[n] = strings.NewReader(t)
	}
	sd, err := New(g, p)
	return dumpDef(sd), err
}

func TestVerif_C18(t *testing.T) {
	vhRun(t, "C18", "random protoc-gen-go style definitions (1-2 files, messages, enums, nested messages, repeated, map and oneof fields, a service) with the definition they describe known from the generator; each is built, then built again after 0-3 other definitions (some of them invalid Go or with a truncated service); non-trivial: other definitions were built in between", 14, 90, func(h *vh) {
		var last []genDef
		for i := 0; i < 6000 && h.More(); i++ {
			d := randDef(h)
			var names []string
			for n := range d.files {
				names = append(names, n)
			}
			sort.Strings(names)
			in := ""
			for _, n := range names {
				in += "--- " + n + "\n" + d.files[n]
			}
			if d.want == "" {
				continue
			}
			var between []genDef
			for k := h.Rng.Intn(4); k > 0; k-- {
				switch {
				case len(last) > 0 && h.Rng.Intn(3) == 0:
					between = append(between, last[h.Rng.Intn(len(last))])
				case h.Rng.Intn(4) == 0:
					b := randDef(h)
					for n, t := range b.files {
						b.files[n] = t + "type Broken struct {\n"
					}
					between = append(between, b)
				case h.Rng.Intn(4) == 0:
					b := randDef(h)
					b.proto["a.proto"] = "service Svc {\n  rpc X (M) returns (R) {\n    option (google.api.http) = {\n      get: \"/x"
					between = append(between, b)
				default:
					between = append(between, randDef(h))
				}
			}
			h.Case("definition", in, len(between) > 0, func() string {
				got, err := d.build()
				if err != nil {
					return "error: " + err.Error()
				}
				if got != d.want {
					return fmt.Sprintf("first build gives\n%s\nthe files say\n%s", got, d.want)
				}
				for _, b := range between {
					b.build()
				}
				got, err = d.build()
				if err != nil {
					return "error on a later build: " + err.Error()
				}
				if got != d.want {
					return fmt.Sprintf("after %d other definitions the build gives\n%s\nthe files say\n%s", len(between), got, d.want)
				}
				return ""
			})
			last = append(last, d)
			if len(last) > 20 {
				last = last[1:]
			}
		}
	})
}
