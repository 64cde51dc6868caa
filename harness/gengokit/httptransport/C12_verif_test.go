package httptransport

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"testing"

	"github.com/teamlint/baron/svcdef"
)

var baseTypes = []string{"uint32", "uint64", "int32", "int64", "bool", "float32", "float64", "string"}

// refConvert: the statement that turns the string into the parser's result, and whether it can fail.
func refConvert(f Field) (string, bool) {
	t := f.GoType
	if f.IsEnum {
		t = "int32"
	}
	dst, src := f.LocalName, f.LocalName+"Str"
	switch t {
	case "string":
		return dst + " := " + src, false
	case "bool":
		return dst + ", err := strconv.ParseBool(" + src + ")", true
	}
	bits := t[len(t)-2:]
	switch {
	case strings.HasPrefix(t, "uint"):
		return dst + ", err := strconv.ParseUint(" + src + ", 10, " + bits + ")", true
	case strings.HasPrefix(t, "int"):
		return dst + ", err := strconv.ParseInt(" + src + ", 10, " + bits + ")", true
	}
	return dst + ", err := strconv.ParseFloat(" + src + ", " + bits + ")", true
}

// refAssign is the expression assigned to the field.
func refAssign(f Field) string {
	if f.Repeated {
		return f.LocalName
	}
	narrow := f.IsEnum || strings.HasSuffix(f.GoType, "32")
	e := f.LocalName
	if narrow {
		e = f.GoType + "(" + e + ")"
	}
	if f.StarExpr && (f.IsBaseType || f.IsEnum) {
		if narrow {
			return "&[]" + f.GoType + "{" + e + "}[0]"
		}
		return "&" + e
	}
	return e
}

func refZero(f Field) string {
	if f.Repeated || f.StarExpr || !f.IsBaseType && !f.IsEnum {
		return "nil"
	}
	switch f.GoType {
	case "bool":
		return "false"
	case "string":
		return `""`
	}
	return "0"
}

func TestVerif_C12(t *testing.T) {
	vhRun(t, "C12", "every combination of the eight base types, an enum, a message, bytes with optional, repeated, base flag and location (exhaustive), the same through NewBinding and as oneof options; then the generated decoders of all scalar, enum and repeated descriptions are compiled into one program and run on boundary strings of every width, compared with strconv; non-trivial: not a plain string", 20, 60, func(h *vh) {
		for _, gt := range append(append([]string{}, baseTypes...), "Kind", "Msg", "byte", "[]byte", "pkg.Msg", "") {
			for bits := 0; bits < 16; bits++ {
				for _, name := range []string{"a", "foo_bar", "X"} {
					f := Field{Name: name, QueryParamName: name, CamelName: strings.ToUpper(name), LocalName: "L" + name, Location: "query", GoType: gt,
						StarExpr: bits&1 != 0, Repeated: bits&2 != 0, IsEnum: bits&4 != 0, IsBaseType: bits&8 != 0}
					base := contains(baseTypes, gt)
					if f.IsBaseType && !base && !f.Repeated || f.IsEnum && (f.IsBaseType || base || gt != "Kind") || base != f.IsBaseType && gt != "byte" {
						continue
					}
					if gt == "" && !f.Repeated {
						continue
					}
					scalar := (base || f.IsEnum) && !f.Repeated
					h.Case("conversion", fmt.Sprintf("%+v", f), gt != "string" || bits != 8, func() string {
						conv, fail := createDecodeConvertFunc(f)
						if scalar {
							if wc, wf := refConvert(f); conv != wc || fail != wf {
								return fmt.Sprintf("conversion %q (can fail: %v), want %q (%v)", conv, fail, wc, wf)
							}
						}
						if scalar || f.Repeated {
							if got := createDecodeTypeConversion(f); got != refAssign(f) {
								return fmt.Sprintf("assigns %q, want %q", got, refAssign(f))
							}
							if got := getZeroValue(f); got != refZero(f) {
								return fmt.Sprintf("zero value %q, want %q", got, refZero(f))
							}
						} else {
							createDecodeTypeConversion(f)
							getZeroValue(f)
						}
						if strings.Contains(conv, "%!") {
							return "conversion is not code: " + conv
						}
						return ""
					})
				}
			}
		}
		bindingCases(h)
		runDecoders(h, t.TempDir())
	})
}

func contains(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

func bindingCases(h *vh) {
	type tc struct {
		ft svcdef.FieldType
	}
	var all []svcdef.FieldType
	for _, gt := range append(append([]string{}, baseTypes...), "Kind") {
		for bits := 0; bits < 4; bits++ {
			ft := svcdef.FieldType{Name: gt, StarExpr: bits&1 != 0, ArrayType: bits&2 != 0}
			if gt == "Kind" {
				ft.Enum = &svcdef.Enum{Name: "Kind"}
			}
			all = append(all, ft)
		}
	}
	for _, ft0 := range all {
		ft0 := ft0
		for _, loc := range []string{"query", "path", "body"} {
			h.Case("binding", fmt.Sprintf("NewBinding with a field of type %+v in %s", ft0, loc), true, func() string {
				ft := ft0
				meth := &svcdef.ServiceMethod{Name: "Do_it", RequestType: &svcdef.FieldType{Name: "Req"}, ResponseType: &svcdef.FieldType{Name: "Resp"}}
				meth.Bindings = []*svcdef.HTTPBinding{{Verb: "get", Path: "/x", Params: []*svcdef.HTTPParameter{{Field: &svcdef.Field{Name: "FooBar", PBFieldName: "foo_bar", Type: &ft}, Location: loc}}}}
				b := NewBinding(0, meth)
				if len(b.Fields) != 1 || len(b.OneofFields) != 0 {
					return fmt.Sprintf("%d fields and %d oneofs", len(b.Fields), len(b.OneofFields))
				}
				g := *b.Fields[0]
				w := Field{Name: "FooBar", QueryParamName: "foo_bar", CamelName: "FooBar", LowCamelName: "fooBar", LocalName: "FooBarDoIt", Location: loc, GoType: ft0.Name, StarExpr: ft0.StarExpr, IsBaseType: ft0.Enum == nil, IsEnum: ft0.Enum != nil, Repeated: ft0.ArrayType}
				w.TypeConversion = refAssign(w)
				if w.Repeated {
					w.ConvertFunc, w.ConvertFuncNeedsErrorCheck = g.ConvertFunc, g.ConvertFuncNeedsErrorCheck
				} else {
					w.ConvertFunc, w.ConvertFuncNeedsErrorCheck = refConvert(w)
				}
				if g != w {
					return fmt.Sprintf("field is %+v, want %+v", g, w)
				}
				return ""
			})
		}
		if ft0.StarExpr {
			continue
		}
		h.Case("oneof", fmt.Sprintf("NewBinding with a oneof option of type %+v", ft0), true, func() string {
			ft := ft0
			ft.Message = &svcdef.Message{Name: "Req_OptA"}
			meth := &svcdef.ServiceMethod{Name: "Do", RequestType: &svcdef.FieldType{Name: "Req"}, ResponseType: &svcdef.FieldType{Name: "Resp"}}
			of := &svcdef.Field{Name: "Choice", Type: &svcdef.FieldType{Name: "isReq_Choice", Oneof: []*svcdef.Field{{Name: "OptA", PBFieldName: "opt_a", Type: &ft}}}}
			meth.Bindings = []*svcdef.HTTPBinding{{Verb: "get", Path: "/x", Params: []*svcdef.HTTPParameter{{Field: of, Location: "query"}}}}
			b := NewBinding(0, meth)
			if len(b.Fields) != 0 || len(b.OneofFields) != 1 || len(b.OneofFields[0].Options) != 1 {
				return "the oneof did not become one oneof field with one option"
			}
			o := b.OneofFields[0]
			g := o.Options[0]
			w := Field{Name: "OptA", QueryParamName: "opt_a", CamelName: "Choice", LowCamelName: "optA", LocalName: "OptADo", GoType: ft0.Name, IsBaseType: ft0.Enum == nil, IsEnum: ft0.Enum != nil, Repeated: ft0.ArrayType}
			w.TypeConversion = "&Req_OptA{OptA: " + refAssign(w) + "}"
			w.ZeroValue = refZero(w)
			w.ConvertFunc, w.ConvertFuncNeedsErrorCheck = g.ConvertFunc, g.ConvertFuncNeedsErrorCheck
			if !w.Repeated {
				w.ConvertFunc, w.ConvertFuncNeedsErrorCheck = refConvert(w)
			}
			if o.Name != "Choice" || o.Location != "query" || g != w {
				return fmt.Sprintf("option is %+v, want %+v", g, w)
			}
			return ""
		})
	}
}

// parseRef: the decoded value as fmt.Sprint shows it, or "error".
func parseRef(t, s string) string {
	switch t {
	case "uint32":
		if v, err := strconv.ParseUint(s, 10, 32); err == nil {
			return fmt.Sprint(uint32(v))
		}
	case "uint64":
		if v, err := strconv.ParseUint(s, 10, 64); err == nil {
			return fmt.Sprint(v)
		}
	case "int32", "Kind":
		if v, err := strconv.ParseInt(s, 10, 32); err == nil {
			return fmt.Sprint(int32(v))
		}
	case "int64":
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			return fmt.Sprint(v)
		}
	case "bool":
		if v, err := strconv.ParseBool(s); err == nil {
			return fmt.Sprint(v)
		}
	case "float32":
		if v, err := strconv.ParseFloat(s, 32); err == nil {
			return fmt.Sprint(float32(v))
		}
	case "float64":
		if v, err := strconv.ParseFloat(s, 64); err == nil {
			return fmt.Sprint(v)
		}
	case "string":
		return s
	}
	return "error"
}

// runDecoders compiles the generated decoders of every scalar, enum and repeated description and runs them.
func runDecoders(h *vh, dir string) {
	vals := []string{"0", "1", "-1", "7", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551615", "18446744073709551616",
		"0x10", "010", "1_0", "3.5", "1e39", "3.4028235e38", "1e400", "0.1", "true", "false", "T", "yes", "", "abc", "a,b", " 1", "+1", "NaN"}
	type dec struct {
		f    Field
		name string
		desc string
	}
	var decs []dec
	var src bytes.Buffer
	src.WriteString("package main\n\nimport (\n\t\"encoding/json\"\n\t\"fmt\"\n\t\"strconv\"\n\t\"strings\"\n\n\t\"vdec/errors\"\n)\n\nvar _ = json.Unmarshal\nvar _ = strconv.Itoa\nvar _ = strings.Split\nvar _ = errors.Wrap\n\ntype Kind int32\n\n")
	gen := func(f Field, typ string) {
		code, err := f.GenQueryUnmarshaler()
		n := fmt.Sprintf("D%d", len(decs))
		if err != nil {
			h.Fail("decoder", fmt.Sprintf("%+v", f), "no decoder: "+err.Error())
			return
		}
		params := "map[string][]string"
		if f.Location == "path" {
			params = "map[string]string"
		}
		fmt.Fprintf(&src, "func %s(%sParams %s) (interface{}, error) {\n\tvar err error\n\tvar req struct{ FooBar %s }\n%s\n\treturn req.FooBar, err\n}\n\n", n, f.Location, params, typ, code)
		decs = append(decs, dec{f, n, fmt.Sprintf("decoder of a %s field located in the %s", typ, f.Location)})
	}
	for _, gt := range append(append([]string{}, baseTypes...), "Kind") {
		for bits := 0; bits < 8; bits++ {
			f := Field{Name: "FooBar", QueryParamName: "foo_bar", CamelName: "FooBar", LowCamelName: "fooBar", LocalName: "FooBarDo", Location: "query", GoType: gt, StarExpr: bits&1 != 0, Repeated: bits&2 != 0, IsEnum: gt == "Kind", IsBaseType: gt != "Kind"}
			if bits&4 != 0 {
				f.Location = "path"
			}
			if f.Repeated && (f.StarExpr || f.Location == "path") {
				continue
			}
			typ := gt
			if f.StarExpr {
				typ = "*" + gt
			}
			if f.Repeated {
				typ = "[]" + gt
			}
			f.ConvertFunc, f.ConvertFuncNeedsErrorCheck = createDecodeConvertFunc(f)
			f.TypeConversion = createDecodeTypeConversion(f)
			gen(f, typ)
		}
	}
	src.WriteString("func show(v interface{}, err error) string {\n\tif err != nil {\n\t\treturn \"error\"\n\t}\n\tswitch p := v.(type) {\n")
	for _, gt := range append(append([]string{}, baseTypes...), "Kind") {
		fmt.Fprintf(&src, "\tcase *%s:\n\t\tif p == nil {\n\t\t\treturn \"unset\"\n\t\t}\n\t\treturn fmt.Sprint(*p)\n", gt)
	}
	src.WriteString("\t}\n\treturn fmt.Sprint(v)\n}\n\n")
	// one output line per call
	fmt.Fprintf(&src, "var vals = []string{")
	for _, v := range vals {
		fmt.Fprintf(&src, "%q, ", v)
	}
	src.WriteString("}\n\nfunc main() {\n\tfor _, v := range vals {\n\t\tfor _, w := range append([]string{\"none\"}, vals[:5]...) {\n\t\t\t_ = w\n")
	for _, d := range decs {
		switch {
		case d.f.Location == "path":
			fmt.Fprintf(&src, "\t\t\tif w == \"none\" {\n\t\t\t\tfmt.Printf(\"%%q %%q %s %%q\\n\", v, w, show(%s(map[string]string{\"foo_bar\": v, \"FooBar\": \"5\"})))\n\t\t\t}\n", d.name, d.name)
		case d.f.Repeated:
			fmt.Fprintf(&src, "\t\t\tif w == \"none\" {\n\t\t\t\tfmt.Printf(\"%%q %%q %s %%q\\n\", v, w, show(%s(map[string][]string{\"foo_bar\": {v}})))\n\t\t\t} else {\n\t\t\t\tfmt.Printf(\"%%q %%q %s %%q\\n\", v, w, show(%s(map[string][]string{\"foo_bar\": {v, w}})))\n\t\t\t}\n", d.name, d.name, d.name, d.name)
		default:
			fmt.Fprintf(&src, "\t\t\tif w == \"none\" {\n\t\t\t\tfmt.Printf(\"%%q %%q %s %%q\\n\", v, w, show(%s(map[string][]string{\"foo_bar\": {v}, \"FooBar\": {\"5\"}})))\n\t\t\t}\n", d.name, d.name)
		}
	}
	src.WriteString("\t\t}\n\t}\n")
	for _, d := range decs {
		if d.f.Location == "query" {
			fmt.Fprintf(&src, "\tfmt.Printf(\"%%q %%q %s %%q\\n\", \"\", \"absent\", show(%s(map[string][]string{\"FooBar\": {\"5\"}})))\n", d.name, d.name)
		}
	}
	src.WriteString("}\n")
	os.MkdirAll(filepath.Join(dir, "errors"), 0755)
	os.WriteFile(filepath.Join(dir, "go.mod"), []byte("module vdec\n\ngo 1.18\n"), 0644)
	os.WriteFile(filepath.Join(dir, "errors", "e.go"), []byte("package errors\n\nimport \"fmt\"\n\nfunc Wrap(err error, m string) error {\n\tif err == nil {\n\t\treturn nil\n\t}\n\treturn fmt.Errorf(\"%s: %v\", m, err)\n}\n\nfunc Wrapf(err error, m string, a ...interface{}) error { return Wrap(err, fmt.Sprintf(m, a...)) }\n"), 0644)
	os.WriteFile(filepath.Join(dir, "main.go"), src.Bytes(), 0644)
	cmd := exec.Command("go", "run", ".")
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GO111MODULE=on", "GOWORK=off")
	var eb bytes.Buffer
	cmd.Stderr = &eb
	out, err := cmd.Output()
	if err != nil {
		msg := eb.String()
		if strings.Contains(msg, "./main.go") || strings.Contains(msg, "panic") {
			h.Fail("decoder", "the generated decoders of all scalar, enum and repeated fields", "do not compile or run: "+msg)
		} else {
			h.Note("the generated decoders could not be built here: %s", msg)
		}
		return
	}
	got := map[string]string{}
	for _, l := range strings.Split(string(out), "\n") {
		var a, b, n, r string
		if k, _ := fmt.Sscanf(l, "%q %q %s %q", &a, &b, &n, &r); k == 4 {
			got[n+"|"+a+"|"+b] = r
		}
	}
	for _, d := range decs {
		check := func(a, b, want string) {
			h.Case("decoder", fmt.Sprintf("%s, given %q and %q", d.desc, a, b), d.f.GoType != "string" || d.f.Repeated, func() string {
				g, ok := got[d.name+"|"+a+"|"+b]
				if !ok {
					return "the decoder did not run"
				}
				if g != want {
					return fmt.Sprintf("decodes to %s, want %s", g, want)
				}
				return ""
			})
		}
		for _, v := range vals {
			switch {
			case !d.f.Repeated:
				check(v, "none", parseRef(d.f.GoType, v))
			case d.f.IsBaseType:
				for _, w := range vals[:5] {
					p, q := parseRef(d.f.GoType, v), parseRef(d.f.GoType, w)
					want := "[" + p + " " + q + "]"
					if d.f.GoType != "string" && (p == "error" || q == "error") {
						want = "error"
					}
					check(v, w, want)
				}
				if d.f.GoType == "string" {
					check(v, "none", fmt.Sprint(strings.Split(v, ",")))
				} else if d.f.GoType == "bool" && v == "true" || d.f.GoType != "bool" && (v == "7" || v == "1") {
					check(v, "none", "["+parseRef(d.f.GoType, v)+"]")
				}
			}
		}
		if d.f.Location == "query" {
			want := map[string]string{"bool": "false", "string": ""}[d.f.GoType]
			if want == "" && d.f.GoType != "string" {
				want = "0"
			}
			if d.f.StarExpr {
				want = "unset"
			}
			if d.f.Repeated {
				want = "[]"
			}
			check("", "absent", want)
		}
	}
}
