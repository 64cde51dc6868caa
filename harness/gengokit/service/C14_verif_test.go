package service

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"io/ioutil"
	"sort"
	"strings"
	"testing"

	log "github.com/sirupsen/logrus"

	"github.com/teamlint/baron/gengokit"
	"github.com/teamlint/baron/svcdef"
)

func printNode(fset *token.FileSet, n interface{}) string {
	var b bytes.Buffer
	if err := (&printer.Config{Mode: printer.RawFormat}).Fprint(&b, fset, n); err != nil {
		return "unprintable: " + err.Error()
	}
	return strings.Join(strings.Fields(b.String()), " ")
}

func parseDecls(text string) (*token.FileSet, *ast.File, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "", text, 0)
	return fset, f, err
}

func deparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// onPointer: f is a method on *name.
func onPointer(f *ast.FuncDecl, name string) bool {
	if f.Recv == nil || len(f.Recv.List) == 0 {
		return false
	}
	st, ok := deparen(f.Recv.List[0].Type).(*ast.StarExpr)
	if !ok {
		return false
	}
	id, ok := deparen(st.X).(*ast.Ident)
	return ok && id.Name == name
}

func setType(e ast.Expr, name string) {
	e = deparen(e)
	if st, ok := e.(*ast.StarExpr); ok {
		e = deparen(st.X)
	}
	if s, ok := e.(*ast.SelectorExpr); ok {
		s.Sel.Name = name
	}
}

func count(l *ast.FieldList) int {
	if l == nil {
		return 0
	}
	n := 0
	for _, f := range l.List {
		if len(f.Names) == 0 {
			n++
		} else {
			n += len(f.Names)
		}
	}
	return n
}

// wantDecls: the declarations that stay, as printed text, and the rpcs that need a method.
func wantDecls(text string, svc *svcdef.Service) (decls []string, need []string) {
	fset, f, err := parseDecls(text)
	if err != nil {
		panic(err)
	}
	typ := strings.ToLower(svc.Name) + "Service"
	left := map[string]*svcdef.ServiceMethod{}
	for _, m := range svc.Methods {
		left[m.Name] = m
	}
	for _, d := range f.Decls {
		fn, ok := d.(*ast.FuncDecl)
		if ok && ast.IsExported(fn.Name.Name) {
			name := fn.Name.Name
			m := left[name]
			switch {
			case name == "NewService" && (fn.Recv == nil || m == nil):
			case m == nil || !onPointer(fn, typ):
				continue
			default:
				if count(fn.Type.Params) == 2 && len(fn.Type.Params.List) == 2 {
					setType(fn.Type.Params.List[1].Type, m.RequestType.Name)
				}
				if count(fn.Type.Results) == 2 {
					setType(fn.Type.Results.List[0].Type, m.ResponseType.Name)
				}
				delete(left, name)
			}
		}
		decls = append(decls, printNode(fset, d))
	}
	for n := range left {
		need = append(need, n)
	}
	sort.Strings(need)
	return
}

func randPrev(h *vh, svcName string, comments bool) string {
	c := func() string {
		if !comments || h.Rng.Intn(3) > 0 {
			return ""
		}
		return h.Pick("// a comment\n", "/* block */\n", "// x\n// y\n", "//go:noinline\n")
	}
	low := strings.ToLower(svcName)
	names := []string{"Echo", "Sum", "Ping", "GetIt", "Old", "Helper", "echo", "helper", "NewService", "String", "X"}
	s := c() + "package service\n\nimport (\n\t\"context\"\n\tpb \"x/pb\"\n)\n\n"
	if h.Rng.Intn(5) > 0 {
		s += c() + "func NewService() *" + low + "Service {\n\treturn &" + low + "Service{}\n}\n\n"
	}
	if h.Rng.Intn(5) > 0 {
		s += c() + "type " + low + "Service struct {\n\tpb.Unimplemented" + svcName + "Server\n\tN int // n\n}\n\n"
	}
	for k := h.Rng.Intn(7); k > 0; k-- {
		switch h.Rng.Intn(8) {
		case 0:
			s += c() + h.Pick("var X1 = 1", "const c = \"a\"", "type T struct{ A int }", "var (\n\ta = 1\n\tB = 2\n)", "type I interface{ Echo() }", "var f = func(a, b int) int { return a }", "var ()", "type ()", "const ()", "const (\n\tA = iota\n\tB\n)", "type A = T2", "var _ pb.EchoServer = (*T3)(nil)", "type (\n\tEcho int\n)", "func init() {\n}", "type Echo[T any] struct{ V T }") + "\n\n"
			continue
		}
		recv := h.Pick("(s *"+low+"Service)", "(s *"+low+"Service)", "(s *"+low+"Service)", "("+"*"+low+"Service)", "(s *"+svcName+"Service)", "(s "+low+"Service)", "", "(s *T)", "(s (*"+low+"Service))", "(s *pb."+low+"Service)", "(s *(("+low+"Service)))", "(o *"+low+"service)", "()", "(_ *"+low+"Service)")
		params := h.Pick("ctx context.Context, in *pb.OldReq", "ctx context.Context, in *pb.OldReq", "ctx context.Context, in pb.OldReq", "_ context.Context, in *OldReq", "", "in *pb.OldReq", "a, b *pb.OldReq", "context.Context, *pb.OldReq", "ctx context.Context, in (*pb.OldReq)", "ctx context.Context, in map[string]pb.A", "ctx context.Context, in ...*pb.OldReq", "a context.Context, b *pb.Q, c int", "x *pb.W, y *pb.OldReq")
		res := h.Pick("(*pb.OldResp, error)", "(*pb.OldResp, error)", "(resp *pb.OldResp, err error)", "", "error", "(a, b *pb.OldResp)", "(pb.OldResp, error)", "(*OldResp, error)", "(func() pb.A, error)", "(error, *pb.OldResp)")
		body := h.Pick("panic(1)", "var resp pb.OldResp\n\treturn &resp, nil", "for {\n\t\t_ = 1\n\t}", "x := pb.OldReq{} // c\n\t_ = x\n\tpanic(x)", "")
		s += c() + "func " + recv + " " + names[h.Rng.Intn(len(names))] + "(" + params + ") " + res + " {\n\t" + c() + "\t" + body + "\n}\n\n"
	}
	return s + c()
}

func newSvc(h *vh, name string) *svcdef.Service {
	svc := &svcdef.Service{Name: name}
	ms := []string{"Echo", "Sum", "Ping", "GetIt", "X", "NewService"}
	for _, i := range h.Rng.Perm(6)[:h.Rng.Intn(4)] {
		if ms[i] == "NewService" && h.Rng.Intn(4) > 0 {
			continue
		}
		svc.Methods = append(svc.Methods, &svcdef.ServiceMethod{Name: ms[i], RequestType: &svcdef.FieldType{Name: h.Pick("EchoReq", "M", "OldReq"), StarExpr: true}, ResponseType: &svcdef.FieldType{Name: h.Pick("EchoResp", "R"), StarExpr: true}})
	}
	return svc
}

func TestVerif_C14(t *testing.T) {
	log.SetOutput(ioutil.Discard)
	vhRun(t, "C14", "random previous service files (declarations of every kind; exported and unexported functions and methods with right, wrong, missing, parenthesised and qualified receivers and usual and unusual signatures, duplicates, comments) against services with 0-3 rpcs, through NewService and Render, compared declaration by declaration; and regeneration of the output; non-trivial: the service has an rpc", 20, 120, func(h *vh) {
		for i := 0; i < 12000 && h.More(); i++ {
			name := h.Pick("Echo", "FooBar", "svc")
			svc := newSvc(h, name)
			prev := randPrev(h, name, i%2 == 0)
			if _, _, err := parseDecls(prev); err != nil {
				continue
			}
			if strings.Count(prev, ") NewService(") > 1 {
				continue // a file that declares the method twice is not Go, and which of the two is user code is not defined
			}
			in := fmt.Sprintf("service %s(", name)
			for _, m := range svc.Methods {
				in += fmt.Sprintf("%s(%s)%s ", m.Name, m.RequestType.Name, m.ResponseType.Name)
			}
			in += ") previous file:\n" + prev
			h.Case("regenerate", in, len(svc.Methods) > 0, func() string { return regenCase(prev, svc, 2) })
		}
		for i := 0; i < 60; i++ {
			svc := newSvc(h, "Echo")
			h.Case("first", fmt.Sprintf("first generation with %d rpcs", len(svc.Methods)), true, func() string {
				r, err := NewService(svc, nil)
				if err != nil {
					return err.Error()
				}
				if st := r.(gengokit.RenderStatus); !st.IsFirst() {
					return "not reported as the first generation"
				}
				out, err := r.Render(ServicePath, &gengokit.Data{Service: svc, FuncMap: gengokit.FuncMap, PBImportPath: "x/pb"})
				if err != nil {
					return err.Error()
				}
				b, _ := ioutil.ReadAll(out)
				return checkOnce(string(b), svc)
			})
		}
	})
}

func checkOnce(text string, svc *svcdef.Service) string {
	_, f, err := parseDecls(text)
	if err != nil {
		return "the output is not Go: " + err.Error() + "\n" + text
	}
	for _, m := range svc.Methods {
		n := 0
		for _, d := range f.Decls {
			if fn, ok := d.(*ast.FuncDecl); ok && fn.Name.Name == m.Name && onPointer(fn, strings.ToLower(svc.Name)+"Service") {
				n++
			}
		}
		if n != 1 {
			return fmt.Sprintf("rpc %s is defined %d times in\n%s", m.Name, n, text)
		}
	}
	return ""
}

func regenCase(prev string, svc *svcdef.Service, again int) string {
	want, need := wantDecls(prev, svc)
	r, err := NewService(svc, strings.NewReader(prev))
	if err != nil {
		return "error: " + err.Error()
	}
	out, err := r.Render(ServicePath, &gengokit.Data{Service: svc, FuncMap: gengokit.FuncMap, PBImportPath: "x/pb"})
	if err != nil {
		return "error: " + err.Error()
	}
	if st := r.(gengokit.RenderStatus); st.IsFirst() || st.IsModified() != (len(need) > 0) {
		return fmt.Sprintf("status first=%v modified=%v with %d new rpcs", st.IsFirst(), st.IsModified(), len(need))
	}
	b, _ := ioutil.ReadAll(out)
	fset, f, err := parseDecls(string(b))
	if err != nil {
		return "the output is not Go: " + err.Error() + "\n" + string(b)
	}
	var got []string
	for _, d := range f.Decls {
		got = append(got, printNode(fset, d))
	}
	if len(got) < len(want) {
		return fmt.Sprintf("%d declarations are left, want %d:\n%s", len(got), len(want), b)
	}
	for i, w := range want {
		if got[i] != w {
			return fmt.Sprintf("declaration %d is\n%s\nwant\n%s", i, got[i], w)
		}
	}
	var made []string
	for _, d := range f.Decls[len(want):] {
		fn, ok := d.(*ast.FuncDecl)
		if !ok || !onPointer(fn, strings.ToLower(svc.Name)+"Service") {
			return "added something that is not a method: " + printNode(fset, d)
		}
		made = append(made, fn.Name.Name)
		for _, m := range svc.Methods {
			if m.Name == fn.Name.Name {
				sig := fmt.Sprintf("func(ctx context.Context, in *pb.%s) (*pb.%s, error)", m.RequestType.Name, m.ResponseType.Name)
				if g := printNode(fset, fn.Type); g != sig {
					return fmt.Sprintf("new method %s has type %s, want %s", m.Name, g, sig)
				}
			}
		}
	}
	sort.Strings(made)
	if strings.Join(made, " ") != strings.Join(need, " ") {
		return fmt.Sprintf("new methods %v, want %v", made, need)
	}
	if s := checkOnce(string(b), svc); s != "" {
		return s
	}
	if again > 0 {
		if s := regenCase(string(b), svc, again-1); s != "" {
			return "regenerating the result: " + s
		}
	}
	return ""
}
