//go:build go1.18

package service

import (
	"go/ast"
	"go/parser"
	"go/token"
	"io"

	"github.com/teamlint/baron/gengokit"
	"github.com/teamlint/baron/svcdef"
)

var _, _, _ = parser.ParseFile, token.NewFileSet, io.Copy
var _ *ast.File

// Contracts of the regeneration of the service file.

// specLastNamed: the last of the first n methods of that name.
//@ func specLastNamed(ms []*svcdef.ServiceMethod, name string, n int) (r *svcdef.ServiceMethod)
//@ dec: n
func specLastNamed(ms []*svcdef.ServiceMethod, name string, n int) *svcdef.ServiceMethod {
	if n <= 0 || n > len(ms) {
		return nil
	}
	if ms[n-1].Name == name {
		return ms[n-1]
	}
	return specLastNamed(ms, name, n-1)
}

// specMapped: the map holds the first n methods by name, and nothing else.
func specMapped(m methodMap, ms []*svcdef.ServiceMethod, n int) bool {
	return vAnyKey(m, func(name string) bool {
		x, ok := m[name]
		return ok == (specLastNamed(ms, name, n) != nil) && (!ok || x == specLastNamed(ms, name, n))
	})
}

//@ func newMethodMap(meths []*svcdef.ServiceMethod) (r methodMap)
//@ prop C14
//@ attr terminates
//@ requires set: vAll(0, len(meths), func(i int) bool { return meths[i] != nil })
//@ modifies nothing
//@ ensures new: r != nil
//@ ensures mapped: specMapped(r, meths, len(meths))
//@ inv mapped(mMap methodMap, k int): 0 <= k && k <= len(meths) && mMap != nil && specMapped(mMap, meths, k)

//@ extern go/parser.ParseFile(fset *token.FileSet, filename string, src any, mode parser.Mode) (f *ast.File, err error)
//@ modifies any ghost:reader
//@ ensures tree: err != nil || f != nil

//@ extern go/token.NewFileSet() (f *token.FileSet)
//@ ensures new: f != nil

//@ func NewService(svc *svcdef.Service, prev io.Reader) (r gengokit.Renderable, err error)
//@ prop C14,C15
//@ requires set: svc != nil && vAll(0, len(svc.Methods), func(i int) bool { return svc.Methods[i] != nil })
//@ modifies any ghost:reader
//@ ensures one: (err == nil) == (r != nil)
//@ ensures made: err != nil || specMade(r, svc, prev)

func specMade(r gengokit.Renderable, svc *svcdef.Service, prev io.Reader) bool {
	h, ok := r.(*handler)
	return ok && h != nil && h.service == svc && specMapped(h.mMap, svc.Methods, len(svc.Methods)) && (prev == nil) == (h.ast == nil)
}

// specParens: the number of parentheses around e.
//@ func specParens(e ast.Expr) (r int)
//@ attr abstract
func specParens(e ast.Expr) int { return 0 }

// specBare: e without n of the parentheses around it.
//@ func specBare(e ast.Expr, n int) (r ast.Expr)
//@ dec: n
func specBare(e ast.Expr, n int) ast.Expr {
	p, ok := e.(*ast.ParenExpr)
	if n <= 0 || !ok || p == nil {
		return e
	}
	return specBare(p.X, n-1)
}

func specSome(e ast.Expr) bool {
	p, ok := e.(*ast.ParenExpr)
	return !ok || p != nil
}

// specTree: syntax trees are finite and their parts are present.
func specTree() bool {
	return vAny(func(p *ast.ParenExpr) bool { return specSome(p.X) && specParens(p.X) >= 0 && specParens(p) == specParens(p.X)+1 }) &&
		vAny(func(p *ast.StarExpr) bool { return specSome(p.X) }) &&
		vAny(func(p *ast.SelectorExpr) bool { return p.Sel != nil })
}

//@ func unparen(e ast.Expr) (r ast.Expr)
//@ prop C14
//@ attr terminates
//@ requires tree: specTree() && specSome(e)
//@ modifies nothing
//@ ensures bare: r == specBare(e, specParens(e))
//@ inv rest(e_ ast.Expr): specSome(e_) && specBare(e_, specParens(e_)) == specBare(e, specParens(e))
//@ dec (e_ ast.Expr): specParens(e_)

// specStarred: what e points to, when e is a pointer.
func specStarred(e ast.Expr) (ast.Expr, bool) {
	e = specBare(e, specParens(e))
	if p, ok := e.(*ast.StarExpr); ok && p != nil {
		return specBare(p.X, specParens(p.X)), true
	}
	return e, false
}

// specTypeString: the type name e stands for.
func specTypeString(e ast.Expr) string {
	b, star := specStarred(e)
	prefix := ""
	if star {
		prefix = "*"
	}
	if s, ok := b.(*ast.SelectorExpr); ok && s != nil {
		if x, ok := s.X.(*ast.Ident); ok && x != nil {
			return prefix + x.Name + "." + s.Sel.Name
		}
		return ""
	}
	if x, ok := b.(*ast.Ident); ok && x != nil {
		return prefix + x.Name
	}
	return ""
}

//@ func exprString(e ast.Expr) (r string)
//@ prop C14
//@ attr terminates
//@ requires tree: specTree() && specSome(e)
//@ modifies nothing
//@ ensures name: r == specTypeString(e)

func specRecv(recv *ast.FieldList) string {
	if recv == nil || len(recv.List) == 0 || recv.List[0].Type == nil {
		return ""
	}
	return specTypeString(recv.List[0].Type)
}

func specRecvSome(recv *ast.FieldList) bool {
	return recv == nil || len(recv.List) == 0 || recv.List[0] != nil && specSome(recv.List[0].Type)
}

//@ func recvTypeToString(recv *ast.FieldList) (r string)
//@ prop C14
//@ attr terminates
//@ requires tree: specTree() && specRecvSome(recv)
//@ modifies nothing
//@ ensures name: r == specRecv(recv)

//@ extern go/ast.IsExported(name string) (r bool)
//@ pure

//@ extern (*go/ast.Ident).String(id *ast.Ident) (r string)
//@ ensures name: id == nil || r == id.Name

//@ func isValidFunc(f *ast.FuncDecl, m methodMap, svcName string) (r bool)
//@ prop C14
//@ attr terminates
//@ requires tree: specTree() && f != nil && f.Name != nil && specRecvSome(f.Recv)
//@ modifies nothing
//@ ensures valid: r == (!ast.IsExported(f.Name.Name) || m[f.Name.Name] != nil && specRecv(f.Recv) == "*"+svcName+"Service")

// specPBType: the name of the type in X.name or *X.name.
func specPBType(e ast.Expr) *ast.Ident {
	b, _ := specStarred(e)
	if s, ok := b.(*ast.SelectorExpr); ok && s != nil {
		return s.Sel
	}
	return nil
}

// specRenamed: the identifier got the name and all others kept theirs.
func specRenamed(id *ast.Ident, name string) bool {
	return vAny(func(x *ast.Ident) bool {
		if x == id {
			return x.Name == name
		}
		return x.Name == vOld(func() string { return x.Name })
	})
}

//@ func updatePBFieldType(t ast.Expr, newType string) ()
//@ prop C14
//@ attr terminates
//@ requires tree: specTree() && specSome(t)
//@ modifies any ast.Ident.Name
//@ ensures renamed: specRenamed(specPBType(t), newType)

// specFields: the number of parameters the first n fields declare.
//@ func specFields(fs []*ast.Field, n int) (r int)
//@ dec: n
func specFields(fs []*ast.Field, n int) int {
	if n <= 0 || n > len(fs) {
		return 0
	}
	if len(fs[n-1].Names) == 0 {
		return specFields(fs, n-1) + 1
	}
	return specFields(fs, n-1) + len(fs[n-1].Names)
}

func specNum(f *ast.FieldList) int {
	if f == nil {
		return 0
	}
	return specFields(f.List, len(f.List))
}

//@ extern (*go/ast.FieldList).NumFields(f *ast.FieldList) (r int)
//@ ensures sum: r == specNum(f)

// specIn: the type name of the request in the signature; specOut: of the response.
func specIn(f *ast.FuncDecl) *ast.Ident {
	if specNum(f.Type.Params) != 2 || len(f.Type.Params.List) != 2 {
		return nil
	}
	return specPBType(f.Type.Params.List[1].Type)
}

func specOut(f *ast.FuncDecl) *ast.Ident {
	if specNum(f.Type.Results) != 2 {
		return nil
	}
	return specPBType(f.Type.Results.List[0].Type)
}

func specListSome(l *ast.FieldList) bool {
	return l == nil || vAll(0, len(l.List), func(i int) bool { return l.List[i] != nil && specSome(l.List[i].Type) })
}

//@ func updateParams(f *ast.FuncDecl, m *svcdef.ServiceMethod) ()
//@ prop C14
//@ attr terminates
//@ requires tree: specTree() && f != nil && f.Name != nil && f.Type != nil && specListSome(f.Type.Params) && m != nil && m.RequestType != nil
//@ modifies any ast.Ident.Name
//@ ensures renamed: specRenamed(specIn(f), m.RequestType.Name)

//@ func updateResults(f *ast.FuncDecl, m *svcdef.ServiceMethod) ()
//@ prop C14
//@ attr terminates
//@ requires tree: specTree() && f != nil && f.Name != nil && f.Type != nil && specListSome(f.Type.Results) && m != nil && m.ResponseType != nil
//@ modifies any ast.Ident.Name
//@ ensures renamed: specRenamed(specOut(f), m.ResponseType.Name)

// specRole, specOwner: which part of which function an identifier is: its name or receiver (0), the type of its
// request (1) or of its response (2). The parts of a syntax tree are distinct.
//@ func specRole(id *ast.Ident) (r int)
//@ attr abstract
func specRole(id *ast.Ident) int { return 0 }

//@ func specOwner(id *ast.Ident) (r *ast.FuncDecl)
//@ attr abstract
func specOwner(id *ast.Ident) *ast.FuncDecl { return nil }

// specReads: the identifiers of the receiver are no request or response types.
func specReads(recv *ast.FieldList) bool {
	if recv == nil || len(recv.List) == 0 || recv.List[0].Type == nil {
		return true
	}
	b, _ := specStarred(recv.List[0].Type)
	if s, ok := b.(*ast.SelectorExpr); ok && s != nil {
		x, ok := s.X.(*ast.Ident)
		return !ok || x == nil || specRole(x) == 0 && specRole(s.Sel) == 0
	}
	x, ok := b.(*ast.Ident)
	return !ok || x == nil || specRole(x) == 0
}

// specFunc: the function is a well formed tree of its own.
func specFunc(f *ast.FuncDecl) bool {
	return f.Name != nil && specRole(f.Name) == 0 && f.Type != nil && specRecvSome(f.Recv) && specReads(f.Recv) &&
		specListSome(f.Type.Params) && specListSome(f.Type.Results) &&
		(specIn(f) == nil || specRole(specIn(f)) == 1 && specOwner(specIn(f)) == f) &&
		(specOut(f) == nil || specRole(specOut(f)) == 2 && specOwner(specOut(f)) == f)
}

// specIsHandler: f is an exported method of the service type.
func specIsHandler(f *ast.FuncDecl, svcName string) bool {
	return ast.IsExported(f.Name.Name) && specRecv(f.Recv) == "*"+svcName+"Service"
}

// specDefined: one of the first n declarations is such a method of that name.
//@ func specDefined(decls []ast.Decl, svcName string, name string, n int) (r bool)
//@ dec: n
func specDefined(decls []ast.Decl, svcName string, name string, n int) bool {
	if n <= 0 || n > len(decls) {
		return false
	}
	if f, ok := decls[n-1].(*ast.FuncDecl); ok && f != nil && f.Name.Name == name && specIsHandler(f, svcName) {
		return true
	}
	return specDefined(decls, svcName, name, n-1)
}

// specKeeps: declaration i is kept; specMethod: as the method of an rpc.
func specMethod(decls []ast.Decl, m methodMap, svcName string, i int) bool {
	f, ok := decls[i].(*ast.FuncDecl)
	return ok && m[f.Name.Name] != nil && specIsHandler(f, svcName) && !specDefined(decls, svcName, f.Name.Name, i)
}

func specKeeps(decls []ast.Decl, m methodMap, svcName string, i int) bool {
	f, ok := decls[i].(*ast.FuncDecl)
	if !ok {
		return true
	}
	if f.Name.Name == ignoredFunc && (f.Recv == nil || m[f.Name.Name] == nil || specDefined(decls, svcName, f.Name.Name, i)) {
		return true
	}
	return !ast.IsExported(f.Name.Name) || specMethod(decls, m, svcName, i)
}

// specKept: the declarations kept among the first n.
//@ func specKept(decls []ast.Decl, m methodMap, svcName string, n int) (r []ast.Decl)
//@ dec: n
func specKept(decls []ast.Decl, m methodMap, svcName string, n int) []ast.Decl {
	if n <= 0 || n > len(decls) {
		return nil
	}
	if specKeeps(decls, m, svcName, n-1) {
		return append(specKept(decls, m, svcName, n-1), decls[n-1])
	}
	return specKept(decls, m, svcName, n-1)
}

func specOldKept(decls []ast.Decl, m methodMap, svcName string, n int) []ast.Decl {
	return vOld(func() []ast.Decl { return specKept(decls, m, svcName, n) })
}

// specOpen: the rpcs without a method among the first n declarations.
func specOpen(decls []ast.Decl, m methodMap, svcName string, n int) bool {
	return vAnyKey(m, func(name string) bool {
		x, ok := m[name]

		y := vOld(func() *svcdef.ServiceMethod { return m[name] })
		was := vOld(func() bool { _, o := m[name]; return o })
		return ok == (was && !vOld(func() bool { return specDefined(decls, svcName, name, n) })) && (!ok || x == y)
	})
}

// specOthers: identifiers that are no request or response types keep their names.
func specOthers() bool {
	return vAny(func(x *ast.Ident) bool {
		return specRole(x) == 1 || specRole(x) == 2 || x.Name == vOld(func() string { return x.Name })
	})
}

//@ func (m methodMap) pruneDecls(decls []ast.Decl, svcName string) (r []ast.Decl)
//@ prop C14
//@ attr terminates
//@ attr opaque specBare,specFields
//@ requires tree: specTree()
//@ requires funcs: vAll(0, len(decls), func(i int) bool { f, ok := decls[i].(*ast.FuncDecl); return !ok || f != nil && specFunc(f) })
//@ requires rpcs: m != nil && vAnyKey(m, func(name string) bool { x, ok := m[name]; return ok == (x != nil) && (!ok || x.RequestType != nil && x.ResponseType != nil) })
//@ modifies map(m), any ast.Ident.Name
//@ ensures kept: vSame(r, specOldKept(decls, m, svcName, len(decls)))
//@ ensures open: specOpen(decls, m, svcName, len(decls))
//@ ensures others: specOthers()
//@ inv kept(newDecls []ast.Decl, k int): 0 <= k && k <= len(decls) && vSame(newDecls, specOldKept(decls, m, svcName, k))
//@ inv open(k int): 0 <= k && k <= len(decls) && specOpen(decls, m, svcName, k)
//@ inv others(): specOthers()
