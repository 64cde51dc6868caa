package main

import (
	"strconv"
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/teamlint/baron"

type listPkg struct {
	ImportPath string
	Export     string
	Dir        string
	GoFiles    []string
	Imports    []string
	Standard   bool
	Name       string
}

// Loaded is the repository under verification in SSA form, with the contract files type-checked into
// the packages they describe.
type Loaded struct {
	Fset      *token.FileSet
	Prog      *ssa.Program
	Pkgs      map[string]*ssa.Package // repo packages by import path
	TPkgs     map[string]*types.Package
	Contracts map[string]*Contract // by key "pkgpath.Func" or "pkgpath.(Recv).Func"
	SpecFiles map[string]bool      // file names that are contract files
	Dropped   []string             // contract functions that no longer type-check (with reason)
	Overlay   map[string]string    // generated files per package (for the runtime oracle)
	List      []listPkg
}

func goCmd(dir string, args ...string) *exec.Cmd {
	c := exec.Command("go", args...)
	c.Dir = dir
	c.Env = goEnv()
	return c
}
func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "GOTOOLCHAIN=") || strings.HasPrefix(e, "GOPATH=") || strings.HasPrefix(e, "PATH=") || strings.HasPrefix(e, "GOMODCACHE=") || strings.HasPrefix(e, "GOCACHE=") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off", "GO111MODULE=on",
		"GOPATH=/opt/vp/gopath", "GOMODCACHE=/root/go/pkg/mod", "GOCACHE=/root/.cache/go-build",
		"PATH=/opt/vp/bin:/opt/veriftools/go1.27.3/bin:"+os.Getenv("PATH"))
}

func load(repo, contractDir string, only map[string]bool) (*Loaded, error) {
	out, err := func() ([]byte, error) {
		c := goCmd(repo, "list", "-deps", "-export", "-json=ImportPath,Export,Dir,GoFiles,Imports,Standard,Name", "./...")
		var eb bytes.Buffer
		c.Stderr = &eb
		o, e := c.Output()
		if e != nil {
			return nil, fmt.Errorf("go list: %v: %s", e, eb.String())
		}
		return o, nil
	}()
	if err != nil {
		return nil, err
	}
	L := &Loaded{Fset: token.NewFileSet(), Pkgs: map[string]*ssa.Package{}, TPkgs: map[string]*types.Package{},
		Contracts: map[string]*Contract{}, SpecFiles: map[string]bool{}, Overlay: map[string]string{}}
	dec := json.NewDecoder(bytes.NewReader(out))
	exports := map[string]string{}
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		L.List = append(L.List, p)
		exports[p.ImportPath] = p.Export
	}
	gc := importer.ForCompiler(L.Fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	imp := importerFunc(func(path string) (*types.Package, error) {
		if p, ok := L.TPkgs[path]; ok {
			return p, nil
		}
		return gc.Import(path)
	})
	prog := ssa.NewProgram(L.Fset, ssa.InstantiateGenerics|ssa.GlobalDebug)
	L.Prog = prog
	created := map[*types.Package]bool{}
	var pending []func()
	var createDeps func(p *types.Package)
	createDeps = func(p *types.Package) {
		if created[p] {
			return
		}
		created[p] = true
		for _, q := range p.Imports() {
			createDeps(q)
		}
		if prog.Package(p) == nil {
			prog.CreatePackage(p, nil, nil, true)
		}
	}
	for _, lp := range L.List {
		if lp.Standard || !strings.HasPrefix(lp.ImportPath, modPath) || strings.Contains(lp.ImportPath, "/_") {
			continue
		}
		var files []*ast.File
		for _, f := range lp.GoFiles {
			af, err := parser.ParseFile(L.Fset, filepath.Join(lp.Dir, f), nil, parser.SkipObjectResolution|parser.ParseComments)
			if err != nil {
				return nil, err
			}
			files = append(files, af)
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(lp.ImportPath, modPath), "/")
		cdir := filepath.Join(contractDir, rel)
		tp, info, allFiles, err := L.typecheck(lp, files, cdir, imp)
		if err != nil {
			return nil, err
		}
		L.TPkgs[lp.ImportPath] = tp
		created[tp] = true
		pending = append(pending, func() {
			for _, q := range tp.Imports() {
				createDeps(q)
			}
			L.Pkgs[lp.ImportPath] = prog.CreatePackage(tp, allFiles, info, false)
		})
	}
	for _, f := range pending {
		f()
	}
	prog.Build()
	// bind contracts to functions
	for _, c := range L.Contracts {
		c.bind(L)
	}
	return L, nil
}

type importerFunc func(string) (*types.Package, error)

func (f importerFunc) Import(p string) (*types.Package, error) { return f(p) }

func (L *Loaded) typecheck(lp listPkg, files []*ast.File, cdir string, imp types.Importer) (*types.Package, *types.Info, []*ast.File, error) {
	// contract files of the package
	var cfiles []string
	if es, err := os.ReadDir(cdir); err == nil {
		for _, e := range es {
			if strings.HasSuffix(e.Name(), ".go") && !strings.HasSuffix(e.Name(), "_test.go") {
				cfiles = append(cfiles, filepath.Join(cdir, e.Name()))
			}
		}
	}
	sort.Strings(cfiles)
	var cs []*Contract
	imports := map[string]string{} // name -> path
	var specSrc = map[string][]byte{}
	for _, f := range cfiles {
		src, err := os.ReadFile(f)
		if err != nil {
			return nil, nil, nil, err
		}
		specSrc[f] = src
		c, err := parseContracts(f, string(src), lp.ImportPath)
		if err != nil {
			return nil, nil, nil, fmt.Errorf("%s: %v", f, err)
		}
		cs = append(cs, c...)
		af, err := parser.ParseFile(token.NewFileSet(), f, src, parser.ImportsOnly)
		if err != nil {
			return nil, nil, nil, err
		}
		for _, im := range af.Imports {
			p := strings.Trim(im.Path.Value, `"`)
			n := filepath.Base(p)
			if im.Name != nil {
				n = im.Name.Name
			}
			imports[n] = p
		}
	}
	dropped := map[string]string{}
	dropSpec := map[string]bool{}
	for attempt := 0; attempt < 40; attempt++ {
		all := append([]*ast.File{}, files...)
		if len(cfiles) > 0 {
			for _, f := range cfiles {
				if dropSpec[f] {
					continue
				}
				af, err := parser.ParseFile(L.Fset, f, specSrc[f], parser.SkipObjectResolution)
				if err != nil {
					return nil, nil, nil, err
				}
				L.SpecFiles[f] = true
				all = append(all, af)
			}
			gen, lineOf := genWrappers(lp.Name, cs, dropped, imports)
			genName := filepath.Join(cdir, "zz_gen.go")
			L.SpecFiles[genName] = true
			L.Overlay[lp.ImportPath] = gen
			af, err := parser.ParseFile(L.Fset, genName, gen, parser.SkipObjectResolution)
			if err != nil {
				return nil, nil, nil, fmt.Errorf("generated contract file: %v\n%s", err, gen)
			}
			all = append(all, af)
			_ = lineOf
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{},
			Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{}}
		var errs []types.Error
		conf := types.Config{Importer: imp, Error: func(err error) { errs = append(errs, err.(types.Error)) }}
		tp, _ := conf.Check(lp.ImportPath, L.Fset, all, info)
		if len(errs) == 0 {
			for _, c := range cs {
				if why, bad := dropped[c.Key]; bad {
					L.Dropped = append(L.Dropped, c.Key+": "+why)
					c.Broken = why
				}
				L.Contracts[c.Key] = c
			}
			return tp, info, all, nil
		}
		progress := false
		for _, e := range errs {
			pos := L.Fset.Position(e.Pos)
			if strings.HasSuffix(pos.Filename, "zz_gen.go") {
				_, lineOf := genWrappers(lp.Name, cs, dropped, imports)
				for _, c := range cs {
					r, ok := lineOf[c.Key]
					if ok && pos.Line >= r[0] && pos.Line <= r[1] {
						if _, d := dropped[c.Key]; !d {
							dropped[c.Key] = e.Msg
							progress = true
						}
					}
				}
			} else if L.SpecFiles[pos.Filename] {
				// a spec function no longer type-checks: remove that declaration (callers follow)
				if cut := cutDecl(specSrc[pos.Filename], pos.Line); cut != nil {
					specSrc[pos.Filename] = cut
					progress = true
					L.Dropped = append(L.Dropped, fmt.Sprintf("spec declaration at %s: %s", pos, e.Msg))
					break
				}
			} else {
				return nil, nil, nil, fmt.Errorf("type error in repository: %v", e)
			}
		}
		if !progress {
			return nil, nil, nil, fmt.Errorf("cannot type-check contracts of %s: %v", lp.ImportPath, errs[0])
		}
	}
	return nil, nil, nil, fmt.Errorf("cannot type-check contracts of %s", lp.ImportPath)
}

// cutDecl blanks the top-level declaration that contains the line.
func cutDecl(src []byte, line int) []byte {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", src, 0)
	if err != nil {
		return nil
	}
	for _, d := range f.Decls {
		a, b := fs.Position(d.Pos()), fs.Position(d.End())
		if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT {
			for _, sp := range gd.Specs {
				x, y := fs.Position(sp.Pos()), fs.Position(sp.End())
				if line >= x.Line && line <= y.Line { // unused import after a cut
					o := append([]byte{}, src...)
					copy(o[x.Offset:], bytes.Repeat([]byte{' '}, y.Offset-x.Offset))
					return o
				}
			}
			continue
		}
		if line >= a.Line && line <= b.Line {
			o := append([]byte{}, src...)
			for i := a.Offset; i < b.Offset; i++ {
				if o[i] != '\n' {
					o[i] = ' '
				}
			}
			return o
		}
	}
	return nil
}

// ---------- contracts ----------

type Clause struct {
	Kind   string // requires ensures inv dec hint modifies let
	Label  string
	Text   string
	Params string // for inv/dec/hint
	PNames []string
	Props  []string
	Wrap   string // wrapper function name
	Let    string // let name
	LetTyp string
	Fn     *ssa.Function
	Loop   bool // has a parameter list
	At     string // the loop it is meant for, N or $CLOSURE#N (tried first)
}

type Contract struct {
	Key, Pkg, Recv, RecvName, RecvType, Name string
	Params, Results                          string // source text of parameter and result lists
	PNames, RNames                           []string
	Clauses                                  []*Clause
	Props                                    []string
	File                                     string
	Line                                     int
	Lemma, Trusted, Pure, SpecFn, Opaque     bool
	NoSafety                                 bool
	Broken                                   string
	Fn                                       *ssa.Function
	Closure                                  int // 0 = none; k = k-th closure of the function
	ClosureSel                               string
	ModAny                                   bool
	Ext                                      string // name of the external function of an `extern` contract
	Attrs                                    map[string]string
}

var sigRe = regexp.MustCompile(`^(?:\(\s*(\w+)\s+([^)]*)\)\s*)?([\w$]+)\s*\(`)

// justProp is the property being checked; empty: all of them.
var justProp string

func parseContracts(file, src, pkg string) ([]*Contract, error) {
	var out []*Contract
	var cur *Contract
	var props []string
	var last *Clause
	for ln, line := range strings.Split(src, "\n") {
		t := strings.TrimSpace(line)
		if !strings.HasPrefix(t, "//@") {
			if t != "" && !strings.HasPrefix(t, "//") {
				cur, last = nil, nil
			}
			continue
		}
		t = strings.TrimSpace(t[3:])
		if t == "" {
			continue
		}
		kw, rest, _ := strings.Cut(t, " ")
		rest = strings.TrimSpace(rest)
		if k2 := strings.TrimSuffix(kw, ":"); k2 != kw && (k2 == "inv" || k2 == "dec" || k2 == "hint") {
			kw, rest = k2, ": "+rest
		}
		switch kw {
		case "extern":
			// extern NAME (params) (results): an assumed contract of a dependency; a method's receiver is its first parameter
			st := 0
			if strings.HasPrefix(rest, "(") {
				st = matchParen(rest, 0) + 1
			}
			ip := strings.Index(rest[st:], "(")
			if ip < 0 {
				return nil, fmt.Errorf("line %d: bad extern %q", ln+1, rest)
			}
			name, sig := strings.TrimSpace(rest[:st+ip]), rest[st+ip:]
			j := matchParen(sig, 0)
			cur = &Contract{Pkg: pkg, File: file, Line: ln + 1, Attrs: map[string]string{}, Ext: name, Trusted: true, Name: "ext_" + sanitize(name)}
			cur.Params = sig[1:j]
			r := strings.TrimSpace(sig[j+1:])
			if strings.HasPrefix(r, "(") {
				r = r[1:matchParen(r, 0)]
			} else if r != "" {
				r = "r " + r
			}
			cur.Results = r
			cur.PNames, cur.RNames = paramNames(cur.Params), paramNames(cur.Results)
			cur.Key = pkg + ":" + name
			cur.Attrs["trusted"] = "assumed contract of " + name
			out = append(out, cur)
			props, last = nil, nil
		case "func":
			m := sigRe.FindStringSubmatchIndex(rest)
			if m == nil {
				return nil, fmt.Errorf("line %d: bad signature %q", ln+1, rest)
			}
			cur = &Contract{Pkg: pkg, File: file, Line: ln + 1, Attrs: map[string]string{}}
			if m[2] >= 0 {
				cur.RecvName, cur.RecvType = rest[m[2]:m[3]], strings.TrimSpace(rest[m[4]:m[5]])
			}
			cur.Name = rest[m[6]:m[7]]
			i := m[1] - 1
			j := matchParen(rest, i)
			if j < 0 {
				return nil, fmt.Errorf("line %d: unbalanced", ln+1)
			}
			cur.Params = rest[i+1 : j]
			r := strings.TrimSpace(rest[j+1:])
			if strings.HasPrefix(r, "(") {
				r = r[1:matchParen(r, 0)]
			} else if r != "" {
				r = "r " + r
			}
			cur.Results = r
			cur.PNames, cur.RNames = paramNames(cur.Params), paramNames(cur.Results)
			cur.Key = pkg + "." + cur.Name
			if cur.RecvType != "" {
				cur.Key = pkg + ".(" + cur.RecvType + ")." + cur.Name
			}
			out = append(out, cur)
			props, last = nil, nil
		case "prop":
			props = strings.FieldsFunc(rest, func(r rune) bool { return r == ',' || r == ' ' })
			for _, p := range props {
				if !contains(cur.Props, p) {
					cur.Props = append(cur.Props, p)
				}
			}
			last = nil
		case "just":
			// the clauses that follow belong to these properties only: they are neither checked nor used for another
			l := strings.FieldsFunc(rest, func(r rune) bool { return r == ',' || r == ' ' })
			for _, p := range l {
				if !contains(cur.Props, p) {
					cur.Props = append(cur.Props, p)
				}
			}
			if justProp != "" && !contains(l, justProp) {
				cur = &Contract{Attrs: map[string]string{}}
			}
			last = nil
		case "lemma":
			cur.Lemma = true
		case "trusted":
			cur.Trusted = true
			cur.Attrs["trusted"] = rest
		case "pure":
			cur.Pure = true
		case "nosafety":
			cur.NoSafety = true
		case "attr":
			k, v, _ := strings.Cut(rest, " ")
			if v == "" {
				v = "yes"
			}
			cur.Attrs[k] = v
		case "requires", "ensures":
			last = &Clause{Kind: kw, Text: rest, Props: props}
			if m := regexp.MustCompile(`^(\w+):\s`).FindStringSubmatch(rest + " "); m != nil {
				last.Label, last.Text = m[1], strings.TrimSpace(rest[len(m[1])+1:])
			}
			cur.Clauses = append(cur.Clauses, last)
		case "let":
			m := regexp.MustCompile(`^(\w+)\s+(.*?)\s*=\s*(.*)$`).FindStringSubmatch(rest)
			if m == nil {
				return nil, fmt.Errorf("line %d: bad let", ln+1)
			}
			last = &Clause{Kind: "let", Let: m[1], LetTyp: m[2], Text: m[3]}
			cur.Clauses = append(cur.Clauses, last)
		case "modifies":
			for _, it := range splitTop(rest, ',') {
				last = &Clause{Kind: "modifies", Text: strings.TrimSpace(it)}
				cur.Clauses = append(cur.Clauses, last)
			}
			last = nil
		case "inv", "dec", "hint":
			last = &Clause{Kind: kw, Props: props}
			r := rest
			if m := regexp.MustCompile(`^(\w+(@(\$\d+#)?\d+)?)\s*\(`).FindString(r); m != "" && !strings.HasPrefix(r, "(") {
				last.Label = strings.TrimSpace(strings.TrimSuffix(m, "("))
				if l, n, ok := strings.Cut(last.Label, "@"); ok {
					last.Label = l
					last.At = n
				}
				r = strings.TrimSpace(r[len(m)-1:])
			}
			if strings.HasPrefix(r, "(") {
				j := matchParen(r, 0)
				last.Params = r[1:j]
				last.Loop = true
				last.PNames = paramNames(last.Params)
				r = strings.TrimSpace(r[j+1:])
			}
			if !strings.HasPrefix(r, ":") {
				return nil, fmt.Errorf("line %d: %s needs ':'", ln+1, kw)
			}
			last.Text = strings.TrimSpace(r[1:])
			cur.Clauses = append(cur.Clauses, last)
		default:
			if last == nil {
				return nil, fmt.Errorf("line %d: unexpected %q", ln+1, t)
			}
			last.Text += " " + t
		}
	}
	for _, c := range out {
		n := 0
		base := "vc_" + sanitize(c.RecvType) + "_" + c.Name
		for _, cl := range c.Clauses {
			cl.Wrap = strings.ReplaceAll(fmt.Sprintf("%s_%s%d", base, cl.Kind, n), "$", "_S")
			if cl.Label == "" {
				cl.Label = fmt.Sprintf("%s%d", cl.Kind, n)
			}
			n++
		}
	}
	return out, nil
}

func contains(xs []string, x string) bool {
	for _, y := range xs {
		if y == x {
			return true
		}
	}
	return false
}

func matchParen(s string, i int) int {
	d := 0
	for ; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
			if d == 0 {
				return i
			}
		case '"':
			for i++; i < len(s) && s[i] != '"'; i++ {
				if s[i] == '\\' {
					i++
				}
			}
		case '\'':
			for i++; i < len(s) && s[i] != '\''; i++ {
				if s[i] == '\\' {
					i++
				}
			}
		}
	}
	return -1
}

func splitTop(s string, sep byte) []string {
	var out []string
	d, st := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case '"':
			for i++; i < len(s) && s[i] != '"'; i++ {
				if s[i] == '\\' {
					i++
				}
			}
		default:
			if d == 0 && s[i] == sep {
				out = append(out, s[st:i])
				st = i + 1
			}
		}
	}
	return append(out, s[st:])
}

func paramNames(p string) []string {
	var out []string
	if strings.TrimSpace(p) == "" {
		return nil
	}
	for _, x := range splitTop(p, ',') {
		n, _, _ := strings.Cut(strings.TrimSpace(x), " ")
		out = append(out, n)
	}
	return out
}

// desugar rewrites top-level `a ==> b` (right associative) inside any parenthesised context.
func desugar(s string) string {
	// find "==>" at depth 0
	d := 0
	for i := 0; i+2 < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			j := matchParen(s, i)
			if j < 0 {
				return s
			}
			in := desugar(s[i+1 : j])
			if in != s[i+1:j] {
				s = s[:i+1] + in + s[j:]
				j = i + 1 + len(in)
			}
			i = j
		case '"':
			for i++; i < len(s) && s[i] != '"'; i++ {
				if s[i] == '\\' {
					i++
				}
			}
		case '\'':
			for i++; i < len(s) && s[i] != '\''; i++ {
				if s[i] == '\\' {
					i++
				}
			}
		case '=':
			if d == 0 && s[i:i+3] == "==>" {
				pre, l := splitReturn(s[:i])
				return pre + "(!(" + l + ") || (" + desugar(s[i+3:]) + "))"
			}
		}
	}
	return s
}
func splitReturn(s string) (string, string) {
	t := strings.TrimLeft(s, " ")
	if strings.HasPrefix(t, "return ") {
		return "return ", t[7:]
	}
	return "", s
}

func genWrappers(pkgName string, cs []*Contract, dropped map[string]string, imports map[string]string) (string, map[string][2]int) {
	var b bytes.Buffer
	lines := map[string][2]int{}
	var body bytes.Buffer
	line := func() int { return bytes.Count(body.Bytes(), []byte("\n")) + 1 }
	for _, c := range cs {
		if _, bad := dropped[c.Key]; bad {
			continue
		}
		st := line()
		pre := ""
		if c.RecvType != "" {
			pre = c.RecvName + " " + c.RecvType
		}
		base := joinP(pre, variadic(c.Params))
		var lets []string
		for _, cl := range c.Clauses {
			if cl.Kind == "let" {
				lets = append(lets, cl.Let+" "+cl.LetTyp)
			}
		}
		ls := strings.Join(lets, ", ")
		for _, cl := range c.Clauses {
			txt := desugar(cl.Text)
			switch cl.Kind {
			case "requires":
				fmt.Fprintf(&body, "func %s(%s) bool { return %s }\n", cl.Wrap, base, txt)
			case "let":
				fmt.Fprintf(&body, "func %s(%s) %s { return %s }\n", cl.Wrap, base, cl.LetTyp, txt)
			case "ensures":
				fmt.Fprintf(&body, "func %s(%s) bool { return %s }\n", cl.Wrap, joinP(base, c.Results, ls), txt)
			case "inv":
				fmt.Fprintf(&body, "func %s(%s) bool { return %s }\n", cl.Wrap, joinP(base, ls, cl.Params), txt)
			case "dec":
				if !cl.Loop {
					fmt.Fprintf(&body, "func %s(%s) int { return %s }\n", cl.Wrap, base, txt)
					continue
				}
				fmt.Fprintf(&body, "func %s(%s) int { return %s }\n", cl.Wrap, joinP(base, ls, cl.Params), txt)
			case "hint":
				fmt.Fprintf(&body, "func %s(%s) { %s }\n", cl.Wrap, joinP(base, ls, cl.Params), txt)
			case "modifies":
				if cl.Text == "fs" || strings.HasPrefix(cl.Text, "any ") || cl.Text == "nothing" {
					continue
				}
				e := cl.Text
				if strings.HasPrefix(e, "map(") {
					e = e[4 : len(e)-1]
				} else if strings.HasSuffix(e, ".*") {
					e = e[:len(e)-2]
				} else {
					e = "&" + e
				}
				fmt.Fprintf(&body, "func %s(%s) interface{} { return %s }\n", cl.Wrap, base, e)
			}
		}
		// entry point used by the runtime oracle
		lines[c.Key] = [2]int{st, line() - 1}
	}
	fmt.Fprintf(&b, "//go:build go1.21\n\npackage %s\n\n", pkgName)
	var names []string
	for n := range imports {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if regexp.MustCompile(`\b` + n + `\.`).MatchString(body.String()) {
			fmt.Fprintf(&b, "import %s %q\n", n, imports[n])
		}
	}
	b.WriteString("\n" + vHelpers)
	off := bytes.Count(b.Bytes(), []byte("\n"))
	for k, r := range lines {
		lines[k] = [2]int{r[0] + off, r[1] + off}
	}
	b.Write(body.Bytes())
	return b.String(), lines
}

func variadic(p string) string { return strings.ReplaceAll(p, "...", "[]") }

func joinP(ps ...string) string {
	var out []string
	for _, p := range ps {
		if strings.TrimSpace(p) != "" {
			out = append(out, p)
		}
	}
	return strings.Join(out, ", ")
}

const vHelpers = `
func vAll(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}
func vKeys[K comparable, V any](m map[K]V, f func(k K) bool) bool {
	for k := range m {
		if !f(k) {
			return false
		}
	}
	return true
}
// vSet is the set of keys a range loop over a map has visited.
type vSet[K comparable] map[K]bool

func vIn[K comparable](s vSet[K], k K) bool { return s[k] }

// vAny: f holds for every object of the type.
func vAny[T any](f func(p *T) bool) bool { return true }

// vOld is the value the expression had when the function was called.
func vOld[T any](f func() T) T { return f() }
func vFresh[T any](p *T) bool { return true }
func vAlloc[T any](p *T) bool { return true }
func vReader(r interface{}) []byte { return nil }
func vSame[T comparable](a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
// vAnyKey: f holds for every possible key, in the map or not.
func vAnyKey[K comparable, V any](m map[K]V, f func(k K) bool) bool {
	for k := range m {
		if !f(k) {
			return false
		}
	}
	return true
}
`

// bind resolves the contract's function and wrapper functions in SSA.
func (c *Contract) bind(L *Loaded) {
	sp := L.Pkgs[c.Pkg]
	if sp == nil {
		c.Broken = "package not found"
		return
	}
	if c.Ext != "" {
		for _, cl := range c.Clauses {
			cl.Fn = sp.Func(cl.Wrap)
		}
		return
	}
	c.Fn = findFunc(L, sp, c.RecvType, c.Name)
	if i := strings.Index(c.Name, "$"); i > 0 {
		c.Fn = c.findClosure(L, sp, c.Name[:i], c.Name[i+1:])
	}
	if c.Fn == nil && c.Broken == "" {
		c.Broken = "function not found in the current source"
	}
	if c.Fn != nil && c.Broken == "" {
		want := len(c.PNames)
		if c.RecvType != "" {
			want++
		}
		if len(c.Fn.Params) != want || c.Fn.Signature.Results().Len() != len(c.RNames) {
			c.Broken = "signature changed"
		}
	}
	for _, cl := range c.Clauses {
		cl.Fn = sp.Func(cl.Wrap)
	}
}

// findClosure: the k-th function literal of a function, provided it captures nothing. Should that one
// not fit, the only literal of those parameters, or the function of the name given by "attr hoisted".
func (c *Contract) findClosure(L *Loaded, sp *ssa.Package, outer, k string) *ssa.Function {
	n, _ := strconv.Atoi(k)
	var want []string
	for _, p := range splitTop(c.Params, ',') {
		f := strings.Fields(p)
		want = append(want, f[len(f)-1])
	}
	fits := func(fn *ssa.Function) bool {
		if fn == nil || len(fn.FreeVars) > 0 || len(fn.Params) != len(want) || fn.Signature.Results().Len() != len(c.RNames) {
			return false
		}
		for i, p := range fn.Params {
			t := types.TypeString(p.Type(), func(q *types.Package) string {
				if q == sp.Pkg {
					return ""
				}
				return q.Name()
			})
			if t != want[i] {
				return false
			}
		}
		return true
	}
	f := findFunc(L, sp, c.RecvType, outer)
	if f != nil {
		if n >= 1 && n <= len(f.AnonFuncs) && fits(f.AnonFuncs[n-1]) {
			return f.AnonFuncs[n-1]
		}
		var only []*ssa.Function
		for _, a := range f.AnonFuncs {
			if fits(a) {
				only = append(only, a)
			}
		}
		if len(only) == 1 {
			return only[0]
		}
	}
	if h := c.Attrs["hoisted"]; h != "" && fits(sp.Func(h)) {
		return sp.Func(h)
	}
	return nil
}

func findFunc(L *Loaded, sp *ssa.Package, recv, name string) *ssa.Function {
	if recv == "" {
		return sp.Func(name)
	}
	ptr := strings.HasPrefix(recv, "*")
	tn := sp.Type(strings.TrimPrefix(recv, "*"))
	if tn == nil {
		return nil
	}
	var t types.Type = tn.Type()
	if ptr {
		t = types.NewPointer(t)
	}
	ms := L.Prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return L.Prog.MethodValue(ms.At(i))
		}
	}
	return nil
}
