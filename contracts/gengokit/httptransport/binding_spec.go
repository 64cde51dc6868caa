//go:build go1.18

package httptransport

import (
	"strconv"
	"strings"

	"github.com/teamlint/baron/pkg"
	"github.com/teamlint/baron/svcdef"
)

var _, _, _, _ = strings.Contains, strconv.Itoa, pkg.GoCamelCase, svcdef.New

// Contracts of the bindings: labels, base path and URL sections.

// specDec is the decimal form of n.
//@ func specDec(n int) (r string)
//@ dec: n
func specDec(n int) string {
	if n < 0 {
		return ""
	}
	if n < 10 {
		return specDigit(n)
	}
	return specDec(n/10) + specDigit(n%10)
}

func specDigit(n int) string { return string([]byte{byte('0' + n)}) }

//@ extern strconv.Itoa(i int) (r string)
//@ pure
//@ ensures decimal: i < 0 || r == specDec(i)

func specWord(c byte) string {
	switch c {
	case '0':
		return "Zero"
	case '1':
		return "One"
	case '2':
		return "Two"
	case '3':
		return "Three"
	case '4':
		return "Four"
	case '5':
		return "Five"
	case '6':
		return "Six"
	case '7':
		return "Seven"
	case '8':
		return "Eight"
	case '9':
		return "Nine"
	}
	return ""
}

// specEnglish spells the digits s[i:].
//@ func specEnglish(s string, i int) (r string)
//@ dec: len(s) - i
func specEnglish(s string, i int) string {
	if i < 0 || i >= len(s) {
		return ""
	}
	return specWord(s[i]) + specEnglish(s, i+1)
}

// specDigits: s[i:] is only digits.
//@ func specDigits(s string, i int) (r bool)
//@ dec: len(s) - i
func specDigits(s string, i int) bool {
	return i < 0 || i >= len(s) || '0' <= s[i] && s[i] <= '9' && specDigits(s, i+1)
}

//@ func lemmaDecDigits(n int) (r bool)
//@ lemma
//@ requires in: n >= 0
//@ ensures digits: len(specDec(n)) >= 1 && vAll(0, len(specDec(n)), func(i int) bool { return '0' <= specDec(n)[i] && specDec(n)[i] <= '9' })
//@ dec: n
func lemmaDecDigits(n int) bool {
	if n >= 10 {
		lemmaDecDigits(n / 10)
	}
	return true
}

// lemmaDecInjective: different numbers have different decimal forms.
//@ func lemmaDecInjective(a int, b int) (r bool)
//@ lemma
//@ requires in: a >= 0 && b >= 0
//@ ensures same: specDec(a) != specDec(b) || a == b
//@ dec: a
func lemmaDecInjective(a int, b int) bool {
	if a >= 10 && b >= 10 {
		lemmaDecInjective(a/10, b/10)
	}
	if a >= 10 && b < 10 {
		lemmaDecDigits(a / 10)
	}
	if a < 10 && b >= 10 {
		lemmaDecDigits(b / 10)
	}
	return true
}

// lemmaEnglishInjective: digits spelt alike are alike.
//@ func lemmaEnglishInjective(a string, b string, i int) (r bool)
//@ lemma
//@ requires in: 0 <= i && i <= len(a) && i <= len(b)
//@ requires digits: vAll(0, len(a), func(j int) bool { return '0' <= a[j] && a[j] <= '9' }) && vAll(0, len(b), func(j int) bool { return '0' <= b[j] && b[j] <= '9' })
//@ ensures same: specEnglish(a, i) != specEnglish(b, i) || a[i:] == b[i:]
//@ dec: len(a) - i
func lemmaEnglishInjective(a, b string, i int) bool {
	if i < len(a) && i < len(b) && a[i] == b[i] {
		lemmaEnglishInjective(a, b, i+1)
	}
	return true
}

//@ func EnglishNumber(i int) (r string)
//@ prop C11
//@ pure
//@ attr terminates
//@ ensures spelt: i < 0 || r == specEnglish(specDec(i), 0)
//@ inv sofar(pos int, rv string): i < 0 || lemmaDecDigits(i) && 0 <= pos && pos <= len(strconv.Itoa(i)) && rv+specEnglish(strconv.Itoa(i), pos) == specEnglish(strconv.Itoa(i), 0)

// lemmaSplitFirst: the first part ends at the first separator.
//@ func lemmaSplitFirst(s string, c byte, from int, i int) (r bool)
//@ lemma
//@ requires in: 0 <= from && from <= i && i <= len(s) && vAll(from, i, func(j int) bool { return s[j] != c })
//@ ensures some: len(specSplit(s, c, from, i)) >= 1
//@ ensures ends: specFirst(s, c, from, specSplit(s, c, from, i)[0])
//@ dec: len(s) - i
func lemmaSplitFirst(s string, c byte, from int, i int) bool {
	if i < len(s) && s[i] != c {
		lemmaSplitFirst(s, c, from, i+1)
	}
	return true
}

// specFirst: p is what precedes the first c in s[from:].
func specFirst(s string, c byte, from int, p string) bool {
	return from+len(p) <= len(s) && p == s[from:from+len(p)] && (from+len(p) == len(s) || s[from+len(p)] == c) && vAll(from, from+len(p), func(j int) bool { return s[j] != c })
}

//@ func basePath(path string) (r string)
//@ prop C11
//@ pure
//@ attr terminates
//@ ensures before: lemmaSplitFirst(path, '{', 0, 0) && specFirst(path, '{', 0, r)

//@ func LowCamelName(s string) (r string)
//@ attr terminates

// specEnum: one of the first n fields is an enum under the Go name.
//@ func specEnum(fs []*Field, name string, n int) (r bool)
//@ dec: n
func specEnum(fs []*Field, name string, n int) bool {
	if n <= 0 || n > len(fs) {
		return false
	}
	return fs[n-1].IsEnum && fs[n-1].CamelName == name || specEnum(fs, name, n-1)
}

//@ func specSection(fs []*Field, part string) (r string)
//@ attr app

// specSection is the expression that builds one part of the URL.
func specSection(fs []*Field, part string) string {
	if len(part) > 2 && part[0] == '{' && part[len(part)-1] == '}' {
		name := pkg.GoCamelCase(specBraceless(part, 0))
		if specEnum(fs, name, len(fs)) {
			return "fmt.Sprintf(\"%d\", req." + name + ")"
		}
		return "fmt.Sprint(req." + name + ")"
	}
	return "\"" + part + "\""
}

func specHasKey(m map[string]struct{}, k string) bool {
	_, ok := m[k]
	return ok
}

//@ func (b *Binding) PathSections() (r []string)
//@ prop C11
//@ attr terminates
//@ attr opaque specBraceless,specSplit,specDrop,specCamel,specTail
//@ requires set: b != nil && vAll(0, len(b.Fields), func(i int) bool { return b.Fields[i] != nil })
//@ ensures sections: len(r) == len(strings.Split(b.PathTemplate, "/")) && vAll(0, len(r), func(i int) bool { return r[i] == specSection(b.Fields, strings.Split(b.PathTemplate, "/")[i]) })
//@ inv enums@0(isEnum map[string]struct{}, k int): isEnum != nil && 0 <= k && k <= len(b.Fields) && vAnyKey(isEnum, func(n string) bool { return specHasKey(isEnum, n) == specEnum(b.Fields, n, k) })
//@ inv enumsDone@1(isEnum map[string]struct{}, rv []string, k int): isEnum != nil && vAnyKey(isEnum, func(n string) bool { return specHasKey(isEnum, n) == specEnum(b.Fields, n, len(b.Fields)) })
//@ inv sections@1(rv []string, k int): len(rv) == k && k <= len(strings.Split(b.PathTemplate, "/")) && vAll(0, k, func(i int) bool { return rv[i] == specSection(b.Fields, strings.Split(b.PathTemplate, "/")[i]) })

// specTyped: the parameters of a binding point to typed fields, and the options of a oneof to typed wrapper messages.
func specTyped(ps []*svcdef.HTTPParameter) bool {
	return vAll(0, len(ps), func(k int) bool {
		return ps[k] != nil && ps[k].Field != nil && ps[k].Field.Type != nil && !strings.Contains(ps[k].Field.Type.Name, "%") && vAll(0, len(ps[k].Field.Type.Oneof), func(o int) bool {
			return ps[k].Field.Type.Oneof[o] != nil && ps[k].Field.Type.Oneof[o].Type != nil && ps[k].Field.Type.Oneof[o].Type.Message != nil && !strings.Contains(ps[k].Field.Type.Oneof[o].Type.Name, "%")
		})
	})
}

// specPlain: the parameter is decoded as one field of the request.
func specPlain(p *svcdef.HTTPParameter) bool {
	return p.Field.Type.Oneof == nil && p.Field.Type.Name != ""
}

// specPlains counts the plain ones of the first n parameters.
//@ func specPlains(ps []*svcdef.HTTPParameter, n int) (r int)
//@ dec: n
func specPlains(ps []*svcdef.HTTPParameter, n int) int {
	if n <= 0 || n > len(ps) {
		return 0
	}
	if specPlain(ps[n-1]) {
		return specPlains(ps, n-1) + 1
	}
	return specPlains(ps, n-1)
}

//@ func lemmaPlainsMono(ps []*svcdef.HTTPParameter, j int, n int) (r bool)
//@ lemma
//@ requires in: 0 <= j && j < n && n <= len(ps)
//@ ensures less: !specPlain(ps[j]) || 0 <= specPlains(ps, j) && specPlains(ps, j) < specPlains(ps, n)
//@ dec: n
func lemmaPlainsMono(ps []*svcdef.HTTPParameter, j int, n int) bool {
	if j < n-1 {
		lemmaPlainsMono(ps, j, n-1)
	}
	if j == n-1 && j > 0 {
		lemmaPlainsPos(ps, j)
	}
	return true
}

//@ func lemmaPlainsPos(ps []*svcdef.HTTPParameter, n int) (r bool)
//@ lemma
//@ requires in: n <= len(ps)
//@ ensures pos: specPlains(ps, n) >= 0
//@ dec: n
func lemmaPlainsPos(ps []*svcdef.HTTPParameter, n int) bool {
	if n > 0 {
		lemmaPlainsPos(ps, n-1)
	}
	return true
}

// specField: the description of the field a plain parameter is decoded into.
func specField(f *Field, p *svcdef.HTTPParameter, meth string) bool {
	return f.Name == p.Field.Name && f.QueryParamName == p.Field.PBFieldName && f.CamelName == pkg.GoCamelCase(p.Field.Name) &&
		f.Location == p.Location && f.GoType == p.Field.Type.Name && f.Repeated == p.Field.Type.ArrayType && f.StarExpr == p.Field.Type.StarExpr &&
		f.IsEnum == (p.Field.Type.Enum != nil) && f.IsBaseType == (p.Field.Type.Message == nil && p.Field.Type.Enum == nil && p.Field.Type.Map == nil && pkg.IsGoBaseType(p.Field.Type.Name)) && f.LocalName == pkg.GoCamelCase(p.Field.Name)+pkg.GoCamelCase(meth)
}

//@ func specScalarDecode(enum bool, base bool, goType string, local string, code string, check bool) (r bool)
//@ attr app

// specScalarDecode: the statement that parses a field that is not repeated.
func specScalarDecode(enum, base bool, goType, local, code string, check bool) bool {
	if enum {
		return code == specParse("int32", local, local+"Str") && check
	}
	return !base || code == specParse(goType, local, local+"Str") && check == (goType != "string")
}

// specDecode: the decoding statements of the field are those of its type.
func specDecode(f *Field) bool {
	return (f.Repeated || specScalarDecode(f.IsEnum, f.IsBaseType, f.GoType, f.LocalName, f.ConvertFunc, f.ConvertFuncNeedsErrorCheck)) &&
		(!f.Repeated || f.TypeConversion == f.LocalName) &&
		(f.Repeated || f.StarExpr || f.IsEnum || specNarrow(f.GoType) || f.TypeConversion == f.LocalName) &&
		(f.Repeated || f.StarExpr || !f.IsEnum && !specNarrow(f.GoType) || f.TypeConversion == f.GoType+"("+f.LocalName+")")
}

//@ func NewBinding(i int, meth *svcdef.ServiceMethod) (r *Binding)
//@ prop C11, C12
//@ attr terminates
//@ attr opaque specCamel
//@ requires set: meth != nil && 0 <= i && i < len(meth.Bindings) && meth.Bindings[i] != nil
//@ requires typed: specTyped(meth.Bindings[i].Params)
//@ ensures new: vFresh(r)
//@ ensures label: r != nil && r.Label == meth.Name + EnglishNumber(i)
//@ ensures route: r.PathTemplate == meth.Bindings[i].Path && r.Verb == meth.Bindings[i].Verb && r.BasePath == basePath(meth.Bindings[i].Path)
//@ ensures count: len(r.Fields) == specPlains(meth.Bindings[i].Params, len(meth.Bindings[i].Params))
//@ ensures set: vAll(0, len(r.Fields), func(j int) bool { return r.Fields[j] != nil })
//@ ensures fields: vAll(0, len(meth.Bindings[i].Params), func(j int) bool { return !specPlain(meth.Bindings[i].Params[j]) || lemmaPlainsMono(meth.Bindings[i].Params, j, len(meth.Bindings[i].Params)) && specField(r.Fields[specPlains(meth.Bindings[i].Params, j)], meth.Bindings[i].Params[j], meth.Name) })
//@ inv noneI@1(nBinding *Binding, k int): nBinding != nil && len(nBinding.Fields) == 0
//@ ensures decode: vAll(0, len(r.Fields), func(j int) bool { return specDecode(r.Fields[j]) })
//@ inv decode@2(nBinding *Binding, k int): nBinding != nil && vAll(0, len(nBinding.Fields), func(j int) bool { return nBinding.Fields[j] != nil && specDecode(nBinding.Fields[j]) })
//@ inv none@0(nBinding *Binding, k int): nBinding != nil && len(nBinding.Fields) == 0
//@ inv count@2(nBinding *Binding, k int): nBinding != nil && 0 <= k && k <= len(meth.Bindings[i].Params) && len(nBinding.Fields) == specPlains(meth.Bindings[i].Params, k) && vAll(0, len(nBinding.Fields), func(j int) bool { return nBinding.Fields[j] != nil })
//@ inv fields@2(nBinding *Binding, k int): nBinding != nil && 0 <= k && k <= len(meth.Bindings[i].Params) && len(nBinding.Fields) == specPlains(meth.Bindings[i].Params, k) && vAll(0, k, func(j int) bool { return !specPlain(meth.Bindings[i].Params[j]) || lemmaPlainsMono(meth.Bindings[i].Params, j, k) && specField(nBinding.Fields[specPlains(meth.Bindings[i].Params, j)], meth.Bindings[i].Params[j], meth.Name) })

// lemmaNumbers: different numbers are spelt differently.
//@ func lemmaNumbers(a int, b int) (r bool)
//@ lemma
//@ requires in: a >= 0 && b >= 0
//@ ensures same: EnglishNumber(a) != EnglishNumber(b) || a == b
func lemmaNumbers(a, b int) bool {
	return lemmaDecDigits(a) && lemmaDecDigits(b) && lemmaDecInjective(a, b) && lemmaEnglishInjective(specDec(a), specDec(b), 0)
}

func specBinding(b *Binding, from *svcdef.HTTPBinding) bool {
	return b.PathTemplate == from.Path && b.Verb == from.Verb && b.BasePath == basePath(from.Path)
}

//@ func NewMethod(meth *svcdef.ServiceMethod) (r *Method)
//@ prop C11
//@ attr terminates
//@ requires set: meth != nil && meth.RequestType != nil && meth.ResponseType != nil && vAll(0, len(meth.Bindings), func(i int) bool { return meth.Bindings[i] != nil && specTyped(meth.Bindings[i].Params) })
//@ ensures new: vFresh(r)
//@ ensures names: r != nil && r.Name == meth.Name && r.RequestType == meth.RequestType.Name && r.ResponseType == meth.ResponseType.Name
//@ ensures all: len(r.Bindings) == len(meth.Bindings) && vAll(0, len(r.Bindings), func(i int) bool { return r.Bindings[i] != nil && specBinding(r.Bindings[i], meth.Bindings[i]) && r.Bindings[i].Parent == r })
//@ ensures labels: vAll(0, len(r.Bindings), func(i int) bool { return r.Bindings[i].Label == meth.Name+EnglishNumber(i) })
//@ ensures distinct: vAll(0, len(r.Bindings), func(i int) bool { return vAll(0, len(r.Bindings), func(j int) bool { return i == j || lemmaNumbers(i, j) && r.Bindings[i].Label != r.Bindings[j].Label }) })
//@ inv all(nMeth *Method, k int): nMeth != nil && 0 <= k && k <= len(meth.Bindings) && len(nMeth.Bindings) == k && vAll(0, k, func(i int) bool { return nMeth.Bindings[i] != nil && specBinding(nMeth.Bindings[i], meth.Bindings[i]) && nMeth.Bindings[i].Parent == nMeth })
//@ inv labels(nMeth *Method, k int): nMeth != nil && len(nMeth.Bindings) == k && vAll(0, k, func(i int) bool { return nMeth.Bindings[i] != nil && nMeth.Bindings[i].Label == meth.Name+EnglishNumber(i) })
//@ inv names(nMeth *Method, k int): nMeth != nil && nMeth.Name == meth.Name && nMeth.RequestType == meth.RequestType.Name && nMeth.ResponseType == meth.ResponseType.Name

// specBound counts the methods with a binding among the first n.
//@ func specBound(ms []*svcdef.ServiceMethod, n int) (r int)
//@ dec: n
func specBound(ms []*svcdef.ServiceMethod, n int) int {
	if n <= 0 || n > len(ms) {
		return 0
	}
	if len(ms[n-1].Bindings) > 0 {
		return specBound(ms, n-1) + 1
	}
	return specBound(ms, n-1)
}

//@ func lemmaBoundMono(ms []*svcdef.ServiceMethod, j int, n int) (r bool)
//@ lemma
//@ requires in: 0 <= j && j < n && n <= len(ms)
//@ ensures less: len(ms[j].Bindings) == 0 || 0 <= specBound(ms, j) && specBound(ms, j) < specBound(ms, n)
//@ dec: n
func lemmaBoundMono(ms []*svcdef.ServiceMethod, j int, n int) bool {
	if j < n-1 {
		lemmaBoundMono(ms, j, n-1)
	}
	if j == n-1 && j > 0 {
		lemmaBoundPos(ms, j)
	}
	return true
}

//@ func lemmaBoundPos(ms []*svcdef.ServiceMethod, n int) (r bool)
//@ lemma
//@ requires in: n <= len(ms)
//@ ensures pos: specBound(ms, n) >= 0
//@ dec: n
func lemmaBoundPos(ms []*svcdef.ServiceMethod, n int) bool {
	if n > 0 {
		lemmaBoundPos(ms, n-1)
	}
	return true
}

//@ func NewHelper(svc *svcdef.Service) (r *Helper)
//@ prop C11
//@ attr terminates
//@ requires set: svc != nil && vAll(0, len(svc.Methods), func(m int) bool { return svc.Methods[m] != nil && svc.Methods[m].RequestType != nil && svc.Methods[m].ResponseType != nil && vAll(0, len(svc.Methods[m].Bindings), func(i int) bool { return svc.Methods[m].Bindings[i] != nil && specTyped(svc.Methods[m].Bindings[i].Params) }) })
//@ ensures count: r != nil && len(r.Methods) == specBound(svc.Methods, len(svc.Methods))
//@ ensures each: vAll(0, len(svc.Methods), func(j int) bool { return len(svc.Methods[j].Bindings) == 0 || lemmaBoundMono(svc.Methods, j, len(svc.Methods)) && r.Methods[specBound(svc.Methods, j)] != nil && r.Methods[specBound(svc.Methods, j)].Name == svc.Methods[j].Name && len(r.Methods[specBound(svc.Methods, j)].Bindings) == len(svc.Methods[j].Bindings) })
//@ inv count(rv *Helper, k int): rv != nil && 0 <= k && k <= len(svc.Methods) && len(rv.Methods) == specBound(svc.Methods, k)
//@ inv each(rv *Helper, k int): rv != nil && 0 <= k && k <= len(svc.Methods) && len(rv.Methods) == specBound(svc.Methods, k) && vAll(0, k, func(j int) bool { return len(svc.Methods[j].Bindings) == 0 || lemmaBoundMono(svc.Methods, j, k) && rv.Methods[specBound(svc.Methods, j)] != nil && rv.Methods[specBound(svc.Methods, j)].Name == svc.Methods[j].Name && len(rv.Methods[specBound(svc.Methods, j)].Bindings) == len(svc.Methods[j].Bindings) })
