//go:build go1.18

package svcdef

import (
	"regexp"
	"strings"

	"github.com/teamlint/baron/pkg"
	"github.com/teamlint/baron/svcdef/svcparse"
)

var _, _, _ = strings.Contains, regexp.MustCompile, pkg.GoCamelCase

// Contracts of the consolidation of HTTP rules with the Go definition.

// specSplit: the parts of s[from:] between bytes c; no byte of s[from:i] is c.
//@ func specSplit(s string, c byte, from int, i int) (r []string)
//@ dec: len(s) - i
func specSplit(s string, c byte, from int, i int) []string {
	if from < 0 || from > i || from > len(s) {
		return nil
	}
	if i >= len(s) {
		return []string{s[from:]}
	}
	if s[i] == c {
		return append([]string{s[from:i]}, specSplit(s, c, i+1, i+1)...)
	}
	return specSplit(s, c, from, i+1)
}

// specBefore: s up to the first c at or after i.
//@ func specBefore(s string, c byte, i int) (r string)
//@ dec: len(s) - i
func specBefore(s string, c byte, i int) string {
	if i < 0 || i >= len(s) {
		return s
	}
	if s[i] == c {
		return s[:i]
	}
	return specBefore(s, c, i+1)
}

//@ extern strings.Split(s string, sep string) (r []string)
//@ pure
//@ ensures some: sep == "" || len(r) >= 1
//@ ensures parts: len(sep) != 1 || vSame(r, specSplit(s, sep[0], 0, 0))
//@ ensures first: len(sep) != 1 || lemmaSplitBefore(s, sep[0], 0) && r[0] == specBefore(s, sep[0], 0)

//@ func lemmaSplitBefore(s string, c byte, i int) (r bool)
//@ lemma
//@ requires in: 0 <= i && i <= len(s)
//@ ensures first: len(specSplit(s, c, 0, i)) >= 1 && specSplit(s, c, 0, i)[0] == specBefore(s, c, i)
//@ dec: len(s) - i
func lemmaSplitBefore(s string, c byte, i int) bool {
	if i < len(s) {
		lemmaSplitBefore(s, c, i+1)
	}
	return true
}

//@ extern regexp.MustCompile(str string) (r *regexp.Regexp)
//@ pure
//@ ensures set: r != nil

// specClose: the first '}' at or after i on the same line, or -1.
//@ func specClose(s string, i int) (r int)
//@ dec: len(s) - i
func specClose(s string, i int) int {
	if i < 0 || i >= len(s) || s[i] == '\n' {
		return -1
	}
	if s[i] == '}' {
		return i
	}
	return specClose(s, i+1)
}

// specBraced: the '{...}' variables of s[i:], braces included.
//@ func specBraced(s string, i int) (r []string)
//@ dec: len(s) - i
func specBraced(s string, i int) []string {
	if i < 0 || i >= len(s) {
		return nil
	}
	if e := specClose(s, i+1); s[i] == '{' && e > i {
		return append([]string{s[i : e+1]}, specBraced(s, e+1)...)
	}
	return specBraced(s, i+1)
}

// specBraceless: s[i:] without braces.
//@ func specBraceless(s string, i int) (r string)
//@ dec: len(s) - i
func specBraceless(s string, i int) string {
	if i < 0 || i >= len(s) {
		return ""
	}
	if s[i] == '{' || s[i] == '}' {
		return specBraceless(s, i+1)
	}
	return s[i:i+1] + specBraceless(s, i+1)
}

// The two patterns mean what they say in the syntax of package regexp.

//@ extern (*regexp.Regexp).FindAllString(re *regexp.Regexp, s string, n int) (r []string)
//@ pure
//@ ensures braced: re != regexp.MustCompile("{(.*?)}") || n >= 0 || vSame(r, specBraced(s, 0))

//@ extern (*regexp.Regexp).ReplaceAllString(re *regexp.Regexp, src string, with string) (r string)
//@ pure
//@ ensures bare: re != regexp.MustCompile("{|}") || with != "" || r == specBraceless(src, 0)

// specBare: the names in the first n variables.
//@ func specBare(vars []string, n int) (r []string)
//@ dec: n
func specBare(vars []string, n int) []string {
	if n <= 0 || n > len(vars) {
		return nil
	}
	return append(specBare(vars, n-1), specBraceless(vars[n-1], 0))
}

func specFields(fs []*svcparse.Field) bool {
	return vAll(0, len(fs), func(i int) bool { return fs[i] != nil })
}

// specRule: a rule without missing fields.
func specRule(b *svcparse.HTTPBinding) bool {
	return b != nil && specFields(b.Fields) && specFields(b.CustomHTTPPattern)
}

// specLastOf: the value of the last of the first n fields with that key.
//@ func specLastOf(fs []*svcparse.Field, kind string, n int) (r string)
//@ dec: n
func specLastOf(fs []*svcparse.Field, kind string, n int) string {
	if n <= 0 || n > len(fs) {
		return ""
	}
	if fs[n-1].Kind == kind {
		return fs[n-1].Value
	}
	return specLastOf(fs, kind, n-1)
}

func specIsVerb(kind string) bool {
	return kind == "get" || kind == "put" || kind == "post" || kind == "delete" || kind == "patch"
}

// specVerbAt: the first field at or after i whose key is a verb, or the number of fields.
//@ func specVerbAt(fs []*svcparse.Field, i int) (r int)
//@ dec: len(fs) - i
func specVerbAt(fs []*svcparse.Field, i int) int {
	if i < 0 || i >= len(fs) {
		return len(fs)
	}
	if specIsVerb(fs[i].Kind) {
		return i
	}
	return specVerbAt(fs, i+1)
}

//@ func specVerb(b *svcparse.HTTPBinding) (r string)
//@ attr app

func specVerb(b *svcparse.HTTPBinding) string {
	if b.CustomHTTPPattern != nil {
		return specLastOf(b.CustomHTTPPattern, "kind", len(b.CustomHTTPPattern))
	}
	i := specVerbAt(b.Fields, 0)
	if i < 0 || i >= len(b.Fields) {
		return ""
	}
	return b.Fields[i].Kind
}

//@ func specPath(b *svcparse.HTTPBinding) (r string)
//@ attr app

func specPath(b *svcparse.HTTPBinding) string {
	if b.CustomHTTPPattern != nil {
		return specLastOf(b.CustomHTTPPattern, "path", len(b.CustomHTTPPattern))
	}
	i := specVerbAt(b.Fields, 0)
	if i < 0 || i >= len(b.Fields) {
		return ""
	}
	return b.Fields[i].Value
}

//@ func getVerb(binding *svcparse.HTTPBinding) (verb string, path string)
//@ prop C08, C09
//@ attr terminates
//@ requires rule: specRule(binding)
//@ ensures verb: verb == specVerb(binding)
//@ ensures path: path == specPath(binding)
//@ inv custom@0(verb string, path string, k int): 0 <= k && k <= len(binding.CustomHTTPPattern) && verb == specLastOf(binding.CustomHTTPPattern, "kind", k) && path == specLastOf(binding.CustomHTTPPattern, "path", k)
//@ inv plain@1(k int): 0 <= k && k <= len(binding.Fields) && specVerbAt(binding.Fields, k) == specVerbAt(binding.Fields, 0)

// specVars: the names in the variables of the rule's path.
func specVars(b *svcparse.HTTPBinding) []string {
	return specBare(specBraced(specPath(b), 0), len(specBraced(specPath(b), 0)))
}

//@ func getPathParams(binding *svcparse.HTTPBinding) (r []string)
//@ prop C08
//@ attr terminates
//@ requires rule: specRule(binding)
//@ ensures vars: vSame(r, specVars(binding))
//@ inv vars(rv []string, k int): 0 <= k && k <= len(specBraced(specPath(binding), 0)) && vSame(rv, specBare(specBraced(specPath(binding), 0), k))

// specNamed: the camel-cased first component of the name is that of the field.
func specNamed(name string, field string) bool {
	return pkg.GoCamelCase(specBefore(name, '.', 0)) == field
}

// specAmong: one of the names at or after i is the field's.
//@ func specAmong(names []string, field string, i int) (r bool)
//@ dec: len(names) - i
func specAmong(names []string, field string, i int) bool {
	if i < 0 || i >= len(names) {
		return false
	}
	return specNamed(names[i], field) || specAmong(names, field, i+1)
}

// specBody: one of the fields at or after i is a body option that covers the field.
//@ func specBody(fs []*svcparse.Field, field string, i int) (r bool)
//@ dec: len(fs) - i
func specBody(fs []*svcparse.Field, field string, i int) bool {
	if i < 0 || i >= len(fs) {
		return false
	}
	return fs[i].Kind == "body" && (fs[i].Value == "*" || fs[i].Value == field || specNamed(fs[i].Value, field)) || specBody(fs, field, i+1)
}

//@ func specLocation(field string, b *svcparse.HTTPBinding) (r string)
//@ attr app

func specLocation(field string, b *svcparse.HTTPBinding) string {
	if specAmong(specVars(b), field, 0) {
		return "path"
	}
	if specBody(b.Fields, field, 0) {
		return "body"
	}
	return "query"
}

//@ func paramLocation(field *Field, binding *svcparse.HTTPBinding) (r string)
//@ prop C08, C09
//@ attr terminates
//@ requires set: field != nil && specRule(binding)
//@ ensures one: r == specLocation(field.Name, binding)
//@ inv path@0(k int): 0 <= k && k <= len(specVars(binding)) && specAmong(specVars(binding), field.Name, k) == specAmong(specVars(binding), field.Name, 0)
//@ inv body@1(k int): 0 <= k && k <= len(binding.Fields) && !specAmong(specVars(binding), field.Name, 0) && specBody(binding.Fields, field.Name, k) == specBody(binding.Fields, field.Name, 0)
