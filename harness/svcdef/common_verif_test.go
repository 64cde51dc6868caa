package svcdef

import (
	"fmt"
	"strings"

	"github.com/teamlint/baron/pkg"
	"github.com/teamlint/baron/svcdef/svcparse"
)

// refVars: the texts between '{' and the next '}' of a path template (without newlines in between).
func refVars(path string) []string {
	var out []string
	for i := 0; i < len(path); i++ {
		if path[i] != '{' {
			continue
		}
		j := strings.IndexByte(path[i:], '}')
		if j < 0 {
			return out
		}
		v := path[i+1 : i+j]
		if strings.Contains(v, "\n") {
			continue
		}
		out = append(out, strings.NewReplacer("{", "", "}", "").Replace(v))
		i += j
	}
	return out
}

// first component of a dotted name, camel-cased
func refFirst(s string) string {
	if i := strings.IndexByte(s, '.'); i >= 0 {
		s = s[:i]
	}
	return pkg.GoCamelCase(s)
}

func refRule(b *svcparse.HTTPBinding) (verb, path string) {
	if b.CustomHTTPPattern != nil {
		for _, f := range b.CustomHTTPPattern {
			if f.Kind == "kind" {
				verb = f.Value
			}
			if f.Kind == "path" {
				path = f.Value
			}
		}
		return
	}
	for _, f := range b.Fields {
		for _, v := range []string{"get", "put", "post", "delete", "patch"} {
			if f.Kind == v {
				return v, f.Value
			}
		}
	}
	return "", ""
}

func refLocation(field string, b *svcparse.HTTPBinding) string {
	_, path := refRule(b)
	for _, v := range refVars(path) {
		if refFirst(v) == field {
			return "path"
		}
	}
	for _, f := range b.Fields {
		if f.Kind == "body" && (f.Value == "*" || f.Value == field || refFirst(f.Value) == field) {
			return "body"
		}
	}
	return "query"
}

func showBinding(b *svcparse.HTTPBinding) string {
	var s []string
	for _, f := range b.Fields {
		s = append(s, fmt.Sprintf("%s:%q", f.Kind, f.Value))
	}
	r := "{" + strings.Join(s, " ")
	if b.CustomHTTPPattern != nil {
		r += " custom{"
		for _, f := range b.CustomHTTPPattern {
			r += fmt.Sprintf("%s:%q ", f.Kind, f.Value)
		}
		r += "}"
	}
	return r + "}"
}

func pick(h *vh, xs []string) string { return xs[h.Rng.Intn(len(xs))] }

var protoNames = []string{"a", "b", "ab", "a_b", "foo_bar", "A", "aB", "name", "_x", "x1", "foo"}

func randPath(h *vh) string {
	n := h.Rng.Intn(5)
	p := ""
	for i := 0; i < n; i++ {
		p += "/"
		switch h.Rng.Intn(6) {
		case 0, 1, 2:
			p += "{" + pick(h, protoNames) + h.Pick("", "", "", ".b", ".foo_bar.c") + "}"
		case 3:
			p += pick(h, protoNames)
		case 4:
			p += h.PickW("{"+h.Ident()+"}", "{"+h.Ident()+".x}", "v1", "x{a}y", "{a}{b}", "{}", "a.b", "{a}:undelete", "..")
		case 5:
			p += h.PickW("", "a}", "{ a }", "a b")
		}
	}
	return p
}

var verbs = []string{"get", "put", "post", "delete", "patch"}

func randBinding(h *vh) *svcparse.HTTPBinding {
	b := &svcparse.HTTPBinding{}
	add := func(k, v string) {
		b.Fields = append(b.Fields, &svcparse.Field{Name: k, Kind: k, Value: v})
	}
	body := func() {
		add("body", h.PickW("*", "a", "b", "A", "a_b", "foo_bar", "FooBar", "AB", "a.b", "foo_bar.baz", "", "zz", "*.x", "_x", ".a"))
	}
	if h.Rng.Intn(3) == 0 {
		body()
	}
	if h.Rng.Intn(8) == 0 {
		add(h.PickW("response_body", "selector", "gett", "Get", "kind", "path", "custom"), h.Pick("*", "/{a}", "b"))
	}
	for n := h.Rng.Intn(8); n > 0; n -= 4 {
		add(pick(h, verbs), randPath(h))
	}
	if h.Rng.Intn(3) == 0 {
		body()
	}
	if h.Rng.Intn(4) == 0 {
		b.CustomHTTPPattern = []*svcparse.Field{}
		for n := h.Rng.Intn(4); n > 0; n-- {
			f := &svcparse.Field{Name: "x", Kind: h.Pick("kind", "path", "path", "other", "get"), Value: "HEAD"}
			if f.Kind != "kind" {
				f.Value = randPath(h)
			}
			b.CustomHTTPPattern = append(b.CustomHTTPPattern, f)
		}
	}
	return b
}
