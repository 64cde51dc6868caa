package svcparse

import (
	"fmt"
	"strconv"
	"strings"
)

// ---- an independent description of what a token stream says (comments and white space removed) ----

type pcur struct {
	t  []TokenGroup
	i  int
	ok bool
}

func stripped(ts []TokenGroup) []TokenGroup {
	var out []TokenGroup
	for _, t := range ts {
		if t.token != WHITESPACE && t.token != COMMENT {
			out = append(out, t)
		}
	}
	return out
}
func (p *pcur) next() TokenGroup {
	if p.i >= len(p.t) {
		p.ok = false
		return TokenGroup{token: EOF}
	}
	p.i++
	return p.t[p.i-1]
}
func (p *pcur) want(tk Token, val string) string {
	g := p.next()
	if g.token != tk || val != "" && g.value != val {
		p.ok = false
	}
	return g.value
}
func (p *pcur) skipPast(val string) {
	for p.ok && p.next().value != val {
	}
}
func (p *pcur) typeName() string {
	g := p.next()
	if g.value == "stream" {
		g = p.next()
	}
	name := ""
	if g.token != IDENT {
		p.ok = false
	}
	for p.ok && g.token != CLOSE_PAREN {
		switch g.token {
		case IDENT:
			name = g.value
		case SYMBOL:
		default:
			p.ok = false
		}
		g = p.next()
	}
	return name
}
func (p *pcur) fields() (fs, custom []*Field) {
	for p.ok {
		g := p.next()
		if g.token == CLOSE_BRACE || g.value == "additional_bindings" {
			p.i--
			return
		}
		if g.value == "custom" {
			p.skipPast("{")
			custom, _ = p.fields()
			p.skipPast("}")
			continue
		}
		p.want(SYMBOL, ":")
		lit := p.want(STRING_LITERAL, "")
		if !p.ok {
			return
		}
		v, err := strconv.Unquote(lit)
		if err != nil {
			p.ok = false
			return
		}
		fs = append(fs, &Field{Name: g.value, Kind: g.value, Value: v})
	}
	return
}

// bindings of one rpc body; nil for a body without rules
func (p *pcur) bindings() []*HTTPBinding {
	g := p.next()
	if g.value == "}" {
		return nil
	}
	if g.value == "additional_bindings" {
		p.skipPast("{")
		b := &HTTPBinding{}
		b.Fields, b.CustomHTTPPattern = p.fields()
		p.skipPast("}")
		return []*HTTPBinding{b}
	}
	if g.value != "option" {
		p.ok = false
		return nil
	}
	p.skipPast("{")
	main := &HTTPBinding{}
	main.Fields, main.CustomHTTPPattern = p.fields()
	var out []*HTTPBinding
	for p.ok {
		g := p.next()
		if g.token == CLOSE_BRACE {
			return append(out, main)
		}
		if g.value != "additional_bindings" {
			p.ok = false
			return nil
		}
		p.i--
		out = append(out, p.bindings()...)
	}
	return nil
}

// method: nil without error for an rpc without rules; end at the closing brace of the service
func (p *pcur) method() (m *Method, end bool) {
	g := p.next()
	if g.token == CLOSE_BRACE {
		return nil, true
	}
	if g.token != IDENT || g.value != "rpc" {
		p.ok = false
		return nil, false
	}
	m = &Method{Name: p.want(IDENT, "")}
	p.want(OPEN_PAREN, "")
	if !p.ok {
		return nil, false
	}
	m.RequestType = p.typeName()
	p.want(IDENT, "returns")
	p.want(OPEN_PAREN, "")
	if !p.ok {
		return nil, false
	}
	m.ResponseType = p.typeName()
	g = p.next()
	if g.value == ";" {
		return nil, false
	}
	if g.token != OPEN_BRACE {
		p.ok = false
		return nil, false
	}
	m.HTTPBindings = p.bindings()
	if m.HTTPBindings == nil {
		return nil, false
	}
	p.want(SYMBOL, ";")
	p.want(CLOSE_BRACE, "")
	return m, false
}

func refService(ts []TokenGroup) (*Service, bool) {
	p := &pcur{t: stripped(ts), ok: true}
	p.want(IDENT, "service")
	s := &Service{Name: p.want(IDENT, "")}
	p.want(OPEN_BRACE, "")
	for p.ok {
		m, end := p.method()
		if !p.ok {
			break
		}
		if end {
			return s, true
		}
		if m != nil {
			s.Methods = append(s.Methods, m)
		}
	}
	return nil, false
}

func showFields(fs []*Field) string {
	var b strings.Builder
	for _, f := range fs {
		fmt.Fprintf(&b, "%s/%s=%q,", f.Name, f.Kind, f.Value)
	}
	return b.String()
}
func showBindings(bs []*HTTPBinding) string {
	var b strings.Builder
	for _, x := range bs {
		fmt.Fprintf(&b, "{%s custom %s}", showFields(x.Fields), showFields(x.CustomHTTPPattern))
	}
	return b.String()
}
func showMethod(m *Method) string {
	if m == nil {
		return "no method"
	}
	return fmt.Sprintf("%s(%s)->%s %s", m.Name, m.RequestType, m.ResponseType, showBindings(m.HTTPBindings))
}
func showSvc(s *Service) string {
	if s == nil {
		return "no service"
	}
	out := s.Name + ": "
	for _, m := range s.Methods {
		out += showMethod(m) + "; "
	}
	return out
}

// ---- random well-formed services ----

func (h *vh) ws() string {
	return h.Pick(" ", "\n", "\t", " \n  ", "  ", "\n\n")
}
func (h *vh) cmt() string {
	return h.Pick("", "", "", "// note\n", "/* n **/", "// a\n// b\n", "/* service { */ ")
}
func (h *vh) ident() string {
	return h.PickW("Get", "List_x", "a", "rpcX", "Stream", "get", "X9", "Ünï", "service", "option")
}
func (h *vh) typ() (text, name string) {
	if name = h.PickW("Req", "google", "M1", "Empty", "returns", "a_b"); name == "stream" {
		name = "streams"
	}
	text = name
	for i := h.Rng.Intn(3); i > 0; i-- {
		text = h.Pick("pkg", "google", "protobuf") + h.Pick(".", " . ") + text
	}
	if h.Rng.Intn(4) == 0 {
		text = "stream" + h.ws() + text
	}
	return
}
func (h *vh) fieldText(kinds ...string) (string, *Field) {
	k := h.PickW(kinds...)
	if k == "custom" || k == "additional_bindings" {
		k = "customs"
	}
	v := h.Pick(h.Ident(), "/v1/{a}", "*", "", "x.y", "a\\\"b", "{", "}", "a\\tb", "// no comment", "日", "/v1/{name=users/*}:get")
	u, _ := strconv.Unquote("\"" + v + "\"")
	return h.cmt() + h.ws() + k + h.Pick("", " ") + ":" + h.Pick("", " ", "\n") + "\"" + v + "\"" + h.ws(), &Field{Name: k, Kind: k, Value: u}
}
func (h *vh) bindingText() (string, *HTTPBinding) {
	b := &HTTPBinding{}
	s := ""
	for i := h.Rng.Intn(3); i >= 0; i-- {
		t, f := h.fieldText("get", "put", "post", "delete", "patch", "body")
		s += t
		b.Fields = append(b.Fields, f)
	}
	if h.Rng.Intn(4) == 0 {
		s += "custom" + h.ws() + "{"
		for i := h.Rng.Intn(2); i >= 0; i-- {
			t, f := h.fieldText("kind", "path")
			s += t
			b.CustomHTTPPattern = append(b.CustomHTTPPattern, f)
		}
		s += "}" + h.ws()
		if h.Rng.Intn(2) == 0 {
			t, f := h.fieldText("body", "get")
			s += t
			b.Fields = append(b.Fields, f)
		}
	}
	return s, b
}
func (h *vh) serviceText() (string, *Service) {
	name := h.ident()
	svc := &Service{Name: name}
	s := h.Pick("", "syntax = \"proto3\";\n", "message M { string service = 1; Service service = 2; }\n", "// service X {}\n") + "service" + h.ws() + name + h.ws() + "{" + h.ws()
	for n := h.Rng.Intn(4); n > 0; n-- {
		m := &Method{Name: h.ident()}
		rq, rn := h.typ()
		rs, sn := h.typ()
		m.RequestType, m.ResponseType = rn, sn
		s += h.cmt() + "rpc" + h.ws() + m.Name + h.Pick("", " ") + "(" + h.Pick("", " ") + rq + h.Pick("", " ") + ")" + h.ws() + "returns" + h.Pick("", " ") + "(" + rs + ")"
		switch h.Rng.Intn(6) {
		case 0:
			s += ";" + h.ws()
			continue
		case 1:
			s += " {" + h.ws() + "}" + h.ws()
			continue
		}
		s += " {" + h.ws() + h.cmt() + "option (google.api.http) = {" + h.ws()
		bt, b := h.bindingText()
		s += bt
		for k := h.Rng.Intn(3); k > 0; k-- {
			at, ab := h.bindingText()
			s += h.cmt() + "additional_bindings" + h.ws() + "{" + at + h.cmt() + "}" + h.ws()
			m.HTTPBindings = append(m.HTTPBindings, ab)
		}
		m.HTTPBindings = append(m.HTTPBindings, b)
		s += h.cmt() + "}" + h.Pick("", " ") + ";" + h.cmt() + h.ws() + "}" + h.ws()
		svc.Methods = append(svc.Methods, m)
	}
	s += "}" + h.Pick("", "\n", "\nmessage M {}\n", "// end")
	return s, svc
}

// mutateToks breaks a token list at a random place.
func (h *vh) mutateToks(ts []TokenGroup) []TokenGroup {
	out := append([]TokenGroup{}, ts...)
	for k := 1 + h.Rng.Intn(2); k > 0 && len(out) > 0; k-- {
		i := h.Rng.Intn(len(out))
		switch h.Rng.Intn(5) {
		case 0:
			out = out[:i]
		case 1:
			out = append(out[:i:i], out[i+1:]...)
		case 2:
			j := h.Rng.Intn(len(out))
			out[i], out[j] = out[j], out[i]
		case 3:
			r := h.randToks(3)
			out = append(out[:i:i], append(r, out[i:]...)...)
		case 4:
			out[i] = []TokenGroup{{CLOSE_BRACE, "}", 1}, {OPEN_BRACE, "{", 1}, {IDENT, "additional_bindings", 1}, {IDENT, "custom", 1}, {SYMBOL, ";", 1}, {SYMBOL, ":", 1}, {STRING_LITERAL, "\"q\nr\"", 1}, {IDENT, "rpc", 1}, {COMMENT, "/**/", 1}}[h.Rng.Intn(9)]
		}
	}
	return out
}
