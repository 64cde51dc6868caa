package svcparse

import (
	"fmt"
	"strings"
)

type refUnit struct {
	start, end, lev, line int
	def, body, kw         bool
}

// refScan is the specification of a whole scan, from the spec functions of scanner_spec.go.
func refScan(c []rune) []refUnit {
	var out []refUnit
	lev, def, body := 0, false, false
	line, at := 1, 0
	for i := 0; ; {
		e := specUnitEnd(c, i)
		if e < 0 {
			return out
		}
		kw := specKeyword(c, i, e, lev)
		d2 := specDefAfter(c, i, e, lev, def)
		b2 := specBodyAfter(c, i, e, lev, def, body)
		lev = specLevAfter(c, i, e, lev)
		def, body = d2, b2
		for ; at < e; at++ {
			if c[at] == '\n' {
				line++
			}
		}
		out = append(out, refUnit{i, e, lev, line, def, body, kw})
		i = e
	}
}

func runesOf(s string) []rune {
	var out []rune
	for _, r := range s {
		out = append(out, r)
	}
	return out
}

func (h *vh) protoText() string {
	var b strings.Builder
	n := 1 + h.Rng.Intn(14)
	for i := 0; i < n; i++ {
		b.WriteString(h.Pick(h.Word(), "\"\\\r\"", "service", "service ", "service S {", "service/**/S", "rpc M (A) returns (B) {}", "}", "{", "message service {", "string service = 1;",
			"package service;", "service\n", "//c\n", "// service {\n", "/* c **/", "/***/", "/**", "*/", "\"str\"", "\"a\\\"b\"", "\"open", "/", "//", "\n", " ", "\t\r\n", "é", "_x9", "日本", "٣", "\u00a0", "=", "1", ";", "option (google.api.http) = { get: \"/v1/{a}\" body: \"*\" }"))
	}
	return b.String()
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "…"
	}
	return fmt.Sprintf("%q", s)
}
