package pkg

import (
	"fmt"
	"go/token"
	"strings"
	"testing"
	"unicode"
	"unicode/utf8"
)

// References written from the protobuf name rules, not from the code.

func refSanitized(s string) string {
	var b strings.Builder
	for _, r := range s {
		if unicode.IsLetter(r) || unicode.IsDigit(r) {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	x := b.String()
	r, _ := utf8.DecodeRuneInString(x)
	if token.IsKeyword(x) || x == "" || !unicode.IsLetter(r) {
		return "_" + x
	}
	return x
}

func asciiOnly(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 128 {
			return false
		}
	}
	return true
}

// words capitalises the first letter of every '_'-separated part and joins the parts.
func words(s string, lower bool) string {
	var b strings.Builder
	for _, p := range strings.Split(s, "_") {
		if p == "" {
			continue
		}
		rest := p[1:]
		if lower {
			rest = strings.ToLower(rest)
		}
		b.WriteString(strings.ToUpper(p[:1]) + rest)
	}
	return b.String()
}

// jsonCamel: a lower-case letter after one or more underscores is capitalised, underscores go.
func jsonCamel(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '_':
		case i > 0 && s[i-1] == '_' && 'a' <= s[i] && s[i] <= 'z':
			b.WriteByte(s[i] - 'a' + 'A')
		default:
			b.WriteByte(s[i])
		}
	}
	return b.String()
}

func jsonSnake(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if 'A' <= s[i] && s[i] <= 'Z' {
			b.WriteString("_")
			b.WriteByte(s[i] - 'A' + 'a')
		} else {
			b.WriteByte(s[i])
		}
	}
	return b.String()
}

// trimEnum: remove from the front of s the letters of p, ignoring underscores and case; then the
// underscores that follow; all of it only when the prefix matches and something remains.
func trimEnum(s, p string) string {
	i := 0
	for j := 0; j < len(p); {
		if i == len(s) {
			return s
		}
		if s[i] == '_' {
			i++
			continue
		}
		c := s[i]
		if c >= 128 {
			if unicode.ToLower(rune(c)) != rune(p[j]) {
				return s
			}
		} else if strings.ToLower(string(rune(c))) != string(rune(p[j])) {
			return s
		}
		i++
		j++
	}
	for i < len(s) && s[i] == '_' {
		i++
	}
	if i == len(s) {
		return s
	}
	return s[i:]
}

func diff(got, want string) string {
	if got != want {
		return fmt.Sprintf("got %q, want %q", got, want)
	}
	return ""
}

func TestVerif_C02(t *testing.T) {
	vhRun(t, "C02", "every string over {a,b,z,A,Z,0,_,-,0x80} up to length 4 for each helper, then random strings, every Go keyword, and every enum name pair over {a,B,_} up to length 5/3; non-trivial: at least two characters", 12, 90, func(h *vh) {
		one := func(s string) bool {
			nt := len(s) > 1
			h.Case("jsonName", fmt.Sprintf("JSONCamelCase(%q)", s), nt, func() string { return diff(JSONCamelCase(s), jsonCamel(s)) })
			h.Case("snake", fmt.Sprintf("JSONSnakeCase(%q)", s), nt, func() string { return diff(JSONSnakeCase(s), jsonSnake(s)) })
			h.Case("mapEntry", fmt.Sprintf("MapEntryName(%q)", s), nt, func() string {
				if got := MapEntryName(s); asciiOnly(s) {
					return diff(got, words(s, false)+"Entry")
				}
				return ""
			})
			h.Case("enumValue", fmt.Sprintf("EnumValueName(%q)", s), nt, func() string {
				if got := EnumValueName(s); asciiOnly(s) {
					return diff(got, words(s, true))
				}
				return ""
			})
			h.Case("sanitized", fmt.Sprintf("GoSanitized(%q)", s), nt, func() string { return diff(GoSanitized(s), refSanitized(s)) })
			return h.More()
		}
		enum := func(s, p string) bool {
			h.Case("trimmed", fmt.Sprintf("TrimEnumPrefix(%q, %q)", s, p), len(s) > 1 && len(p) > 0, func() string {
				r := TrimEnumPrefix(s, p)
				if !strings.HasSuffix(s, r) || s != "" && r == "" {
					return fmt.Sprintf("got %q, not a non-empty suffix", r)
				}
				return diff(r, trimEnum(s, p))
			})
			return h.More()
		}
		for k := token.BREAK; k <= token.VAR; k++ {
			for _, s := range []string{k.String(), k.String() + "1", strings.ToUpper(k.String()), "_" + k.String()} {
				one(s)
			}
		}
		for _, s := range []string{"bool", "true", "nil", "_", "", "é1", "1é", "世界", "\u0660a", "a\u0660", "aǅ", "\xff\xfe", "a b.c/d", "ǆx", "ß"} {
			one(s)
		}
		AllStrings("abzAZ0_-\x80", 4, one)
		AllStrings("aB_", 5, func(s string) bool {
			return AllStrings("ab", 3, func(p string) bool { return enum(s, p) })
		})
		for i := 0; i < 20000 && h.More(); i++ {
			one(h.Mix("abcxyzABCXYZ0189_____.-/ \x7f\x80\xff\u00e9", 24))
			enum(h.Str("abAB__", 14), h.Str("ab", 6))
			// the prefix written with other case and underscores, then a rest
			p := h.Str("abc9", 5)
			s := ""
			for _, c := range p {
				s += h.Pick("", "_", "__") + h.Pick(string(c), strings.ToUpper(string(c)))
			}
			enum(s+h.Pick("", "_", "__", "_x", "__Y_z", "q", "_0"), p)
			// round trip
			name := h.Pick("a", "b9", "zz", "0")
			for n := h.Rng.Intn(5); n > 0; n-- {
				name += h.Pick("a", "z0", "_b", "_cd", "9")
			}
			h.Case("back", fmt.Sprintf("JSONSnakeCase(JSONCamelCase(%q))", name), true, func() string { return diff(JSONSnakeCase(JSONCamelCase(name)), name) })
		}
	})
}
