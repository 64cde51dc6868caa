package pkg

import (
	"go/token"
	"strings"
	"unicode"
	"unicode/utf8"
)

// Contracts of the JSON, map entry and enum naming helpers of pkg/strs.go.

var _, _, _, _ = unicode.ToUpper, strings.TrimLeft, token.Lookup, utf8.RuneError

// specJSONCamel is the JSON name of s[i:], where u tells that an underscore precedes s[i].
//@ func specJSONCamel(s string, i int, u bool) (r string)
//@ dec: len(s) - i
func specJSONCamel(s string, i int, u bool) string {
	if i < 0 || i >= len(s) {
		return ""
	}
	if s[i] == '_' {
		return specJSONCamel(s, i+1, true)
	}
	if u {
		return string([]byte{specUp(s[i])}) + specJSONCamel(s, i+1, false)
	}
	return s[i:i+1] + specJSONCamel(s, i+1, false)
}

//@ func specJSONSnake(s string) (r string)
//@ dec: len(s)
func specJSONSnake(s string) string {
	if len(s) == 0 {
		return ""
	}
	if specUpper(s[0]) {
		return "_" + string([]byte{specDown(s[0])}) + specJSONSnake(s[1:])
	}
	return s[:1] + specJSONSnake(s[1:])
}

//@ func JSONCamelCase(s string) (r string)
//@ prop C02
//@ attr terminates
//@ ensures jsonName: r == specJSONCamel(s, 0, false)
//@ inv sofar(i int, b []byte, wasUnderscore bool): 0 <= i && i <= len(s) && string(b)+specJSONCamel(s, i, wasUnderscore) == specJSONCamel(s, 0, false)
//@ dec (i int): len(s) - i

//@ func JSONSnakeCase(s string) (r string)
//@ prop C02
//@ attr terminates
//@ ensures snake: r == specJSONSnake(s)
//@ inv sofar(i int, b []byte): 0 <= i && i <= len(s) && string(b)+specJSONSnake(s[i:]) == specJSONSnake(s)
//@ dec (i int): len(s) - i

// specASCII: no byte of s[i:] is above 127.
//@ func specASCII(s string, i int) (r bool)
//@ dec: len(s) - i
func specASCII(s string, i int) bool {
	return i < 0 || i >= len(s) || s[i] < 128 && specASCII(s, i+1)
}

// specWords is s[i:] with underscores dropped and the letter after each (and the first) capitalised.
//@ func specWords(s string, i int, up bool, lower bool) (r string)
//@ dec: len(s) - i
func specWords(s string, i int, up bool, lower bool) string {
	if i < 0 || i >= len(s) {
		return ""
	}
	if s[i] == '_' {
		return specWords(s, i+1, true, lower)
	}
	if up {
		return string([]byte{specUp(s[i])}) + specWords(s, i+1, false, lower)
	}
	if lower {
		return string([]byte{specDown(s[i])}) + specWords(s, i+1, false, lower)
	}
	return s[i:i+1] + specWords(s, i+1, false, lower)
}

//@ func MapEntryName(s string) (r string)
//@ prop C02
//@ attr terminates
//@ ensures mapEntry: !specASCII(s, 0) || r == specWords(s, 0, true, false)+"Entry"
//@ inv sofar(pos int, b []byte, upperNext bool): !specASCII(s, 0) || 0 <= pos && specASCII(s, pos) && string(b)+specWords(s, pos, upperNext, false) == specWords(s, 0, true, false)

//@ func EnumValueName(s string) (r string)
//@ prop C02
//@ attr terminates
//@ ensures enumValue: !specASCII(s, 0) || r == specWords(s, 0, true, true)
//@ inv sofar(pos int, b []byte, upperNext bool): !specASCII(s, 0) || 0 <= pos && specASCII(s, pos) && string(b)+specWords(s, pos, upperNext, true) == specWords(s, 0, true, true)

// specGood: s[i:] continues a lower-case snake_case name (u: an underscore precedes it).
//@ func specGood(s string, i int, u bool) (r bool)
//@ dec: len(s) - i
func specGood(s string, i int, u bool) bool {
	if i < 0 || i >= len(s) {
		return !u
	}
	if s[i] == '_' {
		return !u && specGood(s, i+1, true)
	}
	return (specLower(s[i]) || specDigit(s[i]) && !u) && specGood(s, i+1, false)
}

// The JSON name of a lower-case snake_case name converts back to that name.
//@ func lemRoundTrip(s string, i int, u bool) (r bool)
//@ lemma
//@ prop C02
//@ requires bounds: 0 <= i && i <= len(s)
//@ requires good: specGood(s, i, u)
//@ ensures back: specJSONSnake(specJSONCamel(s, i, u)) == specUnder(u)+s[i:]
//@ dec: len(s) - i
func lemRoundTrip(s string, i int, u bool) bool {
	if i >= len(s) {
		return true
	}
	if s[i] == '_' {
		return lemRoundTrip(s, i+1, true)
	}
	if u {
		return lemRoundTrip(s, i+1, false)
	}
	return lemRoundTrip(s, i+1, false)
}

func specUnder(u bool) string {
	if u {
		return "_"
	}
	return ""
}

// specPrefixOK: p (lower case, no underscores) is a prefix of s up to underscores and case.
//@ func specPrefixOK(s string, p string) (r bool)
//@ dec: len(s)
func specPrefixOK(s string, p string) bool {
	if len(p) == 0 {
		return true
	}
	if len(s) == 0 {
		return false
	}
	if s[0] == '_' {
		return specPrefixOK(s[1:], p)
	}
	return unicode.ToLower(rune(s[0])) == rune(p[0]) && specPrefixOK(s[1:], p[1:])
}

// specPrefixRest is what follows that prefix.
//@ func specPrefixRest(s string, p string) (r string)
//@ dec: len(s)
func specPrefixRest(s string, p string) string {
	if len(p) == 0 || len(s) == 0 {
		return s
	}
	if s[0] == '_' {
		return specPrefixRest(s[1:], p)
	}
	return specPrefixRest(s[1:], p[1:])
}

// specTrimEnum trims the prefix and the underscores after it unless nothing would remain.
func specTrimEnum(s, p string) string {
	if !specPrefixOK(s, p) {
		return s
	}
	r := strings.TrimLeft(specPrefixRest(s, p), "_")
	if len(r) == 0 {
		return s
	}
	return r
}

//@ func TrimEnumPrefix(name, enum string) (r string)
//@ prop C02
//@ attr terminates
//@ ensures trimmed: r == specTrimEnum(name, enum)
//@ ensures suffix: strings.HasSuffix(name, r)
//@ ensures notEmpty: len(name) == 0 || len(r) > 0
//@ inv match(s string, prefix string): specPrefixOK(s, prefix) == specPrefixOK(name, enum) && specPrefixRest(s, prefix) == specPrefixRest(name, enum)
//@ inv suffix(s string): strings.HasSuffix(name, s)
//@ dec (s string): len(s)

func specIdentRune(r rune) rune {
	if unicode.IsLetter(r) || unicode.IsDigit(r) {
		return r
	}
	return '_'
}

func specFirst(s string) rune {
	r, _ := utf8.DecodeRuneInString(s)
	return r
}

//@ func GoSanitized(s string) (r string)
//@ prop C02
//@ attr terminates
//@ ensures exact: r == specSanitized(strings.Map(specIdentRune, s))
//@ ensures notKeyword: !token.Lookup(r).IsKeyword()
//@ ensures start: unicode.IsLetter(specFirst(r)) || specFirst(r) == '_'
func specSanitized(x string) string {
	if token.Lookup(x).IsKeyword() || !unicode.IsLetter(specFirst(x)) {
		return "_" + x
	}
	return x
}
