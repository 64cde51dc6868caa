//go:build go1.18

package httptransport

import "strings"

var _ = strings.Contains

// Contracts of the path functions copied into every generated server.

// specDrop: s[i:] without the byte c.
//@ func specDrop(s string, c byte, i int) (r string)
//@ dec: len(s) - i
func specDrop(s string, c byte, i int) string {
	if i < 0 || i >= len(s) {
		return ""
	}
	if s[i] == c {
		return specDrop(s, c, i+1)
	}
	return s[i:i+1] + specDrop(s, c, i+1)
}

// specBraceless: s[i:] without braces.
//@ func specBraceless(s string, i int) (r string)
//@ dec: len(s) - i
func specBraceless(s string, i int) string {
	if i < 0 || i >= len(s) {
		return ""
	}
	if s[i] == '{' || s[i] == '}' {
		return specBraceless(s, i+1)
	}
	return s[i:i+1] + specBraceless(s, i+1)
}

//@ extern strings.Replace(s string, old string, with string, n int) (r string)
//@ pure
//@ ensures drop: n >= 0 || with != "" || len(old) != 1 || r == specDrop(s, old[0], 0)

//@ extern strings.Split(s string, sep string) (r []string)
//@ pure
//@ ensures some: sep == "" || len(r) >= 1
//@ ensures parts: len(sep) != 1 || vSame(r, specSplit(s, sep[0], 0, 0))

//@ extern strings.TrimRight(s string, cutset string) (r string)
//@ pure
//@ ensures prefix: len(r) <= len(s) && r == s[:len(r)]
//@ ensures cut: len(cutset) != 1 || vAll(len(r), len(s), func(i int) bool { return s[i] == cutset[0] })

// specSplit: the parts of s[from:] between bytes c; no byte of s[from:i] is c.
//@ func specSplit(s string, c byte, from int, i int) (r []string)
//@ dec: len(s) - i
func specSplit(s string, c byte, from int, i int) []string {
	if from < 0 || from > i || from > len(s) {
		return nil
	}
	if i >= len(s) {
		return []string{s[from:]}
	}
	if s[i] == c {
		return append([]string{s[from:i]}, specSplit(s, c, i+1, i+1)...)
	}
	return specSplit(s, c, from, i+1)
}

//@ func lemmaDropTwice(s string, i int) (r bool)
//@ lemma
//@ requires in: 0 <= i && i <= len(s)
//@ ensures same: specDrop(specDrop(s, '{', i), '}', 0) == specBraceless(s, i)
//@ dec: len(s) - i
func lemmaDropTwice(s string, i int) bool {
	if i < len(s) {
		lemmaDropTwice(s, i+1)
		if s[i] != '{' {
			lemmaDropShift(s[i:i+1]+specDrop(s, '{', i+1), '}', 1)
		}
	}
	return true
}

// lemmaDropShift: dropping in a suffix is dropping from its start.
//@ func lemmaDropShift(s string, c byte, i int) (r bool)
//@ lemma
//@ requires in: 0 <= i && i <= len(s)
//@ ensures same: specDrop(s, c, i) == specDrop(s[i:], c, 0)
//@ dec: len(s) - i
func lemmaDropShift(s string, c byte, i int) bool {
	return lemmaDropAt(s, s[i:], c, i, 0)
}

//@ func lemmaDropAt(s string, t string, c byte, i int, j int) (r bool)
//@ lemma
//@ requires in: 0 <= i && i <= len(s) && 0 <= j && j <= len(t) && s[i:] == t[j:]
//@ ensures same: specDrop(s, c, i) == specDrop(t, c, j)
//@ dec: len(s) - i
func lemmaDropAt(s string, t string, c byte, i int, j int) bool {
	if i < len(s) {
		lemmaDropAt(s, t, c, i+1, j+1)
	}
	return true
}

//@ func RemoveBraces(val string) (r string)
//@ prop C13, C11
//@ attr terminates
//@ ensures stripped: lemmaDropTwice(val, 0) && r == specBraceless(val, 0)

//@ extern strings.ContainsAny(s string, chars string) (r bool)
//@ pure
//@ ensures two: len(chars) != 2 || r == (strings.Contains(s, chars[:1]) || strings.Contains(s, chars[1:]))

// specParam: the part of a template is a parameter.
func specParam(part string) bool { return strings.Contains(part, "{") || strings.Contains(part, "}") }

func specHas(m map[string]int, k string) bool {
	_, ok := m[k]
	return ok
}

func specHasStr(m map[string]string, k string) bool {
	_, ok := m[k]
	return ok
}

// specLast: the last position before n of the parameter named k, or -1.
//@ func specLast(parts []string, k string, n int) (r int)
//@ dec: n
func specLast(parts []string, k string, n int) int {
	if n <= 0 || n > len(parts) {
		return -1
	}
	if specParam(parts[n-1]) && specBraceless(parts[n-1], 0) == k {
		return n - 1
	}
	return specLast(parts, k, n-1)
}

// specPlaced: every entry is a braced part among the first n, at its last position.
func specPlaced(m map[string]int, parts []string, n int) bool {
	return m != nil && vKeys(m, func(k string) bool {
		return m[k] == specLast(parts, k, n) && 0 <= m[k] && m[k] < n && specParam(parts[m[k]]) && specBraceless(parts[m[k]], 0) == k
	})
}

// specListed: every braced part among the first n is in the map.
func specListed(m map[string]int, parts []string, n int) bool {
	return vAll(0, n, func(i int) bool { return !specParam(parts[i]) || specHas(m, specBraceless(parts[i], 0)) })
}

//@ func BuildParamMap(urlTmpl string) (r map[string]int)
//@ prop C13
//@ attr terminates
//@ ensures only: specPlaced(r, strings.Split(urlTmpl, "/"), len(strings.Split(urlTmpl, "/")))
//@ ensures all: specListed(r, strings.Split(urlTmpl, "/"), len(strings.Split(urlTmpl, "/")))
//@ inv only(rv map[string]int, k int): 0 <= k && k <= len(strings.Split(urlTmpl, "/")) && specPlaced(rv, strings.Split(urlTmpl, "/"), k)
//@ inv all(rv map[string]int, k int): specListed(rv, strings.Split(urlTmpl, "/"), k)

// lemmaSplitSlash: one more separator at the end is one more, empty, part.
//@ func lemmaSplitSlash(s string, c byte, from int, i int) (r bool)
//@ lemma
//@ requires in: 0 <= from && from <= i && i <= len(s)
//@ ensures more: vSame(specSplit(s+string([]byte{c}), c, from, i), append(specSplit(s, c, from, i), ""))
//@ dec: len(s) - i
func lemmaSplitSlash(s string, c byte, from int, i int) bool {
	if i < len(s) {
		if s[i] == c {
			lemmaSplitSlash(s, c, i+1, i+1)
		} else {
			lemmaSplitSlash(s, c, from, i+1)
		}
	}
	return true
}

// lemmaSplitTrim: separators at the end are empty parts.
//@ func lemmaSplitTrim(s string, c byte, n int) (r bool)
//@ lemma
//@ attr opaque specSplit
//@ requires in: 0 <= n && n <= len(s) && vAll(n, len(s), func(i int) bool { return s[i] == c })
//@ ensures count: len(specSplit(s, c, 0, 0)) == len(specSplit(s[:n], c, 0, 0)) + len(s) - n
//@ ensures empty: vAll(len(specSplit(s[:n], c, 0, 0)), len(specSplit(s, c, 0, 0)), func(i int) bool { return specSplit(s, c, 0, 0)[i] == "" })
//@ dec: len(s) - n
func lemmaSplitTrim(s string, c byte, n int) bool {
	if n < len(s) {
		t := s[:len(s)-1]
		if t+string([]byte{c}) != s || t[:n] != s[:n] {
			return true
		}
		lemmaSplitTrim(t, c, n)
		lemmaSplitSlash(t, c, 0, 0)
	}
	return true
}

//@ func PathParams(url string, urlTmpl string) (r map[string]string, err error)
//@ prop C13
//@ attr opaque specSplit,specBraceless,specLast
//@ attr terminates
//@ ensures mismatch: len(strings.Split(strings.TrimRight(url, "/"), "/")) == len(strings.Split(strings.TrimRight(urlTmpl, "/"), "/")) || err != nil && r == nil
//@ ensures match: len(strings.Split(strings.TrimRight(url, "/"), "/")) != len(strings.Split(strings.TrimRight(urlTmpl, "/"), "/")) || err == nil && r != nil
//@ ensures only: err != nil || specTaken(r, strings.Split(urlTmpl, "/"), strings.Split(url, "/"))
//@ ensures all: err != nil || vAll(0, len(strings.Split(urlTmpl, "/")), func(i int) bool { return !specParam(strings.Split(urlTmpl, "/")[i]) || specHasStr(r, specBraceless(strings.Split(urlTmpl, "/")[i], 0)) })
//@ inv trailing(): lemmaSplitTrim(urlTmpl, '/', len(strings.TrimRight(urlTmpl, "/"))) && lemmaSplitTrim(url, '/', len(strings.TrimRight(url, "/")))
//@ inv from(rv map[string]string, pmp map[string]int): specPlaced(pmp, strings.Split(urlTmpl, "/"), len(strings.Split(urlTmpl, "/"))) && specListed(pmp, strings.Split(urlTmpl, "/"), len(strings.Split(urlTmpl, "/")))
//@ inv fits(pmp map[string]int): vKeys(pmp, func(k string) bool { return pmp[k] < len(strings.Split(url, "/")) })
//@ inv only(rv map[string]string, pmp map[string]int): rv != nil && vKeys(rv, func(k string) bool { return specHas(pmp, k) && rv[k] == strings.Split(url, "/")[pmp[k]] })
//@ inv all(rv map[string]string, pmp map[string]int, seen vSet[string]): vKeys(pmp, func(k string) bool { return !vIn(seen, k) || specHasStr(rv, k) })

// specTaken: every entry is a braced part of the template with the part of the URL at that position.
func specTaken(r map[string]string, tmpl, url []string) bool {
	return vKeys(r, func(k string) bool {
		return 0 <= specLast(tmpl, k, len(tmpl)) && specLast(tmpl, k, len(tmpl)) < len(url) && r[k] == url[specLast(tmpl, k, len(tmpl))]
	})
}
