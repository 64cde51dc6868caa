package pkg

// Contracts of pkg/strs.go: proto identifiers to Go and JSON identifiers.

func specLower(c byte) bool { return 'a' <= c && c <= 'z' }
func specUpper(c byte) bool { return 'A' <= c && c <= 'Z' }
func specDigit(c byte) bool { return '0' <= c && c <= '9' }

func specUp(c byte) byte {
	if specLower(c) {
		return c - 32
	}
	return c
}
func specDown(c byte) byte {
	if specUpper(c) {
		return c + 32
	}
	return c
}

// specCamel is protoc-gen-go's CamelCase of s[i:], where a new word starts at i.
//@ func specCamel(s string, i int) (r string)
//@ dec: len(s)*2 - i*2
func specCamel(s string, i int) string {
	if i < 0 || i >= len(s) {
		return ""
	}
	c := s[i]
	nextLower := i+1 < len(s) && specLower(s[i+1])
	if c == '.' {
		if nextLower {
			return specCamel(s, i+1)
		}
		return "_" + specCamel(s, i+1)
	}
	if c == '_' {
		if i == 0 || s[i-1] == '.' {
			return "X" + specCamel(s, i+1)
		}
		if nextLower {
			return specCamel(s, i+1)
		}
	}
	if specDigit(c) {
		return s[i:i+1] + specCamel(s, i+1)
	}
	return string([]byte{specUp(c)}) + specTail(s, i+1)
}

//@ func specTail(s string, i int) (r string)
//@ dec: len(s)*2 - i*2 + 1

// specTail: the lower-case letters that continue a word are copied.
func specTail(s string, i int) string {
	if i < 0 || i >= len(s) {
		return ""
	}
	if specLower(s[i]) {
		return s[i:i+1] + specTail(s, i+1)
	}
	return specCamel(s, i)
}

//@ func GoCamelCase(s string) (r string)
//@ pure
//@ prop C01
//@ attr terminates
//@ ensures protocGenGo: r == specCamel(s, 0)
//@ inv word(i int, b []byte): 0 <= i && string(b)+specCamel(s, i) == specCamel(s, 0)
//@ inv letters(i int, b []byte): 0 <= i && i < len(s) && string(b)+specTail(s, i+1) == specCamel(s, 0)
//@ dec (i int): len(s) - i


// specBase: the Go types a proto scalar has.
func specBase(t string) bool {
	return t == "uint32" || t == "uint64" || t == "int32" || t == "int64" || t == "bool" || t == "float32" || t == "float64" || t == "string"
}

//@ func IsGoBaseType(goType string) (r bool)
//@ prop C12
//@ pure
//@ attr terminates
//@ ensures scalars: r == specBase(goType)
//@ inv none(k int): 0 <= k && (k <= 0 || goType != GoBaseTypes[0]) && (k <= 1 || goType != GoBaseTypes[1]) && (k <= 2 || goType != GoBaseTypes[2]) && (k <= 3 || goType != GoBaseTypes[3]) && (k <= 4 || goType != GoBaseTypes[4]) && (k <= 5 || goType != GoBaseTypes[5]) && (k <= 6 || goType != GoBaseTypes[6]) && (k <= 7 || goType != GoBaseTypes[7])
