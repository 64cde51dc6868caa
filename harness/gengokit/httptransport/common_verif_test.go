package httptransport

// refParts are the texts between slashes.
func refParts(s string) []string {
	var out []string
	cur := ""
	for i := 0; i < len(s); i++ {
		if s[i] == '/' {
			out = append(out, cur)
			cur = ""
		} else {
			cur += s[i : i+1]
		}
	}
	return append(out, cur)
}

func trimSlashes(s string) string {
	for len(s) > 0 && s[len(s)-1] == '/' {
		s = s[:len(s)-1]
	}
	return s
}

func noBraces(s string) string {
	r := ""
	for i := 0; i < len(s); i++ {
		if s[i] != '{' && s[i] != '}' {
			r += s[i : i+1]
		}
	}
	return r
}
