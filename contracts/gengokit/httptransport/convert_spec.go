package httptransport

import (
	"strings"
	"text/template"
)

// Contracts of the generated request decoders: the parser, the width, the narrowing and the zero value of a field.

func specNumeric(t string) bool {
	return t == "uint32" || t == "uint64" || t == "int32" || t == "int64" || t == "float32" || t == "float64"
}

// specNarrow: strconv parses into 64 bits, so only the 32-bit types convert.
func specNarrow(t string) bool { return t == "uint32" || t == "int32" || t == "float32" }

//@ func getZeroValue(f Field) (r string)
//@ prop C12
//@ attr terminates
//@ ensures enum: !(f.IsEnum && !f.Repeated && !f.StarExpr) || r == "0"
//@ ensures notScalar: !(f.Repeated || f.StarExpr || !f.IsBaseType && !f.IsEnum) || r == "nil"
//@ ensures number: !(f.IsBaseType && !f.IsEnum && !f.Repeated && !f.StarExpr && specNumeric(f.GoType)) || r == "0"
//@ ensures boolean: !(f.IsBaseType && !f.IsEnum && !f.Repeated && !f.StarExpr && f.GoType == "bool") || r == "false"
//@ ensures text: !(f.IsBaseType && !f.IsEnum && !f.Repeated && !f.StarExpr && f.GoType == "string") || r == "\"\""

// specRvalue: the value assigned, before an address is taken.
func specRvalue(f Field) string {
	if f.IsEnum || specNarrow(f.GoType) {
		return f.GoType + "(" + f.LocalName + ")"
	}
	return f.LocalName
}

//@ func createDecodeTypeConversion(f Field) (r string)
//@ prop C12
//@ attr terminates
//@ requires name: !strings.Contains(f.GoType, "%")
//@ ensures repeated: !f.Repeated || r == f.LocalName
//@ ensures plain: f.Repeated || (f.IsBaseType || f.IsEnum) && f.StarExpr || r == specRvalue(f)
//@ ensures address: f.Repeated || !((f.IsBaseType || f.IsEnum) && f.StarExpr) || f.IsEnum || specNarrow(f.GoType) || r == "&"+f.LocalName
//@ ensures converted: f.Repeated || !((f.IsBaseType || f.IsEnum) && f.StarExpr) || !f.IsEnum && !specNarrow(f.GoType) || r == "&[]"+f.GoType+"{"+specRvalue(f)+"}[0]"

// specParse: the statement that parses the string named src into dst, for a scalar type.
func specParse(t, dst, src string) string {
	switch t {
	case "uint32":
		return dst + ", err := strconv.ParseUint(" + src + ", 10, 32)"
	case "uint64":
		return dst + ", err := strconv.ParseUint(" + src + ", 10, 64)"
	case "int32":
		return dst + ", err := strconv.ParseInt(" + src + ", 10, 32)"
	case "int64":
		return dst + ", err := strconv.ParseInt(" + src + ", 10, 64)"
	case "bool":
		return dst + ", err := strconv.ParseBool(" + src + ")"
	case "float32":
		return dst + ", err := strconv.ParseFloat(" + src + ", 32)"
	case "float64":
		return dst + ", err := strconv.ParseFloat(" + src + ", 64)"
	}
	return dst + " := " + src
}

//@ func createDecodeConvertFunc(f Field) (code string, check bool)
//@ prop C12
//@ attr terminates
//@ ensures enum: !f.IsEnum || f.Repeated || code == specParse("int32", f.LocalName, f.LocalName+"Str") && check
//@ ensures scalar: f.IsEnum || f.Repeated || !f.IsBaseType || !specNumeric(f.GoType) && f.GoType != "bool" && f.GoType != "string" || code == specParse(f.GoType, f.LocalName, f.LocalName+"Str") && check == (f.GoType != "string")
//@ ensures json: !f.Repeated && (f.IsBaseType || f.IsEnum) || !check

// specElement: the statement that stores element i of a repeated scalar, parsed into converted.
func specElement(t string) string {
	if specNarrow(t) {
		return "[i] = " + t + "(converted)\n"
	}
	return "[i] = converted\n"
}

// specDecoder: the template decodes a field of this description: a repeated number or boolean element by element with the
// conversion of its element type, anything else from JSON.
func specDecoder(tmpl string, data interface{}) bool {
	f, ok := data.(Field)
	if !ok {
		return false
	}
	if f.Repeated {
		scalar := specNumeric(f.GoType) || f.GoType == "bool"
		return strings.HasPrefix(tmpl, "\nvar {{.LocalName}} []") && (!scalar || !f.IsBaseType || strings.Contains(tmpl, specParse(f.GoType, "converted", "v")) && strings.Contains(tmpl, specElement(f.GoType)))
	}
	return strings.HasPrefix(tmpl, "\nvar {{.LocalName}} ") && strings.Contains(tmpl, "json.Unmarshal([]byte({{.LocalName}}Str), {{.LocalName}})")
}

//@ func ApplyTemplate(name string, tmpl string, data interface{}, fncs template.FuncMap) (code string, err error)
//@ trusted
//@ pure
//@ requires decoder: name != "UnmarshalNonBaseType" || specDecoder(tmpl, data)
//@ ensures ok: name != "UnmarshalNonBaseType" || err == nil

var _ = strings.Contains
var _ template.FuncMap
