//go:build go1.18

package parsesvcname

import (
	"path/filepath"
	"strings"
)

var _, _ = filepath.Join, strings.TrimSuffix

// Contracts of the names of generated files.

//@ extern path/filepath.Base(path string) (r string)
//@ pure

//@ extern path/filepath.Ext(path string) (r string)
//@ pure

//@ extern path/filepath.Join(elem ...string) (r string)
//@ pure

//@ extern strings.TrimSuffix(s string, suffix string) (r string)
//@ pure
//@ ensures trim: r == specTrim(s, suffix)

func specTrim(s string, suffix string) string {
	if len(s) >= len(suffix) && s[len(s)-len(suffix):] == suffix {
		return s[:len(s)-len(suffix)]
	}
	return s
}

// specNamed: the base name of the definition with its extension replaced, in that directory.
func specNamed(proto string, dir string, ext string) string {
	return filepath.Join(dir, specTrim(filepath.Base(proto), filepath.Ext(proto))+ext)
}

//@ func GetPBFileName(protoPath string, pbPath string) (r string)
//@ prop C17
//@ pure
//@ ensures name: r == specNamed(protoPath, pbPath, ".pb.go")

//@ func GetGRPCPBFileName(protoPath string, pbPath string) (r string)
//@ prop C17
//@ pure
//@ ensures name: r == specNamed(protoPath, pbPath, "_grpc.pb.go")
