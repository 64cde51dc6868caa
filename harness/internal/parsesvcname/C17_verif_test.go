package parsesvcname

import (
	"fmt"
	"path/filepath"
	"strings"
	"testing"
)

func TestVerif_C17(t *testing.T) {
	vhRun(t, "C17", "names of generated files for paths over names with any number of dots x output directories; non-trivial: the path has a directory", 5, 30, func(h *vh) {
		for n := 0; n < 5000 && h.More(); n++ {
			dir := h.Pick("", "/", "a/", "/x/y.proto/", "./", "../p/", "a.b/c/")
			stem := h.Pick("echo", "a.b", "x_y", "", ".", "a.proto", "A-b") + h.Str("ab._", 4)
			ext := h.Pick(".proto", ".proto", "", ".PROTO", ".txt", ".proto.proto")
			base := stem + ext
			if base == "" || base == "." || base == ".." {
				continue
			}
			out := h.Pick("", "/tmp/x", "pb", "./pb/", "..", "a//b")
			h.Case("names", fmt.Sprintf("%q into %q", dir+base, out), dir != "", func() string {
				bare := base
				if i := strings.LastIndexByte(base, '.'); i >= 0 {
					bare = base[:i]
				}
				if g, w := GetPBFileName(dir+base, out), filepath.Join(out, bare+".pb.go"); g != w {
					return fmt.Sprintf("%q, want %q", g, w)
				}
				if g, w := GetGRPCPBFileName(dir+base, out), filepath.Join(out, bare+"_grpc.pb.go"); g != w {
					return fmt.Sprintf("%q, want %q", g, w)
				}
				return ""
			})
		}
	})
}
