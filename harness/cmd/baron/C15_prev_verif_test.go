package main

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	log "github.com/sirupsen/logrus"
)

func TestVerif_C15(t *testing.T) {
	log.SetOutput(ioutil.Discard)
	root := t.TempDir()
	vhRun(t, "C15", "service directories with every subset of user-owned files among other files and directories, read back as the previous generation; non-trivial: a user-owned file exists", 10, 60, func(h *vh) {
		for n := 0; n < 500 && h.More(); n++ {
			svc := h.Pick("echo", "foobar", "service", "cmd", "svc")
			dir := filepath.Join(root, fmt.Sprint(n), svc+h.Pick("-service", "", "x"))
			own := []string{"service/service.go", "service/wrapper.go", "server/endpoints.go", "server/interrupt.go", "server/wrapper.go", "cmd/" + svc + "/main.go", "cmd/" + svc + "-client/main.go"}
			other := []string{"server/server.go", "x.go", "vendor/service/service.go", "service/extra.go", "docs/a/b.md", "cmd/other/main.go", ".git/config", "service/sub/x.go", "cmd/" + svc + "-server/main.go"}
			have := map[string]string{}
			missing := h.Rng.Intn(12) == 0
			if !missing {
				os.MkdirAll(dir, 0777)
				bits := h.Rng.Intn(128)
				if n < 128 {
					bits = n
				}
				for i, f := range own {
					if bits>>i&1 == 1 {
						have[f] = fmt.Sprintf("user %d %s", n, f)
					}
				}
				for _, f := range other {
					if h.Rng.Intn(2) == 0 {
						have[f] = fmt.Sprintf("other %d %s", n, f)
					}
				}
			}
			for f, c := range have {
				p := filepath.Join(dir, f)
				os.MkdirAll(filepath.Dir(p), 0777)
				if err := os.WriteFile(p, []byte(c), 0666); err != nil {
					panic(err)
				}
			}
			ks := []string{}
			for k := range have {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			h.Case("previous", fmt.Sprintf("service %s in %s with %q", svc, filepath.Base(dir), ks), !missing, func() string {
				got, err := readPreviousGeneration(dir, svc)
				if err != nil {
					return "error: " + err.Error()
				}
				for _, f := range own {
					if _, ok := have[f]; ok && got[f] == nil {
						return f + " is not read back"
					}
				}
				if got["server/server.go"] != nil {
					return "server/server.go must not be kept"
				}
				for f, r := range got {
					b, _ := ioutil.ReadAll(r)
					if c, ok := r.(*os.File); ok {
						c.Close()
					}
					if string(b) != have[f] || have[f] == "" {
						return fmt.Sprintf("%s is read as %q, it holds %q", f, b, have[f])
					}
				}
				for f, c := range have {
					if b, err := os.ReadFile(filepath.Join(dir, f)); err != nil || string(b) != c {
						return "changed " + f
					}
				}
				return ""
			})
			if n%50 == 49 {
				ents, _ := os.ReadDir(root)
				for _, e := range ents {
					if !strings.Contains(e.Name(), "..") {
						os.RemoveAll(filepath.Join(root, e.Name()))
					}
				}
			}
		}
	})
}
