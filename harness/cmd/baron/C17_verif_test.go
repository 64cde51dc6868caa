package main

import (
	"fmt"
	"go/build"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	log "github.com/sirupsen/logrus"

	"github.com/teamlint/baron/config"
	"github.com/teamlint/baron/svcdef"
)

func treeOf(root string) map[string]string {
	m := map[string]string{}
	filepath.Walk(root, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		if i.Mode()&os.ModeSymlink != 0 {
			m[rel], _ = os.Readlink(p)
		} else if i.IsDir() {
			m[rel] = "dir"
		} else {
			b, _ := os.ReadFile(p)
			m[rel] = "file " + string(b)
		}
		return nil
	})
	return m
}

// dirOf is the directory of an absolute clean path.
func dirOf(p string) string {
	i := strings.LastIndexByte(p, '/')
	if i == 0 {
		return "/"
	}
	return p[:i]
}

func TestVerif_C17(t *testing.T) {
	log.SetOutput(ioutil.Discard)
	root := t.TempDir()
	wd, err := os.Getwd()
	if err != nil {
		t.Fatal(err)
	}
	defer os.Chdir(wd)
	vhRun(t, "C17", "lists of 0-4 definition paths (relative, absolute, unclean, in one or several directories); output directories; service trees with every subset of stale and living directories and files; the name of the written .pb.baron.go; non-trivial: at least two definitions, or a stale directory exists", 15, 60, func(h *vh) {
		if err := os.Chdir(root); err != nil {
			panic(err)
		}
		for n := 0; n < 4000 && h.More(); n++ {
			var raw, abs []string
			dirs := []string{h.Pick("/p/a/", "/q/a/", "/p/q/a/", "", "a/", "./", "../", "/x/", "/", root+"/", "a/../", "a//b/", "/x/./y/"), h.Pick("/q/a/", "/p/a/", "/a/", "b/a/", "", "a/", "./", "/x/", root+"/", "a/b/", "a/../")}
			same := true
			for k := h.Rng.Intn(5); k > 0; k-- {
				d := dirs[0]
				if h.Rng.Intn(3) == 0 {
					d = dirs[1]
				}
				p := d + h.Pick("a.proto", "b.proto", "c d.proto", "x", "..proto")
				full := filepath.Clean(p)
				if !strings.HasPrefix(p, "/") {
					full = filepath.Clean(root + "/" + p)
				}
				raw, abs = append(raw, p), append(abs, full)
				if dirOf(full) != dirOf(abs[0]) {
					same = false
				}
			}
			h.Case("definitions", fmt.Sprintf("%q", strings.Replace(strings.Join(raw, "\x00"), root, "<cwd>", -1)), len(raw) > 1, func() string {
				got, err := cleanProtofilePath(append([]string{}, raw...))
				if !same {
					if err == nil {
						return fmt.Sprintf("accepted as %q", got)
					}
					return ""
				}
				if err != nil {
					return "rejected: " + err.Error()
				}
				if strings.Join(got, "\x00") != strings.Join(abs, "\x00") || len(got) != len(abs) {
					return fmt.Sprintf("accepted as %q, want %q", got, abs)
				}
				return ""
			})
		}
		for n := 0; n < 1000 && h.More(); n++ {
			out := h.Pick("./", ".", "..", "./a", "../b/", "a", "github.com/x/y", "a/../b", "./../c", ".a", "..b/c", "/abs/x", "")
			gp := h.Pick("/go", "go", "/a/b/")
			h.Case("svcout", fmt.Sprintf("%q with GOPATH %q", out, gp), true, func() string {
				want := filepath.Join(gp, "src", out)
				if build.IsLocalImport(out) {
					want = filepath.Join(root, out)
				}
				g, err := parseSVCOut(out, gp)
				if err != nil || g != want {
					return fmt.Sprintf("%q %v, want %q", g, err, want)
				}
				return ""
			})
		}
		for n := 0; n < 600 && h.More(); n++ {
			dir := filepath.Join(root, fmt.Sprint("t", n))
			svc := filepath.Join(dir, "out", "echo-service")
			name := h.Pick("echo", "foobar", "x")
			stale := []string{"svc/server/cli", "svc/client/cli", "cmd/" + name + "-server"}
			bits := h.Rng.Intn(8)
			if n < 8 {
				bits = n
			}
			os.MkdirAll(svc, 0777)
			put := func(p string) {
				p = filepath.Join(svc, p)
				os.MkdirAll(filepath.Dir(p), 0777)
				if os.WriteFile(p, []byte("keep "+p), 0666) != nil {
					panic(p)
				}
			}
			for i, s := range stale {
				if bits>>i&1 == 0 {
					continue
				}
				switch h.Rng.Intn(4) {
				case 0:
					os.MkdirAll(filepath.Join(svc, s), 0777)
				case 1:
					put(s)
				case 2:
					put(s + "/a.go")
				case 3:
					put(s + "/a.go")
					put(s + "/d/b.go")
					os.Symlink(filepath.Join(dir, "out"), filepath.Join(svc, s, "link"))
				}
			}
			for _, f := range []string{"svc/server/run.go", "svc/client/grpc/c.go", "svc/server/cli2/x.go", "cmd/" + name + "/main.go", "cmd/" + name + "-client/main.go", "cmd/other-server/main.go", "cmd/" + name + "-server2/main.go", "service/service.go", "server/server.go", "../svc/server/cli/x.go", "../cmd/" + name + "-server/main.go", "server/cli/x.go", "svc/cli/x.go", "cmd/" + name + "-serve/x.go"} {
				if h.Rng.Intn(2) == 0 {
					put(f)
				}
			}
			arg := svc + h.Pick("", "/", "/.")
			h.Case("cleanup", fmt.Sprintf("service %s, stale %d (bits of %q), tree %d", name, bits, stale, n), bits > 0, func() string {
				before := treeOf(dir)
				cleanupOldFiles(arg, name)
				after := treeOf(dir)
				want := []string{}
				for k := range before {
					gone := false
					for _, s := range stale {
						s = "out/echo-service/" + s
						gone = gone || k == s || strings.HasPrefix(k, s+"/")
					}
					if !gone {
						want = append(want, k)
						if after[k] != before[k] {
							return "removed or changed " + k
						}
					}
				}
				for k := range after {
					if _, ok := before[k]; !ok {
						return "created " + k
					}
				}
				if len(after) != len(want) {
					sort.Strings(want)
					return fmt.Sprintf("left %d paths, want %d: %v", len(after), len(want), want)
				}
				return ""
			})
			os.RemoveAll(dir)
		}
		for n := 0; n < 60 && h.More(); n++ {
			dir := filepath.Join(root, fmt.Sprint("g", n))
			os.MkdirAll(dir, 0777)
			bases := []string{h.Pick("echo", "a.b", "x_y", "baron"), h.Pick("other", "zz")}
			defs := []string{filepath.Join(dir, bases[0]+".proto")}
			if n%2 == 0 {
				defs = append(defs, filepath.Join(dir, bases[1]+".proto"))
			}
			h.Case("baron", fmt.Sprintf("definitions %q", bases[:len(defs)]), true, func() string {
				cfg := &config.Config{DefPaths: defs, PBPath: dir, PBPackage: "x/pb", ServicePackage: "x/echo-service", ServicePath: filepath.Join(dir, "echo-service")}
				if err := generateBaronCode(cfg, &svcdef.Svcdef{PkgName: "p", Service: &svcdef.Service{Name: "Echo"}}); err != nil {
					return err.Error()
				}
				ents, _ := os.ReadDir(dir)
				if len(ents) != 1 || ents[0].Name() != bases[0]+".pb.baron.go" {
					return fmt.Sprintf("wrote %v, want %s.pb.baron.go", ents, bases[0])
				}
				return ""
			})
			os.RemoveAll(dir)
		}
	})
}
