package generator

import (
	"fmt"
	"go/format"
	"io"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	log "github.com/sirupsen/logrus"

	"github.com/teamlint/baron/gengokit"
	"github.com/teamlint/baron/svcdef"
)

// the files of a service, by template; own: users own them.
var genFiles = []struct {
	templ, actual string
	own           bool
}{
	{"cmd/NAME-client/main.go.tmpl", "cmd/%s-client/main.go", true},
	{"cmd/NAME/main.go.tmpl", "cmd/%s/main.go", true},
	{"server/endpoints.go.tmpl", "server/endpoints.go", true},
	{"server/interrupt.go.tmpl", "server/interrupt.go", true},
	{"server/wrapper.go.tmpl", "server/wrapper.go", true},
	{"service/wrapper.go.tmpl", "service/wrapper.go", true},
	{"server/server.go.tmpl", "server/server.go", false},
	{"service/service.go.tmpl", "service/service.go", false},
}

func actualOf(a, name string) string {
	if strings.Contains(a, "%s") {
		return fmt.Sprintf(a, strings.ToLower(name))
	}
	return a
}

func fmtd(s string) string {
	b, err := format.Source([]byte(s))
	if err != nil {
		return s
	}
	return string(b)
}

func genAll(svc *svcdef.Service, client bool, dir string, prev map[string]string) (map[string]string, error) {
	conf := gengokit.Config{GoPackage: "x/echo-service", PBPackage: "x/pb", ServicePath: dir, PBPath: dir, GenClient: client, Transport: "all"}
	if prev != nil {
		conf.PreviousFiles = map[string]io.Reader{}
		for k, v := range prev {
			conf.PreviousFiles[k] = strings.NewReader(v)
		}
	}
	fs, err := GenerateGokit(&svcdef.Svcdef{PkgName: "p", Service: svc}, conf)
	if err != nil {
		return nil, err
	}
	out := map[string]string{}
	for k, r := range fs {
		b, err := ioutil.ReadAll(r)
		if err != nil {
			return nil, err
		}
		out[k] = string(b)
	}
	return out, nil
}

func TestVerif_C15(t *testing.T) {
	log.SetOutput(ioutil.Discard)
	dir := t.TempDir()
	vhRun(t, "C15", "template names to file names for every asset and random paths and service names; whole generations with every subset of previous files, with and without client, against first generations; writing of generated files; non-trivial: previous files are given", 20, 90, func(h *vh) {
		refActual := func(p, name string) string {
			out, l := "", strings.ToLower(name)
			for i := 0; i < len(p); {
				if strings.HasPrefix(p[i:], "NAME") {
					out += l
					i += 4
				} else {
					out += p[i : i+1]
					i++
				}
			}
			if strings.HasSuffix(out, ".tmpl") {
				out = out[:len(out)-5]
			}
			return out
		}
		for n := 0; n < 6000 && h.More(); n++ {
			p := h.Pick("cmd/NAME/main.go.tmpl", "NAME", "NAME.tmpl.tmpl", "NAMENAME.tmpl/x", ".tmpl", "tmpl", "NANAMEME", h.Pick("a", "NAME", "", "/", ".tmpl")+h.Str("NAMEx.t/", 9)+h.Pick("", ".tmpl", ".tmp", "NAME"))
			name := h.Pick("Echo", "FooBar", "svc", "Name", "TMPL", "x_Y", "A")
			if n < len(genFiles) {
				p = genFiles[n].templ
			}
			h.Case("path", p+" for "+name, strings.Contains(p, "NAME"), func() string {
				if g, w := templatePathToActual(p, name), refActual(p, name); g != w {
					return fmt.Sprintf("%q, want %q", g, w)
				}
				return ""
			})
		}
		for n := 0; n < 400 && h.More(); n++ {
			name := h.Pick("Echo", "FooBar", "svc", "Name")
			svc := &svcdef.Service{Name: name}
			for i := h.Rng.Intn(3); i > 0; i-- {
				svc.Methods = append(svc.Methods, &svcdef.ServiceMethod{Name: []string{"Ping", "Sum", "Get"}[i], RequestType: &svcdef.FieldType{Name: "A", StarExpr: true, Message: &svcdef.Message{Name: "A"}}, ResponseType: &svcdef.FieldType{Name: "B", StarExpr: true, Message: &svcdef.Message{Name: "B"}}})
			}
			client := h.Rng.Intn(2) == 0
			prev := map[string]string{}
			bits := h.Rng.Intn(256)
			if n < 256 {
				bits = n
			}
			for i, g := range genFiles {
				if bits>>i&1 == 0 {
					continue
				}
				a := actualOf(g.actual, name)
				prev[a] = h.Pick("package x\n\nfunc Mine() int { return 1 }\n", "package x\nfunc   Mine( )  int  {\nreturn 1}", "not go at all", "package x // {{.Service.Name}}\n", "package x\n\n"+"// "+h.Str("abc", 9)+"\n")
				if a == "service/service.go" {
					prev[a] = "package service\n\nfunc mine() int { return 1 }\n"
				}
			}
			// files that nothing is generated from
			for _, x := range []string{"service/extra.go", "cmd/other/main.go", "server/server.go", "baron/" + strings.ToLower(name) + ".pb.baron.go", "cmd/" + strings.ToLower(name) + "/extra.go", "service/service_methods.go"} {
				if h.Rng.Intn(3) == 0 {
					prev[x] = "package extra\n"
				}
			}
			ks := []string{}
			for k := range prev {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			in := fmt.Sprintf("service %s with %d rpcs, client=%v, previous files %q", name, len(svc.Methods), client, ks)
			h.Case("generate", in, len(prev) > 0, func() string {
				first, err := genAll(svc, client, dir, nil)
				if err != nil {
					return "first generation: " + err.Error()
				}
				got, err := genAll(svc, client, dir, prev)
				if err != nil {
					return "error: " + err.Error()
				}
				want := map[string]string{}
				for _, g := range genFiles {
					a := actualOf(g.actual, name)
					if strings.HasSuffix(g.actual, "-client/main.go") && !client {
						continue
					}
					f, ok := first[a]
					if !ok {
						return "the first generation lacks " + a
					}
					want[a] = f
					if p, ok := prev[a]; ok && g.own {
						want[a] = fmtd(p)
					}
				}
				for k := range first {
					if _, ok := want[k]; !ok {
						return "the first generation has " + k
					}
				}
				for k, v := range want {
					g, ok := got[k]
					if !ok {
						return k + " is not generated"
					}
					if k == "service/service.go" {
						if _, ok := prev[k]; ok {
							if !strings.Contains(g, "func mine() int { return 1 }") {
								return k + " lost the user's function:\n" + g
							}
							continue
						}
					}
					if g != v {
						return fmt.Sprintf("%s is\n%s\nwant\n%s", k, g, v)
					}
				}
				for k := range got {
					if _, ok := want[k]; !ok {
						return k + " must not be generated"
					}
				}
				return ""
			})
		}
		for n := 0; n < 120 && h.More(); n++ {
			s := h.Str("ab\n", 30)
			old := h.Rng.Intn(3)
			p := filepath.Join(dir, fmt.Sprint(n), h.Pick("f.go", "a/f.go", "a/b/c/f.go"))
			if old > 0 {
				os.MkdirAll(filepath.Dir(p), 0777)
				os.WriteFile(p, []byte(strings.Repeat("old ", old*old*9)), 0666)
			}
			h.Case("write", fmt.Sprintf("%q over %d", s, old), true, func() string {
				if err := WriteGenFile(strings.NewReader(s), p); err != nil {
					return err.Error()
				}
				b, err := os.ReadFile(p)
				if err != nil || string(b) != s {
					return fmt.Sprintf("the file holds %q, want %q (%v)", b, s, err)
				}
				return ""
			})
		}
	})
}
