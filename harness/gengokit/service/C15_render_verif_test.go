package service

import (
	"fmt"
	"io"
	"io/ioutil"
	"strings"
	"testing"

	log "github.com/sirupsen/logrus"

	"github.com/teamlint/baron/gengokit"
	"github.com/teamlint/baron/svcdef"
)

type onlyReader struct{ r io.Reader }

func (o onlyReader) Read(p []byte) (int, error) { return o.r.Read(p) }

func TestVerif_C15(t *testing.T) {
	log.SetOutput(ioutil.Discard)
	mk := map[string]func(io.Reader) gengokit.Renderable{
		CmdClientPath:       NewCmdClient,
		CmdServerPath:       NewCmdServer,
		ServerPath:          NewServer,
		ServerEndpointsPath: NewServerEndpoints,
		ServerInterruptPath: NewServerInterrupt,
		ServerWrapperPath:   NewServerWrapper,
		ServiceWrapperPath:  func(r io.Reader) gengokit.Renderable { return NewServiceWrapper(r) },
	}
	paths := []string{CmdClientPath, CmdServerPath, ServerPath, ServerEndpointsPath, ServerInterruptPath, ServerWrapperPath, ServiceWrapperPath, ServicePath, ServiceMethodsPath, BaronPath}
	vhRun(t, "C15", "every pass-through renderer x every path x no, empty, Go, broken-Go, template-like and random previous contents x repeated renders and status; IsExcludedPath of every path and near misses; non-trivial: there is a previous file", 10, 60, func(h *vh) {
		data := func() *gengokit.Data {
			d, err := gengokit.NewData(&svcdef.Svcdef{PkgName: "p", Service: &svcdef.Service{Name: h.Pick("Echo", "FooBar")}}, gengokit.Config{GoPackage: "x/echo-service", PBPackage: "x/pb"})
			if err != nil {
				panic(err)
			}
			return d
		}
		excluded := map[string]bool{BaronPath: true, ServiceMethodsPath: true}
		for _, p := range append(paths, "", "x", BaronPath+"x", "x"+BaronPath, strings.ToUpper(ServiceMethodsPath), "baron/NAME.pb.baron.go", "service/") {
			p := p
			h.Case("excluded", p, true, func() string {
				if g := IsExcludedPath(p); g != excluded[p] {
					return fmt.Sprintf("IsExcludedPath = %v", g)
				}
				return ""
			})
		}
		aliases := append(append([]string{}, paths...), "", "cmd/NAME/main.go", "nope", strings.ToUpper(CmdServerPath), CmdServerPath+" ")
		for n := 0; n < 40 && h.More(); n++ {
			for _, own := range paths[:7] {
				for _, alias := range aliases {
					own, alias := own, alias
					var text *string
					if n > 0 {
						s := h.Pick("", "package main\n\nfunc main() { x( }\n", "package a\n\nfunc   A ( ) { }\n// tail", "{{.Service.Name}}", "{{", "\x00\xff", "\n", h.Str("ab{}\n \t", 40))
						text = &s
					}
					d := data()
					tmpl := ""
					if r, err := d.ApplyTemplateFromPath(own); err == nil {
						b, _ := ioutil.ReadAll(r)
						tmpl = string(b)
					}
					in := fmt.Sprintf("%s rendered as %q, previous file ", own, alias)
					if text == nil {
						in += "none"
					} else {
						in += fmt.Sprintf("%q", *text)
					}
					h.Case("render", in, text != nil, func() string {
						var prev io.Reader
						if text != nil {
							prev = onlyReader{strings.NewReader(*text)}
						}
						r := mk[own](prev)
						st, ok := r.(gengokit.RenderStatus)
						if !ok {
							return "has no status"
						}
						for i := 0; i < 2; i++ {
							if st.IsFirst() != (text == nil) {
								return fmt.Sprintf("IsFirst = %v", st.IsFirst())
							}
							if own != ServerPath && st.IsModified() {
								return "IsModified although the file is only passed through"
							}
							if i == 1 {
								break
							}
							out, err := r.Render(alias, d)
							if alias != own {
								if err == nil {
									return "a foreign path is rendered without an error"
								}
								continue
							}
							if err != nil {
								return "error: " + err.Error()
							}
							b, err := ioutil.ReadAll(out)
							if err != nil {
								return "error: " + err.Error()
							}
							want := tmpl
							if text != nil {
								want = *text
							}
							if string(b) != want {
								return fmt.Sprintf("rendered\n%q\nwant\n%q", b, want)
							}
						}
						return ""
					})
				}
			}
		}
		for _, alias := range aliases {
			for i := 0; i < 2; i++ {
				if alias == ServicePath {
					continue
				}
				alias, i := alias, i
				h.Case("render", fmt.Sprintf("service file rendered as %q previous=%d", alias, i), true, func() string {
					var prev io.Reader
					if i == 1 {
						prev = strings.NewReader("package service\n")
					}
					d := data()
					r, err := NewService(d.Service, prev)
					if err != nil {
						return err.Error()
					}
					if _, err := r.Render(alias, d); err == nil {
						return "a foreign path is rendered without an error"
					}
					return ""
				})
			}
		}
	})
}
