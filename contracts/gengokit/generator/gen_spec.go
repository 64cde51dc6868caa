//go:build go1.18

package generator

import (
	"bytes"
	"go/format"
	"io"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"

	"github.com/teamlint/baron/gengokit"
	"github.com/teamlint/baron/gengokit/service"
	templFiles "github.com/teamlint/baron/gengokit/template"
)

var _, _, _, _, _, _, _, _ = bytes.NewReader, format.Source, io.Copy, ioutil.ReadAll, os.Create, filepath.Dir, strings.Replace, templFiles.Asset

var _ gengokit.Config

// Contracts of choosing, formatting and writing generated files.

// ghostCode is the code formatted last.
var ghostCode []byte

// ghostFS is the history of the calls that touch the file system.
var ghostFS []string

// specSub: s[i:] with x for every t, left to right.
//@ func specSub(s string, t string, x string, i int) (r string)
//@ dec: len(s) - i
func specSub(s string, t string, x string, i int) string {
	if i < 0 || i >= len(s) || t == "" {
		return ""
	}
	if i+len(t) <= len(s) && s[i:i+len(t)] == t {
		return x + specSub(s, t, x, i+len(t))
	}
	return s[i:i+1] + specSub(s, t, x, i+1)
}

func specWithout(s string, end string) string {
	if len(s) >= len(end) && s[len(s)-len(end):] == end {
		return s[:len(s)-len(end)]
	}
	return s
}

//@ extern strings.Replace(s string, old string, new string, n int) (r string)
//@ pure
//@ ensures all: n >= 0 || len(old) < 1 || r == specSub(s, old, new, 0)

//@ func templatePathToActual(templFilePath string, svcName string) (r string)
//@ prop C15
//@ attr terminates
//@ ensures path: r == specWithout(specSub(templFilePath, "NAME", strings.ToLower(svcName), 0), ".tmpl")

// specFmt: the code as gofmt writes it; the code itself where gofmt fails.
//@ func specFmt(code string) (r string)
//@ attr abstract
func specFmt(code string) string {
	return code
}

//@ extern go/format.Source(src []byte) (r []byte, err error)
//@ modifies ghostCode
//@ ensures last: string(ghostCode) == string(src)
//@ ensures formatted: err != nil || string(r) == specFmt(string(src))
//@ ensures failed: err == nil || string(src) == specFmt(string(src))

//@ func formatCode(code []byte) (r []byte)
//@ prop C15
//@ modifies ghostCode
//@ ensures formatted: string(r) == specFmt(string(code))
//@ ensures last: string(ghostCode) == string(code)

//@ func applyTemplateFromPath(templFP string, data *gengokit.Data) (r io.Reader, err error)
//@ prop C15
//@ requires set: data != nil
//@ modifies any ghost:reader
//@ ensures rendered: err != nil && r == nil || err == nil && r != nil && gengokit.SpecRender(vReader(r), templFiles.MustAssetString(templFP), data, data.FuncMap)

//@ extern bytes.NewReader(b []byte) (r *bytes.Reader)
//@ modifies any ghost:reader
//@ ensures new: vFresh(r) && r != nil && vSame(vReader(r), b)

//@ func responseInfo(r interface{}, outPath string) ()
//@ trusted

// specOwnedPath: the templates of files users own.
func specOwnedPath(path string, client bool) bool {
	return path == service.ServiceWrapperPath || path == service.CmdServerPath || client && path == service.CmdClientPath ||
		path == service.ServerEndpointsPath || path == service.ServerInterruptPath || path == service.ServerWrapperPath
}

//@ func generateResponseFile(templFP string, data *gengokit.Data, prevFile io.Reader) (r io.Reader, err error)
//@ prop C15
//@ requires set: ErrGenIgnored != nil && data != nil && data.Service != nil && vAll(0, len(data.Service.Methods), func(i int) bool { return data.Service.Methods[i] != nil })
//@ modifies ghostCode, any ghost:reader
//@ let prev []byte = vReader(prevFile)
//@ ensures one: (err == nil) == (r != nil)
//@ ensures owned: err != nil || prevFile == nil || !specOwnedPath(templFP, data.Config.GenClient) || string(vReader(r)) == specFmt(string(prev))
//@ ensures rendered: err != nil || templFP == service.ServicePath || prevFile != nil && specOwnedPath(templFP, data.Config.GenClient) || gengokit.SpecRender(ghostCode, templFiles.MustAssetString(templFP), data, data.FuncMap) && string(vReader(r)) == specFmt(string(ghostCode))
//@ ensures ignored: data.Config.GenClient || templFP != service.CmdClientPath || err == ErrGenIgnored

// specName: the path the file was opened with.
//@ func specName(f *os.File) (r string)
//@ attr abstract
func specName(f *os.File) string { return "" }

//@ extern os.MkdirAll(path string, perm os.FileMode) (err error)
//@ modifies ghostFS
//@ ensures log: vSame(ghostFS, append(vOld(func() []string { return ghostFS }), "mkdir "+path))

//@ extern os.Create(name string) (f *os.File, err error)
//@ modifies ghostFS
//@ ensures log: vSame(ghostFS, append(vOld(func() []string { return ghostFS }), "create "+name))
//@ ensures file: err != nil || f != nil && specName(f) == name

//@ extern io.Copy(dst io.Writer, src io.Reader) (n int64, err error)
//@ requires set: dst != nil && src != nil
//@ modifies ghostFS, any ghost:reader
//@ ensures log: vSame(ghostFS, append(vOld(func() []string { return ghostFS }), "write "+specName(dst.(*os.File))+" "+string(vOld(func() []byte { return vReader(src) }))))

//@ extern (*os.File).Close(f *os.File) (err error)
//@ requires open: f != nil

//@ extern path/filepath.Dir(path string) (r string)
//@ pure

// specWriting: the first n steps of writing the content to the path.
func specWriting(path string, content string, n int) []string {
	r := []string{}
	if n >= 1 {
		r = append(r, "mkdir "+filepath.Dir(path))
	}
	if n >= 2 {
		r = append(r, "create "+path)
	}
	if n >= 3 {
		r = append(r, "write "+path+" "+content)
	}
	return r
}

//@ func WriteGenFile(file io.Reader, path string) (err error)
//@ prop C15
//@ requires set: file != nil
//@ modifies ghostFS, any ghost:reader
//@ let old []string = ghostFS
//@ let content string = string(vReader(file))
//@ ensures steps: vSame(ghostFS, append(old, specWriting(path, content, 1)...)) || vSame(ghostFS, append(old, specWriting(path, content, 2)...)) || vSame(ghostFS, append(old, specWriting(path, content, 3)...))
//@ ensures written: err != nil || vSame(ghostFS, append(old, specWriting(path, content, 3)...))

//@ extern (github.com/teamlint/baron/gengokit.Renderable).Render(x gengokit.Renderable, path string, data *gengokit.Data) (r io.Reader, err error)
//@ modifies any ghost:reader
//@ ensures one: (err == nil) == (r != nil)
