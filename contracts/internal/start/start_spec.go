//go:build go1.18

package start

import (
	"bytes"
	"io"
	"os"
	"path/filepath"
	"strings"
	"text/template"

	"github.com/teamlint/baron/pkg"
)

var _, _, _, _, _ = os.Stat, filepath.Join, strings.Replace, template.New, pkg.GoCamelCase
var _, _ = bytes.NewBuffer, io.Copy

// Contracts of writing a starter definition.

// ghostFS is the history of the calls that touch the file system.
var ghostFS []string

// specExists: whether the path exists after that history.
//@ func specExists(h []string, path string) (r bool)
//@ attr abstract
func specExists(h []string, path string) bool { return false }

// specName: the path the file was opened with.
//@ func specName(f *os.File) (r string)
//@ attr abstract
func specName(f *os.File) string { return "" }

//@ extern os.Stat(name string) (fi os.FileInfo, err error)
//@ ensures exists: (err == nil) == specExists(ghostFS, name)

//@ extern os.MkdirAll(path string, perm os.FileMode) (err error)
//@ modifies ghostFS
//@ ensures log: vSame(ghostFS, append(vOld(func() []string { return ghostFS }), "mkdir "+path))

//@ extern os.Create(name string) (f *os.File, err error)
//@ modifies ghostFS
//@ ensures log: vSame(ghostFS, append(vOld(func() []string { return ghostFS }), "create "+name))
//@ ensures file: err != nil || f != nil && specName(f) == name

//@ extern (*os.File).Write(f *os.File, b []byte) (n int, err error)
//@ requires open: f != nil
//@ modifies ghostFS
//@ ensures log: vSame(ghostFS, append(vOld(func() []string { return ghostFS }), "write "+specName(f)+" "+string(b)))

// specDrop: s[i:] without c.
//@ func specDrop(s string, c byte, i int) (r string)
//@ dec: len(s) - i
func specDrop(s string, c byte, i int) string {
	if i < 0 || i >= len(s) {
		return ""
	}
	if s[i] == c {
		return specDrop(s, c, i+1)
	}
	return s[i:i+1] + specDrop(s, c, i+1)
}

// specCut: s[i:] without the occurrences of t, left to right.
//@ func specCut(s string, t string, i int) (r string)
//@ dec: len(s) - i
func specCut(s string, t string, i int) string {
	if i < 0 || i >= len(s) || t == "" {
		return ""
	}
	if i+len(t) <= len(s) && s[i:i+len(t)] == t {
		return specCut(s, t, i+len(t))
	}
	return s[i:i+1] + specCut(s, t, i+1)
}

// specSwap: s[i:] with c for every b.
//@ func specSwap(s string, b byte, c string, i int) (r string)
//@ dec: len(s) - i
func specSwap(s string, b byte, c string, i int) string {
	if i < 0 || i >= len(s) {
		return ""
	}
	if s[i] == b {
		return c + specSwap(s, b, c, i+1)
	}
	return s[i:i+1] + specSwap(s, b, c, i+1)
}

//@ extern strings.Replace(s string, old string, new string, n int) (r string)
//@ pure
//@ ensures drop: n >= 0 || len(old) != 1 || new != "" || r == specDrop(s, old[0], 0)
//@ ensures cut: n >= 0 || len(old) < 1 || new != "" || r == specCut(s, old, 0)
//@ ensures swap: n >= 0 || len(old) != 1 || r == specSwap(s, old[0], new, 0)

//@ extern strings.ReplaceAll(s string, old string, new string) (r string)
//@ pure
//@ ensures drop: len(old) != 1 || new != "" || r == specDrop(s, old[0], 0)
//@ ensures cut: len(old) < 1 || new != "" || r == specCut(s, old, 0)
//@ ensures swap: len(old) != 1 || r == specSwap(s, old[0], new, 0)

//@ extern strings.ToLower(s string) (r string)
//@ pure

//@ extern path/filepath.Join(elem ...string) (r string)
//@ pure

//@ func (p protoInfo) PackageName() (r string)
//@ prop C16
//@ pure
//@ ensures name: r == strings.ToLower(specDrop(specDrop(p.alias, '-', 0), ' ', 0))

//@ func (p protoInfo) FileName() (r string)
//@ prop C16
//@ pure
//@ ensures name: r == filepath.Join(p.out, strings.ToLower(specDrop(specDrop(p.alias, '-', 0), ' ', 0))+".proto")

//@ func (p protoInfo) ServiceName() (r string)
//@ prop C16
//@ pure
//@ ensures name: r == pkg.GoCamelCase(specSwap(specSwap(p.alias, '-', "_", 0), ' ', "_", 0))

// specText: the text the template was parsed from.
//@ func specText(t *template.Template) (r string)
//@ attr abstract
func specText(t *template.Template) string { return "" }

// specRender: what the template makes of the data.
//@ func specRender(text string, data interface{}) (r []byte)
//@ attr abstract
func specRender(text string, data interface{}) []byte { return nil }

//@ extern text/template.New(name string) (t *template.Template)
//@ ensures set: t != nil

//@ extern (*text/template.Template).Parse(t *template.Template, text string) (r *template.Template, err error)
//@ requires set: t != nil
//@ ensures text: err != nil || r != nil && specText(r) == text

// The templates are constants of the program that parse (Must panics otherwise).

//@ extern text/template.Must(t *template.Template, err error) (r *template.Template)
//@ ensures same: r == t && err == nil && r != nil

//@ extern (*text/template.Template).Execute(t *template.Template, wr io.Writer, data interface{}) (err error)
//@ requires set: t != nil && wr != nil
//@ modifies any ghost:reader
//@ ensures out: err != nil || vSame(vReader(wr), append(vOld(func() []byte { return vReader(wr) }), specRender(specText(t), data)...))

//@ extern bytes.NewBuffer(buf []byte) (b *bytes.Buffer)
//@ modifies any ghost:reader
//@ ensures new: vFresh(b) && b != nil && vSame(vReader(b), buf)

//@ extern (*bytes.Buffer).Bytes(b *bytes.Buffer) (r []byte)
//@ requires set: b != nil
//@ ensures all: vSame(r, vReader(b))

//@ func renderTemplate(name string, tmpl string, executor interface{}) (r []byte, err error)
//@ prop C16
//@ modifies any ghost:reader
//@ ensures render: err != nil || vSame(r, specRender(tmpl, executor))

//@ func removeDotProtoSuffix(pkg string) (r string)
//@ prop C16
//@ modifies any ghost:reader
//@ ensures cut: r == specCut(pkg, ".proto", 0)

// specInfo: the definition a name stands for.
func specInfo(pkg string, outDir string) protoInfo {
	if pkg == "" {
		pkg = "start"
	}
	return protoInfo{alias: specCut(pkg, ".proto", 0), out: outDir}
}

// specDone: the first n steps of writing the definition.
func specDone(p protoInfo, n int) []string {
	r := []string{}
	if n >= 1 && p.out != "" {
		r = append(r, "mkdir "+filepath.Dir(p.FileName()))
	}
	if n >= 2 {
		r = append(r, "create "+p.FileName())
	}
	if n >= 3 {
		r = append(r, "write "+p.FileName()+" "+string(specRender(startProto, p)))
	}
	return r
}

func specUntil(h []string, old []string, p protoInfo, n int) bool {
	return vSame(h, append(old, specDone(p, n)...))
}

//@ extern path/filepath.Dir(path string) (r string)
//@ pure

//@ func Do(pkg string, outDir string) (code int)
//@ prop C16
//@ modifies ghostFS, any ghost:reader
//@ let old []string = ghostFS
//@ ensures kept: !specExists(old, specInfo(pkg, outDir).FileName()) || code != 0 && vSame(ghostFS, old)
//@ ensures steps: specUntil(ghostFS, old, specInfo(pkg, outDir), 0) || specUntil(ghostFS, old, specInfo(pkg, outDir), 1) || specUntil(ghostFS, old, specInfo(pkg, outDir), 2) || specUntil(ghostFS, old, specInfo(pkg, outDir), 3)
//@ ensures written: code != 0 || specUntil(ghostFS, old, specInfo(pkg, outDir), 3)
