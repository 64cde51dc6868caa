//go:build go1.18

package gengokit

import (
	"bytes"
	"io"
	"text/template"

	templFiles "github.com/teamlint/baron/gengokit/template"
)

var _, _, _ = bytes.NewBuffer, templFiles.Asset, io.Copy

// Contracts of the rendering of templates.

// specText: the text the template was parsed from, with the functions it may call.
//@ func specText(t *template.Template) (r string)
//@ attr abstract
func specText(t *template.Template) string { return "" }

//@ func specFuncs(t *template.Template) (r interface{})
//@ attr abstract
func specFuncs(t *template.Template) interface{} { return nil }

// SpecRender: the content is what the template text makes of the data.
//@ func SpecRender(content []byte, text string, data interface{}, funcs interface{}) (r bool)
//@ attr abstract
func SpecRender(content []byte, text string, data interface{}, funcs interface{}) bool {
	return false
}

//@ extern text/template.New(name string) (t *template.Template)
//@ ensures set: t != nil

//@ extern (*text/template.Template).Funcs(t *template.Template, funcs template.FuncMap) (r *template.Template)
//@ requires set: t != nil
//@ ensures funcs: r != nil && specFuncs(r) == interface{}(funcs)

//@ extern (*text/template.Template).Parse(t *template.Template, text string) (r *template.Template, err error)
//@ requires set: t != nil
//@ ensures text: err != nil || r != nil && specText(r) == text && specFuncs(r) == specFuncs(t)

//@ extern (*text/template.Template).Execute(t *template.Template, wr io.Writer, data interface{}) (err error)
//@ requires set: t != nil && wr != nil
//@ modifies any ghost:reader
//@ ensures out: err != nil || len(vOld(func() []byte { return vReader(wr) })) != 0 || SpecRender(vReader(wr), specText(t), data, specFuncs(t))

//@ extern bytes.NewBuffer(buf []byte) (b *bytes.Buffer)
//@ modifies any ghost:reader
//@ ensures new: vFresh(b) && b != nil && vSame(vReader(b), buf)

//@ func ApplyTemplate(templ string, templName string, data interface{}, funcMap template.FuncMap) (r io.Reader, err error)
//@ prop C15
//@ modifies any ghost:reader
//@ ensures rendered: err != nil && r == nil || err == nil && r != nil && SpecRender(vReader(r), templ, data, funcMap)

//@ func (e *Data) ApplyTemplate(templ string, templName string) (r io.Reader, err error)
//@ prop C15
//@ requires set: e != nil
//@ modifies any ghost:reader
//@ ensures rendered: err != nil && r == nil || err == nil && r != nil && SpecRender(vReader(r), templ, e, e.FuncMap)

//@ func (e *Data) ApplyTemplateFromPath(templFP string) (r io.Reader, err error)
//@ prop C15
//@ requires set: e != nil
//@ modifies any ghost:reader
//@ ensures rendered: err != nil && r == nil || err == nil && r != nil && SpecRender(vReader(r), templFiles.MustAssetString(templFP), e, e.FuncMap)
