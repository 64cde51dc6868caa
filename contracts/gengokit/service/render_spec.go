//go:build go1.18

package service

import (
	"io"

	"github.com/teamlint/baron/gengokit"
	"github.com/teamlint/baron/gengokit/template"
)

// Contracts of the files users own.

// specOwned: the previous file, or a rendering of the template when there is none.
func specOwned(r io.Reader, err error, prev io.Reader, path string, own string, data *gengokit.Data) bool {
	if path != own {
		return err != nil && r == nil
	}
	if prev != nil {
		return err == nil && r == prev && vSame(vReader(prev), vOld(func() []byte { return vReader(prev) }))
	}
	return err != nil && r == nil || err == nil && r != nil && gengokit.SpecRender(vReader(r), template.MustAssetString(path), data, data.FuncMap)
}

//@ func IsExcludedPath(path string) (r bool)
//@ prop C15
//@ attr terminates
//@ modifies nothing
//@ ensures excluded: r == (path == BaronPath || path == ServiceMethodsPath)
//@ inv searched(k int): 0 <= k && k <= 2 && (k <= 0 || path != BaronPath) && (k <= 1 || path != ServiceMethodsPath)

//@ func NewServer(prev io.Reader) (x gengokit.Renderable)
//@ prop C15
//@ attr inline
//@ modifies nothing
//@ ensures prev: x.(*ServerRender) != nil && x.(*ServerRender).prev == prev

//@ func (x *ServerRender) Render(path string, data *gengokit.Data) (r io.Reader, err error)
//@ prop C15
//@ requires set: x != nil && data != nil
//@ modifies any ghost:reader
//@ ensures owned: specOwned(r, err, x.prev, path, ServerPath, data)

//@ func (x *ServerRender) IsFirst() (r bool)
//@ prop C15
//@ requires set: x != nil
//@ modifies nothing
//@ ensures first: r == (x.prev == nil)

//@ func (x *ServerRender) IsModified() (r bool)
//@ prop C15
//@ modifies nothing
//@ ensures kept: r == true

//@ func NewServerWrapper(prev io.Reader) (x gengokit.Renderable)
//@ prop C15
//@ attr inline
//@ modifies nothing
//@ ensures prev: x.(*ServerWrapperRender) != nil && x.(*ServerWrapperRender).prev == prev

//@ func (x *ServerWrapperRender) Render(path string, data *gengokit.Data) (r io.Reader, err error)
//@ prop C15
//@ requires set: x != nil && data != nil
//@ modifies any ghost:reader
//@ ensures owned: specOwned(r, err, x.prev, path, ServerWrapperPath, data)

//@ func (x *ServerWrapperRender) IsFirst() (r bool)
//@ prop C15
//@ requires set: x != nil
//@ modifies nothing
//@ ensures first: r == (x.prev == nil)

//@ func (x *ServerWrapperRender) IsModified() (r bool)
//@ prop C15
//@ modifies nothing
//@ ensures kept: r == false

//@ func NewServerEndpoints(prev io.Reader) (x gengokit.Renderable)
//@ prop C15
//@ attr inline
//@ modifies nothing
//@ ensures prev: x.(*ServerEndpointsRender) != nil && x.(*ServerEndpointsRender).prev == prev

//@ func (x *ServerEndpointsRender) Render(path string, data *gengokit.Data) (r io.Reader, err error)
//@ prop C15
//@ requires set: x != nil && data != nil
//@ modifies any ghost:reader
//@ ensures owned: specOwned(r, err, x.prev, path, ServerEndpointsPath, data)

//@ func (x *ServerEndpointsRender) IsFirst() (r bool)
//@ prop C15
//@ requires set: x != nil
//@ modifies nothing
//@ ensures first: r == (x.prev == nil)

//@ func (x *ServerEndpointsRender) IsModified() (r bool)
//@ prop C15
//@ modifies nothing
//@ ensures kept: r == false

//@ func NewServerInterrupt(prev io.Reader) (x gengokit.Renderable)
//@ prop C15
//@ attr inline
//@ modifies nothing
//@ ensures prev: x.(*ServerInterruptRender) != nil && x.(*ServerInterruptRender).prev == prev

//@ func (x *ServerInterruptRender) Render(path string, data *gengokit.Data) (r io.Reader, err error)
//@ prop C15
//@ requires set: x != nil && data != nil
//@ modifies any ghost:reader
//@ ensures owned: specOwned(r, err, x.prev, path, ServerInterruptPath, data)

//@ func (x *ServerInterruptRender) IsFirst() (r bool)
//@ prop C15
//@ requires set: x != nil
//@ modifies nothing
//@ ensures first: r == (x.prev == nil)

//@ func (x *ServerInterruptRender) IsModified() (r bool)
//@ prop C15
//@ modifies nothing
//@ ensures kept: r == false

//@ func NewCmdClient(prev io.Reader) (x gengokit.Renderable)
//@ prop C15
//@ attr inline
//@ modifies nothing
//@ ensures prev: x.(*CmdClientRender) != nil && x.(*CmdClientRender).prev == prev

//@ func (x *CmdClientRender) Render(path string, data *gengokit.Data) (r io.Reader, err error)
//@ prop C15
//@ requires set: x != nil && data != nil
//@ modifies any ghost:reader
//@ ensures owned: specOwned(r, err, x.prev, path, CmdClientPath, data)

//@ func (x *CmdClientRender) IsFirst() (r bool)
//@ prop C15
//@ requires set: x != nil
//@ modifies nothing
//@ ensures first: r == (x.prev == nil)

//@ func (x *CmdClientRender) IsModified() (r bool)
//@ prop C15
//@ modifies nothing
//@ ensures kept: r == false

//@ func NewCmdServer(prev io.Reader) (x gengokit.Renderable)
//@ prop C15
//@ attr inline
//@ modifies nothing
//@ ensures prev: x.(*CmdServerRender) != nil && x.(*CmdServerRender).prev == prev

//@ func (x *CmdServerRender) Render(path string, data *gengokit.Data) (r io.Reader, err error)
//@ prop C15
//@ requires set: x != nil && data != nil
//@ modifies any ghost:reader
//@ ensures owned: specOwned(r, err, x.prev, path, CmdServerPath, data)

//@ func (x *CmdServerRender) IsFirst() (r bool)
//@ prop C15
//@ requires set: x != nil
//@ modifies nothing
//@ ensures first: r == (x.prev == nil)

//@ func (x *CmdServerRender) IsModified() (r bool)
//@ prop C15
//@ modifies nothing
//@ ensures kept: r == false

//@ func NewServiceWrapper(prev io.Reader) (x *ServiceWrapperRender)
//@ prop C15
//@ attr inline
//@ modifies nothing
//@ ensures prev: x != nil && x.prev == prev

//@ func (x *ServiceWrapperRender) Render(path string, data *gengokit.Data) (r io.Reader, err error)
//@ prop C15
//@ requires set: x != nil && data != nil
//@ modifies any ghost:reader
//@ ensures owned: specOwned(r, err, x.prev, path, ServiceWrapperPath, data)

//@ func (x *ServiceWrapperRender) IsFirst() (r bool)
//@ prop C15
//@ requires set: x != nil
//@ modifies nothing
//@ ensures first: r == (x.prev == nil)

//@ func (x *ServiceWrapperRender) IsModified() (r bool)
//@ prop C15
//@ modifies nothing
//@ ensures kept: r == false
