//go:build go1.18

package template

// Contracts of the template texts, which are compressed into the program.

//@ func MustAssetString(name string) (r string)
//@ pure
//@ trusted

//@ func AssetString(name string) (r string, err error)
//@ trusted
//@ modifies nothing
//@ ensures text: err != nil || r == MustAssetString(name)

//@ func Asset(name string) (r []byte, err error)
//@ trusted
//@ modifies nothing
//@ ensures text: err != nil || string(r) == MustAssetString(name)
