//go:build go1.18

package main

import (
	"go/build"
	"os"
	"path/filepath"
)

var _, _, _ = filepath.Join, os.Stat, build.IsLocalImport

// Contracts of the handling of paths by the command.

// ghostFS is the history of the calls that change the file system.
var ghostFS []string

// specExists: whether the path exists after that history.
//@ func specExists(h []string, path string) (r bool)
//@ attr abstract
func specExists(h []string, path string) bool { return false }

// specAbs: the absolute path, and whether there is one.
//@ func specAbs(path string) (r string)
//@ attr abstract
func specAbs(path string) string { return "" }

//@ func specAbsOK(path string) (r bool)
//@ attr abstract
func specAbsOK(path string) bool { return false }

//@ extern path/filepath.Abs(path string) (r string, err error)
//@ ensures abs: (err == nil) == specAbsOK(path) && (err != nil && r == "" || err == nil && r == specAbs(path))

//@ extern path/filepath.Dir(path string) (r string)
//@ pure

//@ extern path/filepath.Join(elem ...string) (r string)
//@ pure

//@ extern go/build.IsLocalImport(path string) (r bool)
//@ pure

//@ extern os.Stat(name string) (fi os.FileInfo, err error)
//@ ensures exists: (err == nil) == specExists(ghostFS, name)

//@ extern os.RemoveAll(path string) (err error)
//@ modifies ghostFS
//@ ensures log: vSame(ghostFS, append(vOld(func() []string { return ghostFS }), path))

// specTogether: the first n paths have absolute forms in the directory of the first.
func specTogether(raw []string, n int) bool {
	return vAll(0, n, func(i int) bool {
		return specAbsOK(raw[i]) && filepath.Dir(specAbs(raw[i])) == filepath.Dir(specAbs(raw[0]))
	})
}

func specPaths(r []string, raw []string, n int) bool {
	return len(r) == n && vAll(0, n, func(i int) bool { return r[i] == specAbs(raw[i]) })
}

//@ func cleanProtofilePath(rawPaths []string) (r []string, err error)
//@ prop C17
//@ attr terminates
//@ modifies nothing
//@ ensures accepted: (err == nil) == specTogether(rawPaths, len(rawPaths))
//@ ensures paths: err != nil && len(r) == 0 || err == nil && specPaths(r, rawPaths, len(rawPaths))
//@ inv together(k int): 0 <= k && k <= len(rawPaths) && specTogether(rawPaths, k)
//@ inv paths(fullPaths []string, k int): 0 <= k && k <= len(rawPaths) && specPaths(fullPaths, rawPaths, k)

//@ func parseSVCOut(svcOut string, GOPATH string) (r string, err error)
//@ prop C17
//@ modifies nothing
//@ ensures local: !build.IsLocalImport(svcOut) || (err == nil) == specAbsOK(svcOut) && (err != nil || r == specAbs(svcOut))
//@ ensures src: build.IsLocalImport(svcOut) || err == nil && r == filepath.Join(GOPATH, "src", svcOut)

//@ func fileExists(path string) (r bool)
//@ prop C17
//@ modifies nothing
//@ ensures exists: r == specExists(ghostFS, path)

// specRemoved: the history after removing what exists at the path.
func specRemoved(h []string, path string) []string {
	if specExists(h, path) {
		return append(h, path)
	}
	return h
}

//@ func cleanupOldFiles(servicePath string, serviceName string) ()
//@ prop C17
//@ modifies ghostFS
//@ let old []string = ghostFS
//@ ensures removed: vSame(ghostFS, specRemoved(specRemoved(specRemoved(old, filepath.Join(servicePath, "svc/server/cli")), filepath.Join(servicePath, "svc/client/cli")), filepath.Join(servicePath, "cmd/"+serviceName+"-server")))
