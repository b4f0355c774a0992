// Code generated by mcgen shim. DO NOT EDIT.

// Package vioutil stands in for io/ioutil in the instrumented code.
package vioutil

import (
	"io/fs"
	"io/ioutil"
	"os"
	rt "verif.local/mc/rt"
)

var Discard = ioutil.Discard
var NopCloser = ioutil.NopCloser
var ReadAll = ioutil.ReadAll

func ReadDir(a0 string) (r0 []fs.FileInfo, r1 error) {
	if e := rt.Op("ioutil.ReadDir", a0); e != nil {
		r1 = e
		return
	}
	return ioutil.ReadDir(a0)
}
func ReadFile(a0 string) (r0 []byte, r1 error) {
	if e := rt.Op("ioutil.ReadFile", a0); e != nil {
		r1 = e
		return
	}
	return ioutil.ReadFile(a0)
}
func TempDir(a0 string, a1 string) (r0 string, r1 error) {
	if e := rt.Op("ioutil.TempDir", a0, a1); e != nil {
		r1 = e
		return
	}
	return ioutil.TempDir(a0, a1)
}
func TempFile(a0 string, a1 string) (r0 *os.File, r1 error) {
	if e := rt.Op("ioutil.TempFile", a0, a1); e != nil {
		r1 = e
		return
	}
	return ioutil.TempFile(a0, a1)
}
func WriteFile(a0 string, a1 []byte, a2 fs.FileMode) (r0 error) {
	if e := rt.Op("ioutil.WriteFile", a0); e != nil {
		r0 = e
		return
	}
	return ioutil.WriteFile(a0, a1, a2)
}
