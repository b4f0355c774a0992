package cioutil

import (
	"io/fs"
	"io/ioutil"

	rt "verif.local/mc/rtcli"
)

func WriteFile(name string, data []byte, perm fs.FileMode) error {
	if e := rt.Op("ioutil.WriteFile", name); e != nil {
		if rt.Half() {
			_ = ioutil.WriteFile(name, data[:len(data)/2], perm)
		}
		return e
	}
	return ioutil.WriteFile(name, data, perm)
}
