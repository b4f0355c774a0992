package cos

import rt "verif.local/mc/rtcli"

func RemoveAll(path string) error { return rt.RemoveAll(path) }
