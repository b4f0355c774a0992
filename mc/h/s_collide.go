package h

import (
	"crypto/md5"
	"crypto/sha1"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"hash/adler32"
	"hash/crc32"
	"hash/crc64"
	"hash/fnv"
	"math/bits"
	"sort"
	"sync"

	"verif.local/mc/rt"
)

// The collide suite: different contents which weaker ways to compare files take for the same one.

func init() {
	register(&Suite{Name: "collide", Props: []string{"C08", "C17"}, Mode: rt.Seq, CrashTags: []string{"C17", "C12"}, HangTags: []string{"C23"}, Run: runCollide})
}

func xx32(b []byte, seed uint32) uint32 {
	const p1, p2, p3, p4, p5 = 2654435761, 2246822519, 3266489917, 668265263, 374761393
	n := len(b)
	var h uint32
	if n >= 16 {
		v := [4]uint32{seed, seed, seed, seed}
		v[0] += p1
		v[0] += p2
		v[1] += p2
		v[3] -= p1
		for len(b) >= 16 {
			for i := range v {
				v[i] = bits.RotateLeft32(v[i]+binary.LittleEndian.Uint32(b[4*i:])*p2, 13) * p1
			}
			b = b[16:]
		}
		h = bits.RotateLeft32(v[0], 1) + bits.RotateLeft32(v[1], 7) + bits.RotateLeft32(v[2], 12) + bits.RotateLeft32(v[3], 18)
	} else {
		h = seed + p5
	}
	h += uint32(n)
	for ; len(b) >= 4; b = b[4:] {
		h = bits.RotateLeft32(h+binary.LittleEndian.Uint32(b)*p3, 17) * p4
	}
	for _, c := range b {
		h = bits.RotateLeft32(h+uint32(c)*p5, 11) * p1
	}
	h = (h ^ h>>15) * p2
	h = (h ^ h>>13) * p3
	return h ^ h>>16
}

type weakHash struct {
	name string
	f    func(b []byte) uint64
}

func weakHashes() []weakHash {
	be := func(b []byte) uint64 { return uint64(binary.BigEndian.Uint32(b)) }
	a := []weakHash{
		{"xxhash32", func(b []byte) uint64 { return uint64(xx32(b, 0)) }},
		{"crc32", func(b []byte) uint64 { return uint64(crc32.ChecksumIEEE(b)) }},
		{"crc32c", func(b []byte) uint64 { return uint64(crc32.Checksum(b, crc32.MakeTable(crc32.Castagnoli))) }},
		{"adler32", func(b []byte) uint64 { return uint64(adler32.Checksum(b)) }},
		{"fnv32", func(b []byte) uint64 { h := fnv.New32(); h.Write(b); return uint64(h.Sum32()) }},
		{"fnv32a", func(b []byte) uint64 { h := fnv.New32a(); h.Write(b); return uint64(h.Sum32()) }},
		{"bytesum", func(b []byte) uint64 {
			var s uint64
			for _, c := range b {
				s += uint64(c)
			}
			return s
		}},
		{"wordxor", func(b []byte) uint64 {
			var s uint32
			for i, c := range b {
				s ^= uint32(c) << (8 * (i % 4))
			}
			return uint64(s)
		}},
		{"md5/0:4", func(b []byte) uint64 { s := md5.Sum(b); return be(s[:]) }},
		{"md5/12:16", func(b []byte) uint64 { s := md5.Sum(b); return be(s[12:]) }},
		{"xxhash32(sha1)", func(b []byte) uint64 { s := sha1.Sum(b); return uint64(xx32(s[:], 0)) }},
		{"crc32(sha1)", func(b []byte) uint64 { s := sha1.Sum(b); return uint64(crc32.ChecksumIEEE(s[:])) }},
	}
	for i := 0; i <= 16; i += 4 {
		a = append(a, weakHash{fmt.Sprintf("sha1/%d:%d", i, i+4), func(b []byte) uint64 { s := sha1.Sum(b); return be(s[i:]) }})
	}
	return a
}

var (
	collMu sync.Mutex
	colls  = map[string][2][]byte{}
)

// collision finds two different contents of equal length with the same weak hash.
func collision(h weakHash) (x, y []byte) {
	collMu.Lock()
	defer collMu.Unlock()
	if c, ok := colls[h.name]; ok {
		return c[0], c[1]
	}
	const tail = 10 // letters
	var w [2][]byte
	for v := range w {
		w[v] = append([]byte(fmt.Sprintf("version %d of the plugin ", v+1)), make([]byte, tail)...)
	}
	set := func(b []byte, n int) []byte {
		z := uint64(n) + 1
		z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
		z = (z ^ z>>27) * 0x94d049bb133111eb
		z ^= z >> 31
		for i := len(b) - tail; i < len(b); i++ {
			b[i] = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz+-"[z%64]
			z /= 64
		}
		return b
	}
	seen := map[uint64]int{}
	for n := 0; n < 1<<23; n++ {
		// the two versions in turn; whatever the other one has seen is a hit
		if n < 1<<17 {
			seen[h.f(set(w[0], n))] = n
			continue
		}
		if m, ok := seen[h.f(set(w[1], n))]; ok {
			x, y = append([]byte(nil), set(w[0], m)...), append([]byte(nil), w[1]...)
			colls[h.name] = [2][]byte{x, y}
			return x, y
		}
	}
	panic("no collision of " + h.name)
}

// collision64 solves the linear equations of a CRC of 64 bits.
func collision64(f func([]byte) uint64) (x, y []byte) {
	x = []byte("version 1 of the plugin ----------------")
	y = []byte("version 2 of the plugin ----------------")
	want := f(x) ^ f(y)
	type row struct {
		v    uint64
		bits [2]uint64
	}
	base := f(y)
	off := len(y) - 16
	var basis []row
	reduce := func(r row) row {
		for _, b := range basis {
			if r.v^b.v < r.v {
				r.v ^= b.v
				r.bits[0] ^= b.bits[0]
				r.bits[1] ^= b.bits[1]
			}
		}
		return r
	}
	for i := 0; i < 128; i++ {
		y[off+i/8] ^= 1 << (i % 8)
		r := row{v: f(y) ^ base}
		r.bits[i/64] = 1 << (i % 64)
		y[off+i/8] ^= 1 << (i % 8)
		if r = reduce(r); r.v != 0 {
			basis = append(basis, r)
			sort.Slice(basis, func(a, b int) bool { return basis[a].v > basis[b].v })
		}
	}
	r := reduce(row{v: want})
	if r.v != 0 {
		panic("no solution")
	}
	for i := 0; i < 128; i++ {
		if r.bits[i/64]>>(i%64)&1 == 1 {
			y[off+i/8] ^= 1 << (i % 8)
		}
	}
	if f(x) != f(y) {
		panic("not a solution")
	}
	return x, y
}

func runCollide(r *Runner) {
	type pair struct {
		name string
		f    func() ([]byte, []byte)
	}
	var pairs []pair
	for _, h := range weakHashes() {
		pairs = append(pairs, pair{h.name, func() ([]byte, []byte) { return collision(h) }})
	}
	for name, tab := range map[string]uint64{"crc64iso": crc64.ISO, "crc64ecma": crc64.ECMA} {
		pairs = append(pairs, pair{name, func() ([]byte, []byte) {
			return collision64(func(b []byte) uint64 { return crc64.Checksum(b, crc64.MakeTable(tab)) })
		}})
	}
	pairs = append(pairs,
		pair{"md5", func() ([]byte, []byte) {
			x, _ := hex.DecodeString("d131dd02c5e6eec4693d9a0698aff95c2fcab58712467eab4004583eb8fb7f8955ad340609f4b30283e488832571415a085125e8f7cdc99fd91dbdf280373c5bd8823e3156348f5bae6dacd436c919c6dd53e2b487da03fd02396306d248cda0e99f33420f577ee8ce54b67080a80d1ec69821bcb6a8839396f9652b6ff72a70")
			y, _ := hex.DecodeString("d131dd02c5e6eec4693d9a0698aff95c2fcab50712467eab4004583eb8fb7f8955ad340609f4b30283e4888325f1415a085125e8f7cdc99fd91dbd7280373c5bd8823e3156348f5bae6dacd436c919c6dd53e23487da03fd02396306d248cda0e99f33420f577ee8ce54b67080280d1ec69821bcb6a8839396f965ab6ff72a70")
			if md5.Sum(x) != md5.Sum(y) {
				panic("no collision of md5")
			}
			return x, y
		}},
		pair{"letters", func() ([]byte, []byte) { return []byte("version Ab"), []byte("version aB") }},
		pair{"swapped", func() ([]byte, []byte) { return []byte("version 12"), []byte("version 21") }},
		pair{"sorted", func() ([]byte, []byte) { return []byte("v1 of line\nv2 of line\n"), []byte("v2 of line\nv1 of line\n") }},
		pair{"blanks", func() ([]byte, []byte) { return []byte("version 1 \n"), []byte("version 1\n\n") }},
		pair{"nul", func() ([]byte, []byte) { return []byte("version\x001"), []byte("version\x002") }},
		pair{"badutf8", func() ([]byte, []byte) { return []byte("version\xff"), []byte("version\xfe") }},
	)
	sort.Slice(pairs, func(i, j int) bool { return pairs[i].name < pairs[j].name })
	r.Bound("collisions", "%d pairs of different contents of equal length which agree in a weaker comparison (checksums, parts of SHA1, MD5, letter case, order, white space)", len(pairs))
	r.Bound("roles", "old and new version of a plugin, in either order; two plugins of one load, of successive loads, and that swap their contents' order")
	tags := []string{"C08", "C17"}
	for _, p := range pairs {
		for order := 0; order < 2; order++ {
			for _, role := range []string{"versions", "failed", "neighbours", "successive", "renamed"} {
				r.Case(fmt.Sprintf("collide/%s/%d/%s", p.name, order, role), func(c *Ctx) {
					x, y := p.f()
					if order == 1 {
						x, y = y, x
					}
					Seq(c, []string{"C23"}, func(w *World) {
						w.NewSwapper(Opts{})
						do := func(kind, label string) {
							w.Do(kind, 0, CB{}, CB{}, tags...)
							w.identity(label)
						}
						w.Put("b", &Spec{UID: "b1"})
						switch role {
						case "versions":
							w.Put("a", &Spec{UID: "x", Raw: x})
							do("Load", "load")
							w.Put("a", &Spec{UID: "y", Raw: y})
							do("Reload", "changed")
						case "failed": // the version that follows on one that was refused
							w.Put("a", &Spec{UID: "a1"})
							do("Load", "load")
							w.Put("a", &Spec{UID: "x", Raw: x, Faults: map[string]int{"OnLoad": FErr}})
							do("Reload", "refused")
							w.Put("a", &Spec{UID: "y", Raw: y})
							do("Reload", "changed")
						case "neighbours":
							w.Put("a", &Spec{UID: "x", Raw: x})
							w.Put("c", &Spec{UID: "y", Raw: y, Deps: []Dep{{Field: "A"}}})
							do("Load", "load")
						case "successive":
							w.Put("a", &Spec{UID: "x", Raw: x})
							do("Load", "load")
							w.Put("c", &Spec{UID: "y", Raw: y, Deps: []Dep{{Field: "A"}}})
							do("Reload", "added")
						case "renamed": // gone under one name, there under another
							w.Put("a", &Spec{UID: "x", Raw: x})
							do("Load", "load")
							w.Del("a")
							w.Put("c", &Spec{UID: "y", Raw: y})
							do("Reload", "renamed")
						}
						w.Put("b", &Spec{UID: "b2"})
						do("Reload", "other")
						do("Reload", "nothing")
						w.Retire("end")
					})
				})
			}
		}
	}
}
