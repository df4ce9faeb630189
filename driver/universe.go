package main

import (
	"bytes"
	"math/rand"
	"sort"
)

// A universe is the table of keys that one history may mention. The table is
// strictly increasing; keys are referred to by their position, from 1.
//
// A table can be stretched: then each byte of a key in the table stands for a
// block of bytes in the key that the library gets. All blocks have the same
// length and differ in one byte only, at the same place and in the same order
// as the bytes they stand for. So order and prefixes are those of the table, and
// if the place is the first one then so is the order of the lengths of common
// prefixes.
type universe struct {
	family string
	keys   [][]byte
	real   [][]byte // what the library gets
	block  int      // length of the blocks, 0 or 1: not stretched
	place  int
	index  map[string]int
	// hot are the keys that writes mostly choose from (positions).
	hot []int
}

func (u *universe) n() int { return len(u.keys) }

// key returns the bytes that the library gets for a position.
func (u *universe) key(i int) []byte { return u.real[i-1] }

// pos returns the position of a key, 0 if it is not in the table.
func (u *universe) pos(k []byte) int { return u.index[string(k)] }

func newUniverse(family string, hot, cold [][]byte) *universe {
	u := &universe{family: family, index: map[string]int{}}
	all := append(append([][]byte{}, hot...), cold...)
	sort.Slice(all, func(i, j int) bool { return bytes.Compare(all[i], all[j]) < 0 })
	for _, k := range all {
		if _, ok := u.index[string(k)]; ok {
			continue
		}
		u.keys = append(u.keys, append([]byte{}, k...))
		u.index[string(k)] = len(u.keys)
	}
	u.real = u.keys
	seen := map[int]bool{}
	for _, k := range hot {
		p := u.index[string(k)]
		if !seen[p] {
			seen[p] = true
			u.hot = append(u.hot, p)
		}
	}
	sort.Ints(u.hot)
	return u
}

// stretch replaces each byte by a block of n bytes that has it at place at.
func (u *universe) stretch(n, at int) *universe {
	if n <= 1 {
		return u
	}
	u.block, u.place = n, at
	u.real = nil
	u.index = map[string]int{}
	for i, k := range u.keys {
		b := bytes.Repeat([]byte{0x55}, n*len(k))
		for j, c := range k {
			b[n*j+at] = c
		}
		u.real = append(u.real, b)
		u.index[string(b)] = i + 1
	}
	return u
}

// stretched draws a universe of short keys and stretches it.
func stretchedUniverse(r *rand.Rand, watch bool) *universe {
	u := tinyUniverse(r)
	switch r.Intn(4) {
	case 0:
		u = pathUniverse(r)
	case 1:
		u = specialUniverse(r)
	case 2:
		u = wideUniverse(r, wideCounts[r.Intn(8)])
	}
	n := []int{2, 3, 5, 6, 10, 11, 12, 40, 256, 1000}[r.Intn(10)]
	if u.family == "tiny" && r.Intn(6) == 0 {
		n = 66000
	}
	u.family = "stretched"
	at := 0
	if !watch {
		at = []int{0, n - 1, r.Intn(n)}[r.Intn(3)]
	}
	return u.stretch(n, at)
}

var specialBytes = []byte{0x00, 0x01, 0x20, '$', '/', '0', 'a', 'b', 'z', 0x7f, 0x80, 0xfe, 0xff}

func pickBytes(r *rand.Rand, from []byte, n int) []byte {
	p := r.Perm(len(from))
	out := []byte{}
	for i := 0; i < n && i < len(p); i++ {
		out = append(out, from[p[i]])
	}
	return out
}

func cat(parts ...[]byte) []byte {
	out := []byte{}
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

func repeat(r *rand.Rand, alphabet []byte, n int) []byte {
	out := make([]byte, n)
	for i := range out {
		out[i] = alphabet[r.Intn(len(alphabet))]
	}
	return out
}

// neighbours returns keys near k: truncated, extended and changed in one byte.
func neighbours(r *rand.Rand, k []byte, n int) [][]byte {
	var out [][]byte
	for i := 0; i < n; i++ {
		c := append([]byte{}, k...)
		switch r.Intn(5) {
		case 0, 1:
			if len(c) > 0 {
				c = c[:r.Intn(len(c))]
			}
		case 2:
			c = append(c, specialBytes[r.Intn(len(specialBytes))])
		case 3:
			if len(c) > 0 {
				c[r.Intn(len(c))]++
			}
		case 4:
			if len(c) > 0 {
				c[r.Intn(len(c))]--
			}
		}
		out = append(out, c)
	}
	return out
}

// tiny: all strings up to a small length over two or three bytes.
func tinyUniverse(r *rand.Rand) *universe {
	ab := pickBytes(r, specialBytes, 2+r.Intn(2))
	depth := 3
	if len(ab) == 3 {
		depth = 2
	}
	var all [][]byte
	layer := [][]byte{{}}
	all = append(all, layer...)
	for d := 0; d < depth; d++ {
		var next [][]byte
		for _, k := range layer {
			for _, c := range ab {
				next = append(next, cat(k, []byte{c}))
			}
		}
		all = append(all, next...)
		layer = next
	}
	return newUniverse("tiny", all, nil)
}

// special: random short strings over unusual bytes.
func specialUniverse(r *rand.Rand) *universe {
	ab := pickBytes(r, specialBytes, 3+r.Intn(4))
	var hot, cold [][]byte
	for i := 0; i < 16; i++ {
		hot = append(hot, repeat(r, ab, r.Intn(5)))
	}
	for i := 0; i < 8; i++ {
		cold = append(cold, repeat(r, ab, r.Intn(5)))
	}
	return newUniverse("special", hot, cold)
}

// long: keys made of shared segments around the length of the stored part of a
// compressed path, with changes at chosen positions.
func longUniverse(r *rand.Rand) *universe {
	lens := []int{1, 2, 7, 8, 9, 10, 11, 12, 13, 19, 20, 21, 22, 23, 31, 33}
	ab := pickBytes(r, specialBytes, 1+r.Intn(3))
	segs := [][]byte{}
	for i := 0; i < 3; i++ {
		segs = append(segs, repeat(r, ab, lens[r.Intn(len(lens))]))
	}
	tail := pickBytes(r, specialBytes, 3)
	var hot, cold [][]byte
	for i := 0; i < 14; i++ {
		var k []byte
		for j, n := 0, r.Intn(4); j < n; j++ {
			k = cat(k, segs[r.Intn(len(segs))])
			if r.Intn(2) == 0 {
				k = append(k, tail[r.Intn(len(tail))])
			}
		}
		if r.Intn(3) == 0 && len(k) > 0 {
			// change one byte, often near the boundary of the stored part
			p := r.Intn(len(k))
			if b := 8 + r.Intn(5); r.Intn(2) == 0 && b < len(k) {
				p = b
			}
			k[p] = specialBytes[r.Intn(len(specialBytes))]
		}
		hot = append(hot, k)
	}
	for i := 0; i < 10; i++ {
		cold = append(cold, neighbours(r, hot[r.Intn(len(hot))], 1)...)
	}
	for i := 0; i < 3; i++ {
		hot = append(hot, neighbours(r, hot[r.Intn(len(hot))], 1)...)
	}
	return newUniverse("long", hot, cold)
}

var wideCounts = []int{3, 4, 5, 6, 12, 13, 16, 17, 18, 20, 37, 38, 48, 49, 50, 53, 60, 75}

// wide: many different bytes after one common prefix, with or without keys at
// the prefix itself and below the children.
func wideUniverse(r *rand.Rand, count int) *universe {
	plen := []int{0, 0, 1, 2, 9, 10, 11, 12, 20}[r.Intn(9)]
	p := repeat(r, pickBytes(r, specialBytes, 2), plen)
	perm := r.Perm(256)
	bs := []byte{}
	for i := 0; i < count; i++ {
		bs = append(bs, byte(perm[i]))
	}
	if count < 250 && r.Intn(4) > 0 {
		// the outermost edges
		bs[0], bs[1] = 0x00, 0xff
	}
	suffix := [][]byte{{}, {}, {}, {'x'}, repeat(r, []byte{'q'}, 11+r.Intn(3))}
	var hot, cold [][]byte
	uniform := r.Intn(2) == 0
	// how many children are inner nodes
	inner := []int{0, 12, 4, 100}[r.Intn(4)]
	for i, b := range bs {
		s := suffix[r.Intn(len(suffix))]
		if uniform {
			s = nil
		}
		hot = append(hot, cat(p, []byte{b}, s))
		if inner > 0 && (r.Intn(inner) == 0 || (i < 3 && r.Intn(2) == 0)) {
			hot = append(hot, cat(p, []byte{b}, s, []byte{'y'}), cat(p, []byte{b}, s, []byte{'y', 'z'}))
		}
	}
	if r.Intn(3) > 0 {
		hot = append(hot, p)
	}
	for i := 0; i < 4; i++ {
		cold = append(cold, neighbours(r, p, 1)...)
		cold = append(cold, neighbours(r, hot[r.Intn(len(hot))], 1)...)
		cold = append(cold, cat(p, []byte{byte(r.Intn(256))}))
	}
	if r.Intn(2) == 0 && len(p) > 0 {
		hot = append(hot, neighbours(r, p, 2)...)
	}
	return newUniverse("wide", hot, cold)
}

// path: hierarchical names.
func pathUniverse(r *rand.Rand) *universe {
	words := []string{"a", "ab", "usr", "usr2", "service", "services", "config", "c", ""}
	var hot, cold [][]byte
	mk := func() []byte {
		var k []byte
		for j, n := 0, 1+r.Intn(4); j < n; j++ {
			k = append(k, words[r.Intn(len(words))]...)
			if j+1 < n || r.Intn(3) == 0 {
				k = append(k, '/')
			}
		}
		return k
	}
	for i := 0; i < 18; i++ {
		hot = append(hot, mk())
	}
	for i := 0; i < 5; i++ {
		cold = append(cold, mk())
		cold = append(cold, neighbours(r, hot[r.Intn(len(hot))], 1)...)
	}
	return newUniverse("path", hot, cold)
}

// nested: a chain of prefixes of one long string and branches off it.
func nestedUniverse(r *rand.Rand) *universe {
	n := 4 + r.Intn(30)
	s := repeat(r, pickBytes(r, specialBytes, 1+r.Intn(2)), n)
	var hot, cold [][]byte
	for i := 0; i < 10; i++ {
		hot = append(hot, s[:r.Intn(n+1)])
	}
	for i := 0; i < 6; i++ {
		hot = append(hot, cat(s[:r.Intn(n+1)], []byte{specialBytes[r.Intn(len(specialBytes))]}, repeat(r, s, r.Intn(14))))
	}
	for i := 0; i < 8; i++ {
		cold = append(cold, neighbours(r, hot[r.Intn(len(hot))], 1)...)
	}
	return newUniverse("nested", hot, cold)
}

// huge: a few very long keys.
func hugeUniverse(r *rand.Rand) *universe {
	n := []int{255, 256, 257, 700}[r.Intn(4)]
	s := repeat(r, []byte{'h', 0x00}, n)
	hot := [][]byte{s, s[:n-1], s[:n/2], cat(s, s[:40]), {}, s[:1]}
	for i := 0; i < 5; i++ {
		c := append([]byte{}, s...)
		c[r.Intn(len(c))] ^= 0x81
		hot = append(hot, c)
	}
	cold := [][]byte{s[:11], s[:10], s[:9], cat(s, []byte{0xff})}
	return newUniverse("huge", hot, cold)
}

// pickUniverse draws a universe; small asks for tables of at most about 24 keys,
// watch tells whether lengths of common prefixes matter.
func pickUniverse(r *rand.Rand, small, watch bool) *universe {
	if r.Intn(10) == 0 {
		return stretchedUniverse(r, watch)
	}
	if small {
		switch r.Intn(8) {
		case 0, 1:
			return tinyUniverse(r)
		case 2:
			return specialUniverse(r)
		case 3, 4:
			return longUniverse(r)
		case 5:
			return nestedUniverse(r)
		case 6:
			return pathUniverse(r)
		default:
			return wideUniverse(r, []int{3, 4, 5, 6, 12, 16, 17, 18, 38, 49}[r.Intn(10)])
		}
	}
	switch r.Intn(16) {
	case 0, 1:
		return tinyUniverse(r)
	case 2, 3:
		return specialUniverse(r)
	case 4, 5, 6:
		return longUniverse(r)
	case 7, 8:
		return nestedUniverse(r)
	case 9, 10:
		return pathUniverse(r)
	case 11:
		return hugeUniverse(r)
	case 12:
		return twoWideUniverse(r)
	default:
		return wideUniverse(r, wideCounts[r.Intn(len(wideCounts))])
	}
}

// two wide: a wide node below a child of another one.
func twoWideUniverse(r *rand.Rand) *universe {
	counts := []int{5, 13, 17, 20, 38, 49, 52}
	a := wideUniverse(r, counts[r.Intn(len(counts))])
	b := wideUniverse(r, counts[r.Intn(4)])
	under := a.keys[r.Intn(a.n())]
	var hot, cold [][]byte
	for _, i := range a.hot {
		hot = append(hot, a.key(i))
	}
	for _, i := range b.hot {
		hot = append(hot, cat(under, b.key(i)))
	}
	for i := 0; i < 6; i++ {
		cold = append(cold, neighbours(r, hot[r.Intn(len(hot))], 1)...)
		cold = append(cold, neighbours(r, under, 1)...)
	}
	return newUniverse("twowide", hot, cold)
}
