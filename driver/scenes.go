package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
)

// A scene is the setting of an exhaustive walk: a key table, a few writes that
// lead from the empty tree to the first contents, and the writes that are tried
// everywhere. What the writes and queries should do is for the specification to
// say.
type scene struct {
	Name  string          `json:"name"`
	Keys  [][]int         `json:"keys"`
	Build [][]interface{} `json:"build"` // o, k, x
	Ops   [][]interface{} `json:"ops"`   // o, k
	Probe []int           `json:"probe"`

	// length of the blocks that the keys are stretched to, and the place of the
	// byte that is in the table
	Block, Place int

	Scopes []int `json:"scopes"` // watches that are observed
	Progs  []int `json:"progs"`  // programs that are run
}

type draft struct {
	name  string
	hot   [][]byte // inserted and deleted
	dp    [][]byte // prefix deletes
	probe [][]byte // further keys to ask for
	fill  [][]byte // inserted at first, in this order
	ghost [][]byte // inserted at first and deleted again before the walk
	early bool     // the ghosts are inserted before the others
	start [][]byte // hot keys that are there at first

	block, place int
}

func (d *draft) scene() scene {
	all := [][]byte{}
	for _, l := range [][][]byte{d.hot, d.dp, d.probe, d.fill, d.ghost, d.start} {
		all = append(all, l...)
	}
	u := newUniverse(d.name, all, nil)
	s := scene{Name: d.name, Keys: keyInts(u.keys), Block: d.block, Place: d.place}
	order := [][][]byte{d.fill, d.start, d.ghost}
	if d.early {
		order = [][][]byte{d.ghost, d.fill, d.start}
	}
	for _, l := range order {
		for _, k := range l {
			s.Build = append(s.Build, []interface{}{"ins", u.pos(k), 1})
		}
	}
	for _, k := range d.ghost {
		s.Build = append(s.Build, []interface{}{"del", u.pos(k), 0})
	}
	if s.Build == nil {
		s.Build = [][]interface{}{}
	}
	for _, o := range []string{"ins", "del"} {
		for _, k := range d.hot {
			s.Ops = append(s.Ops, []interface{}{o, u.pos(k)})
		}
	}
	for _, k := range d.dp {
		s.Ops = append(s.Ops, []interface{}{"dp", u.pos(k)})
	}
	seen := map[int]bool{}
	for _, l := range [][][]byte{d.hot, d.dp, d.probe} {
		for _, k := range l {
			if p := u.pos(k); !seen[p] {
				seen[p] = true
				s.Probe = append(s.Probe, p)
			}
		}
	}
	sort.Ints(s.Probe)
	return s
}

func strs(s ...string) [][]byte {
	var out [][]byte
	for _, x := range s {
		out = append(out, []byte(x))
	}
	return out
}

func words(alphabet string, depth int) [][]byte {
	out := [][]byte{{}}
	layer := out
	for d := 0; d < depth; d++ {
		var next [][]byte
		for _, k := range layer {
			for _, c := range []byte(alphabet) {
				next = append(next, cat(k, []byte{c}))
			}
		}
		out = append(out, next...)
		layer = next
	}
	return out
}

// thresholdDraft puts a node near the number of children at which it changes
// its size. The node lies below the path p.
func thresholdDraft(r *rand.Rand, name string, p []byte, size, above int) *draft {
	d := &draft{name: name, early: r.Intn(2) == 0}
	perm := r.Perm(256)
	// the first and the last edge are among the children or the new ones
	place := func(b, at int) {
		for i, x := range perm {
			if x == b {
				perm[i], perm[at] = perm[at], perm[i]
				return
			}
		}
	}
	spots := []int{0, size - 1, r.Intn(size), size + above, size + above + 1, 255}
	if above > 1 && r.Intn(3) > 0 {
		spots = []int{0, size / 2, size - 1} // they are there when the node shrinks
	}
	r.Shuffle(len(spots), func(i, j int) { spots[i], spots[j] = spots[j], spots[i] })
	place(0, spots[0])
	place(255, spots[1])
	edge := func(i int) []byte { return cat(p, []byte{byte(perm[i])}) }
	// keys below a child, so that some children are inner nodes
	deep := func(k []byte) []byte {
		switch r.Intn(4) {
		case 0:
			return cat(k, []byte("y"))
		case 1:
			return cat(k, bytes.Repeat([]byte("z"), 11))
		}
		return k
	}
	i := 0
	for ; i < size; i++ {
		k := edge(i)
		d.fill = append(d.fill, k)
		if r.Intn(6) == 0 {
			d.fill = append(d.fill, deep(cat(k, []byte("w"))))
		}
	}
	for ; i < size+above; i++ {
		d.ghost = append(d.ghost, edge(i))
	}
	// one of the first ones, two new ones, the key that ends at the node, and
	// something that splits the path above it
	d.hot = append(d.hot, d.fill[0], deep(edge(i)), deep(edge(i+1)), p)
	if size > 1 && r.Intn(3) == 0 {
		d.hot = append(d.hot, edge(size-1))
	} else if len(p) > 0 {
		c := append([]byte{}, p...)
		c[r.Intn(len(c))] ^= 1
		d.hot = append(d.hot, c)
	} else {
		d.hot = append(d.hot, deep(edge(i+2)))
	}
	if r.Intn(2) == 0 {
		d.start = append(d.start, p)
	}
	d.dp = [][]byte{cat(edge(0)), cat(edge(i))}
	if r.Intn(3) == 0 {
		d.dp[1] = p[:r.Intn(len(p)+1)] // everything below the node
	}
	d.probe = append(d.probe, edge(1), edge(i+3), cat(p, []byte{0}), cat(p, []byte{255}), cat(p, []byte{0, 0}))
	if len(p) > 1 {
		d.probe = append(d.probe, p[:len(p)-1], p[:len(p)/2])
	}
	return d
}

// longDraft has a compressed path of length n with everything that can happen
// to it: an end inside, a change inside, branches below.
func longDraft(r *rand.Rand, name string, n int) *draft {
	p := repeat(r, []byte("pq"), n)
	at := []int{0, n / 2, n - 1, 9, 10}[r.Intn(5)]
	if at >= n {
		at = n - 1
	}
	c := append([]byte{}, p...)
	c[at] = 'z'
	d := &draft{name: name, hot: [][]byte{cat(p, []byte("a")), cat(p, []byte("b")), p[:at], c}}
	if r.Intn(2) == 0 {
		d.hot = append(d.hot, cat(p, []byte("ax")))
	} else {
		d.hot = append(d.hot, p)
	}
	d.dp = [][]byte{p[:n-1], p[:(n+1)/2]}
	d.probe = [][]byte{p, cat(p, []byte("c")), cat(c, []byte("a")), p[:n-1], append(append([]byte{}, p[:n-1]...), 'z'), {}, p[:1]}
	if n > 10 {
		d.probe = append(d.probe, p[:10], p[:11], append(append([]byte{}, p[:10]...), 'z'))
	}
	return d
}

func drafts(r *rand.Rand, n int, watch bool) []*draft {
	var out []*draft
	add := func(d *draft) { out = append(out, d) }
	add(&draft{name: "tiny", hot: strs("", "a", "ab", "b", "aa"), dp: strs("a", "aa"), probe: words("ab", 2)})
	add(&draft{name: "zeros", hot: strs("", "\x00", "\x00\x00", "\x00\x01", "\x01"), dp: strs("\x00", ""), probe: words("\x00\x01", 2)})
	add(&draft{name: "ends", hot: strs("\xff", "\xff\xff", "\xfe\xff", "\x00\xff", "\xff\x00"), dp: strs("\xff", "\xfe"), probe: words("\x00\xff", 2)})
	add(&draft{name: "fork", hot: strs("aaxx", "aaxy", "aayx", "b", "aax"), dp: strs("aax", "aa"),
		probe: strs("", "a", "aay", "aaxz", "ab", "aaxxx", "c")})
	add(&draft{name: "dollar", hot: strs("a", "a$", "a$b", "$", "a$$"), dp: strs("a$", "$"), probe: strs("", "$$", "a$$$", "b", "a#")})
	add(&draft{name: "chain", hot: strs("a", "abc", "abcde", "abcdefg", "abx"), dp: strs("abc", "abcd"),
		probe: strs("", "ab", "abcd", "abcdef", "abcdefgh", "abd", "x")})
	for _, l := range []int{8, 9, 10, 11, 12, 13, 21, 22} {
		add(longDraft(r, "long", l))
	}
	// two long paths below each other
	for _, l := range []int{10, 11} {
		p := repeat(r, []byte("p"), l)
		q := repeat(r, []byte("q"), 10+r.Intn(3))
		add(&draft{name: "twolong", hot: [][]byte{cat(p, q, []byte("1")), cat(p, q, []byte("2")), cat(p, []byte("b")), p[:4], cat(p, q[:5])},
			dp: [][]byte{cat(p, q[:3]), p[:l-1]}, probe: [][]byte{p, cat(p, q), cat(p, q[:9]), cat(p, []byte("c")), {}, cat(p, q, []byte("3"))}})
	}
	path := func() []byte {
		return repeat(r, []byte{'m', 0}, []int{0, 1, 2, 9, 10, 11, 13}[r.Intn(7)])
	}
	// about to grow
	for _, s := range []int{2, 3, 14, 15, 46, 47} {
		add(thresholdDraft(r, "grow", path(), s, r.Intn(2)))
	}
	add(thresholdDraft(r, "grow", path(), 47, 1))
	// about to shrink
	for _, s := range [][2]int{{4, 3}, {3, 4}, {14, 6}, {13, 8}, {39, 12}, {38, 14}, {38, 11}} {
		add(thresholdDraft(r, "shrink", path(), s[0], s[1]))
	}
	// once large and nearly empty now
	for _, s := range [][2]int{{1, 17 + r.Intn(4)}, {2, 49 + r.Intn(12)}} {
		add(thresholdDraft(r, "drained", path(), s[0], s[1]))
	}
	// the rest at random
	for len(out) < n {
		u := pickUniverse(r, false, watch)
		d := &draft{name: "random-" + u.family, block: u.block, place: u.place}
		if d.block > 1000 {
			d.block = 12
			d.place %= 12
		}
		hot := r.Perm(len(u.hot))
		for i, j := range hot {
			k := u.keys[u.hot[j]-1]
			switch {
			case i < 5:
				d.hot = append(d.hot, k)
			case i < 7:
				d.dp = append(d.dp, k)
			case r.Intn(3) > 0:
				d.fill = append(d.fill, k)
			case r.Intn(3) > 0:
				d.ghost = append(d.ghost, k)
			}
		}
		for i := 0; i < 7; i++ {
			d.probe = append(d.probe, u.keys[r.Intn(u.n())])
		}
		if len(d.hot) > 2 {
			add(d)
		}
	}
	for _, d := range out {
		if d.block == 0 && d.name != "long" && r.Intn(6) == 0 {
			d.block = []int{2, 3, 6, 11, 12}[r.Intn(5)]
			if !watch {
				d.place = []int{0, d.block - 1, r.Intn(d.block)}[r.Intn(3)]
			}
		}
	}
	return out
}

func mainScenes(args []string) {
	fs := flag.NewFlagSet("scenes", flag.ExitOnError)
	seed := fs.Int64("seed", 0, "seed")
	n := fs.Int("n", 40, "number of scenes")
	focus := fs.String("focus", "C01", "property")
	out := fs.String("out", "", "output")
	kinds := fs.String("kinds", "", "output")
	ops := fs.Int("ops", 0, "keep so many writes, 0: all")
	progs := fs.Int("progs", 0, "number of programs to choose from")
	probes := fs.Int("probes", 0, "keep so many probes, 0: all")
	per := fs.Int("per", 0, "programs per scene")
	fs.Parse(args)
	if *kinds != "" {
		plan, ok := walkPlanOf(*focus)
		if !ok {
			fail(fmt.Errorf("no walk for %s", *focus))
		}
		ks, err := json.Marshal(append([]string{}, plan.kinds...))
		fail(err)
		fail(os.WriteFile(*kinds, append(ks, '\n'), 0o644))
	}
	f, err := os.Create(*out)
	fail(err)
	enc := json.NewEncoder(f)
	r := rand.New(rand.NewSource(*seed))
	turn := r.Intn(1000)
	for _, d := range drafts(r, *n, watching(*focus)) {
		s := d.scene()
		if *ops > 0 && *ops < len(s.Ops) {
			r.Shuffle(len(s.Ops), func(i, j int) { s.Ops[i], s.Ops[j] = s.Ops[j], s.Ops[i] })
			s.Ops = s.Ops[:*ops]
		}
		if *probes > 0 && *probes < len(s.Probe) {
			r.Shuffle(len(s.Probe), func(i, j int) { s.Probe[i], s.Probe[j] = s.Probe[j], s.Probe[i] })
			s.Probe = s.Probe[:*probes]
			sort.Ints(s.Probe)
		}
		s.Scopes, s.Progs = []int{}, []int{}
		if bp, ok := behPlanOf(*focus); ok {
			if strings.Contains(bp.scopes, "k") {
				s.Scopes = append(s.Scopes, s.Probe...)
			}
			if strings.Contains(bp.scopes, "p") {
				for _, p := range s.Probe {
					s.Scopes = append(s.Scopes, len(s.Keys)+p)
				}
			}
		}
		for i := 0; i < *per && i < *progs; i++ {
			s.Progs = append(s.Progs, 1+turn%*progs)
			turn++
		}
		fail(enc.Encode(s))
	}
	fail(f.Close())
}
