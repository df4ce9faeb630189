package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	art "github.com/absolutelightning/go-immutable-adaptive-radix"
)

// The walk goes through the graph of contents that TLC printed, with the real
// library, along every sequence of writes up to some length. After each write
// the answers of the library are compared with those in the graph.

// row is one line of the printed graph.
type row struct {
	Scene int       `json:"scene"`
	M     []int     `json:"m"`
	Len   int       `json:"len"`
	Ans   [][][]int `json:"ans"`
	Res   []int     `json:"res"`
	Val   []int     `json:"val"`
	Next  [][]int   `json:"next"`
}

// contents is one node of the graph.
type contents struct {
	row
	to []*contents // per write
}

type walkOp struct {
	o string
	k int
}

type walkScene struct {
	name  string
	u     *universe
	build []walkOp
	bval  []int
	ops   []walkOp
	probe []int
	first *contents
	depth int
}

// mismatch is what the walk reports.
type mismatch struct {
	Scene int      `json:"scene"`
	Name  string   `json:"name"`
	Keys  [][]int  `json:"keys"`
	Block int      `json:"block"`
	Place int      `json:"place"`
	Mode  string   `json:"mode"`
	Build []string `json:"build"`
	Path  []string `json:"path"`
	What  string   `json:"what"`
	Want  string   `json:"want"`
	Got   string   `json:"got"`
}

// walkPlan says what the walk of one property looks like.
type walkPlan struct {
	modes   []string
	kinds   []string
	results bool
	length  bool
	few     int // ask for so many of the probes only, 0: all
}

func walkPlanOf(focus string) (walkPlan, bool) {
	switch focus {
	case "C01":
		return walkPlan{modes: []string{"tree", "txn"}, kinds: []string{"get"}, results: true}, true
	case "C02":
		return walkPlan{modes: []string{"tree", "txn"}, length: true}, true
	case "C03":
		return walkPlan{modes: []string{"keep", "txnkeep"}, kinds: allKinds, length: true, few: 3}, true
	case "C04":
		return walkPlan{modes: []string{"commits"}, kinds: allKinds, length: true, few: 3}, true
	case "C05":
		return walkPlan{modes: []string{"clone"}, kinds: allKinds, length: true, few: 3}, true
	case "C06":
		return walkPlan{modes: []string{"tree", "txn"}, kinds: []string{"all", "walk", "stop", "dfs"}}, true
	case "C07":
		return walkPlan{modes: []string{"tree", "txn"}, kinds: []string{"pre", "npre"}}, true
	case "C08":
		return walkPlan{modes: []string{"tree", "txn"}, kinds: []string{"lb", "nlb"}}, true
	case "C09":
		return walkPlan{modes: []string{"tree", "txn"}, kinds: []string{"rev", "rlb", "rpre", "xrlb", "xrpre"}}, true
	case "C10":
		return walkPlan{modes: []string{"tree", "txn"}, kinds: []string{"lp"}}, true
	case "C11":
		return walkPlan{modes: []string{"tree", "txn"}, kinds: []string{"path", "xpath"}}, true
	case "C12":
		return walkPlan{modes: []string{"tree", "txn"}, kinds: []string{"min", "max"}}, true
	case "C13":
		return walkPlan{modes: []string{"tree", "txn"}, kinds: []string{"all", "get"}, results: true, length: true}, true
	case "C20":
		return walkPlan{modes: []string{"scribble"}, kinds: allKinds, results: true, few: 3}, true
	case "C21":
		return walkPlan{modes: []string{"cursor"}, kinds: iterKinds, few: 5}, true
	case "C22":
		return walkPlan{modes: []string{"tree", "txn", "clone"}, kinds: allKinds, results: true, length: true, few: 6}, true
	}
	return walkPlan{}, false
}

func mkey(m []int) string { return fmt.Sprint(m) }

// loadGraph reads the scenes and the lines TLC printed about them.
func loadGraph(scenes, rows string) []*walkScene {
	var out []*walkScene
	readLines(scenes, func(line string) {
		var s scene
		fail(json.Unmarshal([]byte(line), &s))
		w := &walkScene{name: s.Name, probe: s.Probe, u: keysOf(s)}
		w.build, w.bval = toOps(s.Build)
		w.ops, _ = toOps(s.Ops)
		out = append(out, w)
	})
	nodes := make([]map[string]*contents, len(out))
	for i := range nodes {
		nodes[i] = map[string]*contents{}
	}
	readLines(rows, func(line string) {
		if strings.HasPrefix(line, `"{`) {
			line = strings.ReplaceAll(line[1:len(line)-1], `\"`, `"`)
			var c contents
			fail(json.Unmarshal([]byte(line), &c.row))
			nodes[c.Scene-1][mkey(c.M)] = &c
		}
	})
	for i, w := range out {
		for _, c := range nodes[i] {
			for _, n := range c.Next {
				d := nodes[i][mkey(n)]
				if d == nil {
					fail(fmt.Errorf("scene %d: contents without a line", i+1))
				}
				c.to = append(c.to, d)
			}
		}
		// the first contents: run the build on the graph's own terms is not
		// possible, so TLC's first line of a scene is found by its contents
		m := make([]int, w.u.n())
		for j, o := range w.build {
			if o.o == "ins" {
				m[o.k-1] = w.bval[j]
			} else {
				m[o.k-1] = 0
			}
		}
		w.first = nodes[i][mkey(m)]
		if w.first == nil {
			fail(fmt.Errorf("scene %d: first contents not found", i+1))
		}
	}
	return out
}

// walker walks one part of one scene.
type walker struct {
	scene *walkScene
	num   int
	plan  walkPlan
	mode  string
	m     *machine
	path  []int // writes so far
	marks []string
	bad   *mismatch

	steps, asked int64
	alive        atomic.Int64
	pos          int // position in the walk, for rotating choices
}

type stop struct{}

func (w *walker) fail(what string, want, got interface{}) {
	if w.bad == nil {
		w.bad = &mismatch{Scene: w.num, Name: w.scene.name, Keys: keyInts(w.scene.u.keys), Block: w.scene.u.block, Place: w.scene.u.place, Mode: w.mode, What: what,
			Want: fmt.Sprint(want), Got: fmt.Sprint(got)}
		for j, o := range w.scene.build {
			w.bad.Build = append(w.bad.Build, fmt.Sprintf("%s %d %d", o.o, o.k, w.scene.bval[j]))
		}
		for j, p := range w.path {
			o := w.scene.ops[p]
			s := fmt.Sprintf("%s %d", o.o, o.k)
			if j < len(w.marks) {
				s += w.marks[j]
			}
			w.bad.Path = append(w.bad.Path, s)
		}
	}
	panic(stop{})
}

// buf reports a caller buffer that was written to.
func (w *walker) buf() {
	if w.m.bufChanged {
		w.fail("caller buffer unchanged", "unchanged", "changed")
	}
	w.m.ev.Reset()
}

func valuesAt(c *contents, ks []int) []int {
	var vs []int
	for _, k := range ks {
		vs = append(vs, c.M[k-1])
	}
	return vs
}

// sameInts treats nil and empty alike.
func sameInts(a, b []int) bool {
	if len(a) == 0 && len(b) == 0 {
		return true
	}
	return reflect.DeepEqual(a, b)
}

// check compares the answers of a tree or a transaction with the graph.
func (w *walker) check(what string, tree *art.RadixTree[int], x *art.Txn[int], c *contents) {
	if w.plan.length {
		t := tree
		if x != nil {
			t = x.GetTree()
		}
		if n := t.Len(); n != c.Len {
			w.fail(what+": length", c.Len, n)
		}
	}
	for i, kind := range w.plan.kinds {
		qs := w.scene.probe
		switch kind {
		case "all", "walk", "dfs", "rev", "min", "max":
			qs = []int{1}
		case "stop":
			qs = []int{1, 2, 3}
		}
		n := len(qs)
		from := 0
		if w.plan.few > 0 && w.plan.few < n {
			n = w.plan.few
			w.pos++
			from = w.pos
		}
		for a := 0; a < n; a++ {
			j := (from + a) % len(qs)
			w.asked++
			w.alive.Add(1)
			ks, vs := w.m.ask(tree, x, kind, qs[j])
			w.buf()
			want := c.Ans[i][j]
			if !sameInts(ks, want) {
				w.fail(fmt.Sprintf("%s: keys of %s %d", what, kind, qs[j]), want, ks)
			}
			if wv := valuesAt(c, want); !sameInts(vs, wv) {
				w.fail(fmt.Sprintf("%s: values of %s %d", what, kind, qs[j]), wv, vs)
			}
		}
	}
}

func (w *walker) result(j int, c *contents, got int) {
	if w.plan.results && got != c.Res[j] {
		o := w.scene.ops[j]
		w.fail("result of "+o.o, c.Res[j], got)
	}
}

// onTree does write j on a tree with contents c.
func (w *walker) onTree(t *art.RadixTree[int], c *contents, j int) *art.RadixTree[int] {
	o := w.scene.ops[j]
	var nt *art.RadixTree[int]
	var r int
	w.steps++
	w.alive.Add(1)
	w.m.withKey(o.k, func(b []byte) {
		var old int
		var ok bool
		switch o.o {
		case "ins":
			nt, old, ok = t.Insert(b, toLib(c.Val[j]))
			r = oldOf(old, ok)
		case "del":
			nt, old, ok = t.Delete(b)
			r = oldOf(old, ok)
		case "dp":
			nt, ok = t.DeletePrefix(b)
			r = b2i(ok)
		}
	})
	w.buf()
	w.result(j, c, r)
	return nt
}

func (w *walker) onTxn(x *art.Txn[int], c *contents, j int) {
	o := w.scene.ops[j]
	var r int
	w.steps++
	w.alive.Add(1)
	w.m.withKey(o.k, func(b []byte) {
		switch o.o {
		case "ins":
			r = oldOf(x.Insert(b, toLib(c.Val[j])))
		case "del":
			r = oldOf(x.Delete(b))
		case "dp":
			r = b2i(x.DeletePrefix(b))
		}
	})
	w.buf()
	w.result(j, c, r)
}

// start builds the first tree. Odd walks build it in one transaction.
func (w *walker) start(oneTxn bool) *art.RadixTree[int] {
	t := art.NewRadixTree[int]()
	if oneTxn {
		x := t.Txn()
		for i, o := range w.scene.build {
			if o.o == "ins" {
				x.Insert(w.scene.u.key(o.k), toLib(w.scene.bval[i]))
			} else {
				x.Delete(w.scene.u.key(o.k))
			}
		}
		return x.Commit()
	}
	for i, o := range w.scene.build {
		if o.o == "ins" {
			t, _, _ = t.Insert(w.scene.u.key(o.k), toLib(w.scene.bval[i]))
		} else {
			t, _, _ = t.Delete(w.scene.u.key(o.k))
		}
	}
	return t
}

func (w *walker) push(j int) { w.path = append(w.path, j) }
func (w *walker) pop()       { w.path = w.path[:len(w.path)-1] }
func (w *walker) left() bool { return len(w.path) < w.scene.depth }

// tree: every sequence of tree-level writes.
func (w *walker) tree(t *art.RadixTree[int], c *contents, j int) {
	w.push(j)
	nt := w.onTree(t, c, j)
	d := c.to[j]
	w.check("tree", nt, nil, d)
	if w.left() {
		for i := range w.scene.ops {
			w.tree(nt, d, i)
		}
	}
	w.pop()
}

// keep: as tree, but look at the earlier tree once more after all that was
// derived from it.
func (w *walker) keep(t *art.RadixTree[int], c *contents, j int) {
	w.push(j)
	nt := w.onTree(t, c, j)
	w.check("earlier tree", t, nil, c)
	d := c.to[j]
	if w.left() {
		for i := range w.scene.ops {
			w.keep(nt, d, i)
		}
	}
	w.check("tree after later writes", nt, nil, d)
	w.pop()
}

// txn: every sequence of writes in one transaction, from the beginning.
func (w *walker) txn(base *art.RadixTree[int], j int) {
	w.push(j)
	x := base.Txn()
	if w.pos%2 == 0 {
		x.TrackMutate(true)
	}
	w.pos++
	c := w.scene.first
	for _, i := range w.path {
		w.onTxn(x, c, i)
		c = c.to[i]
	}
	w.check("transaction", nil, x, c)
	if len(w.path) == w.scene.depth {
		w.check("committed tree", x.Commit(), nil, c)
	}
	if w.left() {
		for i := range w.scene.ops {
			w.txn(base, i)
		}
	}
	w.pop()
}

// commits: every sequence of writes in one transaction that is committed in
// between; all the committed trees are looked at in the end.
func (w *walker) commits(base *art.RadixTree[int], j int) {
	w.push(j)
	n := len(w.path)
	if n == w.scene.depth {
		type snap struct {
			t *art.RadixTree[int]
			c *contents
		}
		w.pos++
		mask := w.pos
		snaps := []snap{{base, w.scene.first}}
		x := base.Txn()
		if mask&1 == 0 {
			x.TrackMutate(true)
		}
		c := w.scene.first
		w.marks = w.marks[:0]
		for s, i := range w.path {
			w.onTxn(x, c, i)
			c = c.to[i]
			mark := ""
			switch (mask >> (s + 1)) & 3 {
			case 0:
				snaps = append(snaps, snap{x.Commit(), c})
				mark = " Commit"
			case 1:
				snaps = append(snaps, snap{x.CommitOnly(), c})
				mark = " CommitOnly"
			}
			w.marks = append(w.marks, mark)
		}
		w.check("transaction", nil, x, c)
		for _, s := range snaps {
			w.check("committed tree", s.t, nil, s.c)
		}
		// another transaction on the first of them sees that tree only
		s := snaps[len(snaps)/2]
		y := s.t.Txn()
		w.check("new transaction", nil, y, s.c)
		w.marks = w.marks[:0]
	} else {
		for i := range w.scene.ops {
			w.commits(base, i)
		}
	}
	w.pop()
}

// clone: every write in a clone of its own; the original is looked at
// afterwards and goes on.
func (w *walker) clone(x *art.Txn[int], c *contents, j int) {
	w.push(j)
	y := x.Clone()
	w.onTxn(y, c, j)
	d := c.to[j]
	w.check("clone", nil, y, d)
	if w.left() {
		for i := range w.scene.ops {
			w.clone(y, d, i)
		}
		w.check("original after writes to clones", nil, y, d)
		// a write to the original after it was cloned
		z := y.Clone()
		i := w.pos % len(w.scene.ops)
		w.onTxn(y, d, i)
		w.check("clone after a write to the original", nil, z, d)
		w.check("committed clone", z.Commit(), nil, d)
		w.check("original", nil, y, d.to[i])
	}
	w.pop()
}

type openIt struct {
	next func() ([]byte, int, bool)
	kind string
	q    int
	want []int
	got  int
}

// stepIt steps an open iterator and compares.
func (w *walker) stepIt(it *openIt, c *contents) bool {
	w.asked++
	w.alive.Add(1)
	k, v, ok := it.next()
	if it.got >= len(it.want) {
		if ok {
			w.fail("iterator "+it.kind+": end", "end", w.m.u.pos(k))
		}
		return false
	}
	wk := it.want[it.got]
	if !ok {
		w.fail(fmt.Sprintf("iterator %s %d: step", it.kind, it.q), wk, "end")
	}
	if w.m.u.pos(k) != wk {
		w.fail(fmt.Sprintf("iterator %s %d: step", it.kind, it.q), wk, w.m.u.pos(k))
	}
	if fromLib(v) != c.M[wk-1] {
		w.fail(fmt.Sprintf("iterator %s %d: value", it.kind, it.q), c.M[wk-1], fromLib(v))
	}
	it.got++
	return true
}

// cursor: iterators opened before a write yield the earlier tree after it and
// after everything that is derived from it.
func (w *walker) cursor(t *art.RadixTree[int], c *contents, j int) {
	w.push(j)
	var its []*openIt
	for i, kind := range w.plan.kinds {
		w.pos++
		q, a := 1, 0
		if needsKey(kind) {
			a = w.pos % len(w.scene.probe)
			q = w.scene.probe[a]
		}
		it := &openIt{kind: kind, q: q, want: c.Ans[i][a]}
		w.m.withKey(q, func(b []byte) { it.next = w.m.opener(t.Root(), t, kind, b) })
		for s := 0; s < w.pos%3; s++ {
			w.stepIt(it, c)
		}
		its = append(its, it)
	}
	nt := w.onTree(t, c, j)
	d := c.to[j]
	for _, it := range its {
		w.stepIt(it, c)
	}
	if w.left() {
		for i := range w.scene.ops {
			w.cursor(nt, d, i)
		}
	}
	for _, it := range its {
		for w.stepIt(it, c) {
		}
		w.stepIt(it, c)
	}
	w.pop()
}

// part runs the part of a walk that begins with write j.
func (w *walker) part(j int) (bad *mismatch) {
	defer func() {
		if p := recover(); p != nil {
			if _, ours := p.(stop); !ours {
				func() {
					defer func() { recover() }()
					w.fail("call returns", "no panic", asciiOnly(fmt.Sprint(p)))
				}()
			}
			bad = w.bad
		}
	}()
	t := w.start(j%2 == 1)
	c := w.scene.first
	w.check("first tree", t, nil, c)
	switch w.mode {
	case "tree", "scribble":
		w.m.scribble = w.mode == "scribble"
		w.tree(t, c, j)
	case "keep":
		w.keep(t, c, j)
	case "txn", "txnkeep":
		w.txn(t, j)
		w.check("base tree", t, nil, c)
	case "commits":
		w.commits(t, j)
	case "clone":
		w.clone(t.Txn(), c, j)
		w.check("base tree", t, nil, c)
	case "cursor":
		w.cursor(t, c, j)
	}
	return nil
}

// depthFor returns the length of sequences that keeps the walk within budget.
func depthFor(ops, budget int) int {
	d, n := 1, ops
	for n*ops <= budget {
		n *= ops
		d++
	}
	return d
}

type walkStats struct {
	Scenes    int            `json:"scenes"`
	Contents  int            `json:"contents"`
	Edges     int            `json:"edges"`
	Sequences int64          `json:"sequences"`
	Steps     int64          `json:"steps"`
	Asked     int64          `json:"asked"`
	Depths    map[string]int `json:"depths"`
	Bad       *mismatch      `json:"bad"`
}

func mainWalk(args []string) {
	fs := flag.NewFlagSet("walk", flag.ExitOnError)
	focus := fs.String("focus", "C01", "property")
	scenes := fs.String("scenes", "", "input")
	rows := fs.String("rows", "", "input")
	budget := fs.Int("budget", 50000, "sequences per scene and mode")
	seed := fs.Int64("seed", 0, "seed")
	fs.Parse(args)
	plan, ok := walkPlanOf(*focus)
	if !ok {
		fail(fmt.Errorf("no walk for %s", *focus))
	}
	all := loadGraph(*scenes, *rows)
	st := walkStats{Scenes: len(all), Depths: map[string]int{}}
	type job struct {
		scene int
		mode  string
		j     int
	}
	jobs := make(chan job)
	var wg sync.WaitGroup
	var mu sync.Mutex
	seen := make([]map[*contents]bool, len(all))
	for i, s := range all {
		s.depth = depthFor(len(s.ops), *budget)
		st.Depths[fmt.Sprint(s.depth)]++
		seen[i] = map[*contents]bool{}
		todo := []*contents{s.first}
		seen[i][s.first] = true
		for len(todo) > 0 {
			c := todo[0]
			todo = todo[1:]
			st.Edges += len(c.to)
			for _, d := range c.to {
				if !seen[i][d] {
					seen[i][d] = true
					todo = append(todo, d)
				}
			}
		}
		st.Contents += len(seen[i])
	}
	for n := 0; n < runtime.NumCPU(); n++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for b := range jobs {
				mu.Lock()
				over := st.Bad != nil
				mu.Unlock()
				if over {
					continue
				}
				s := all[b.scene]
				r := rand.New(rand.NewSource(*seed*7919 + int64(b.scene*100+b.j)))
				w := &walker{scene: s, num: b.scene + 1, plan: plan, mode: b.mode, m: newMachine(s.u, r), pos: b.j + int(*seed)}
				done := make(chan *mismatch, 1)
				go func() { done <- w.part(b.j) }()
				bad := waitFor(done, &w.alive, func() *mismatch {
					return &mismatch{Scene: w.num, Name: s.name, Mode: b.mode, Keys: keyInts(s.u.keys), What: "call returns",
						Want: "return", Got: "a call does not return"}
				})
				mu.Lock()
				st.Steps += w.steps
				st.Asked += w.asked
				if bad != nil && (st.Bad == nil || len(bad.Path) < len(st.Bad.Path)) {
					st.Bad = bad
				}
				mu.Unlock()
			}
		}()
	}
	for i, s := range all {
		for _, mode := range plan.modes {
			n := int64(1)
			for d := 0; d < s.depth; d++ {
				n *= int64(len(s.ops))
			}
			st.Sequences += n
			for j := range s.ops {
				jobs <- job{i, mode, j}
			}
		}
	}
	close(jobs)
	wg.Wait()
	fail(json.NewEncoder(output).Encode(st))
}
