package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	art "github.com/absolutelightning/go-immutable-adaptive-radix"
)

// The behave mode runs the behaviours that TLC printed: for each one it makes
// the same calls on the real library and compares after each of them.

// behLine is one line printed by TLC.
type behLine struct {
	S    int           `json:"s"`
	P    int           `json:"p"`
	Path []int         `json:"path"`
	Out  []int         `json:"out"`
	V    []numContents `json:"v"`
	T    []numContents `json:"t"`
	W    []numContents `json:"w"`
}

// numContents is a number followed by a list.
type numContents struct {
	id   int
	list json.RawMessage
}

func (n *numContents) UnmarshalJSON(b []byte) error {
	var parts []json.RawMessage
	if err := json.Unmarshal(b, &parts); err != nil {
		return err
	}
	n.list = append(json.RawMessage{}, parts[1]...)
	return json.Unmarshal(parts[0], &n.id)
}

// behNode is one state of the behaviours of a program in a scene.
type behNode struct {
	out  []int
	v, t map[int][][2]int // contents as differences
	w    map[int][]int    // must and may per scope
	next map[int]*behNode
}

type template struct {
	E    string `json:"e"`
	V    int    `json:"v"`
	T    int    `json:"t"`
	N    int    `json:"n"`
	W    int    `json:"w"`
	C    int    `json:"c"`
	On   bool   `json:"on"`
	Kind string `json:"kind"`
}

// behPlan says what is compared.
type behPlan struct {
	contents, results, must, may bool
	scopes                       string // "k" and "p"
}

func behPlanOf(focus string) (behPlan, bool) {
	switch focus {
	case "C03", "C04", "C05", "C21":
		return behPlan{contents: true}, true
	case "C01", "C02", "C13":
		return behPlan{contents: true, results: true}, true
	case "C14":
		return behPlan{must: true, scopes: "k"}, true
	case "C15":
		return behPlan{must: true, scopes: "p"}, true
	case "C16":
		return behPlan{may: true, scopes: "kp"}, true
	case "C17":
		return behPlan{must: true, may: true, scopes: "kp"}, true
	case "C18":
		return behPlan{may: true, scopes: "kp"}, true
	}
	return behPlan{}, false
}

type behScene struct {
	num    int
	name   string
	u      *universe
	build  []walkOp
	bval   []int
	first  []int
	ops    []walkOp
	probe  []int
	scopes []int
	roots  map[int]*behNode
}

func readLines(file string, f func(line string)) {
	h, err := os.Open(file)
	fail(err)
	defer h.Close()
	r := bufio.NewReaderSize(h, 1<<20)
	for {
		line, err := r.ReadString('\n')
		if s := strings.TrimSpace(line); s != "" {
			f(s)
		}
		if err != nil {
			return
		}
	}
}

func toOps(list [][]interface{}) (ops []walkOp, vals []int) {
	for _, o := range list {
		ops = append(ops, walkOp{o[0].(string), int(o[1].(float64))})
		if len(o) > 2 {
			vals = append(vals, int(o[2].(float64)))
		}
	}
	return ops, vals
}

func keysOf(s scene) *universe {
	var keys [][]byte
	for _, k := range s.Keys {
		b := []byte{}
		for _, c := range k {
			b = append(b, byte(c))
		}
		keys = append(keys, b)
	}
	return newUniverse(s.Name, keys, nil).stretch(s.Block, s.Place)
}

func loadBehaviours(scenes, rows string) ([]*behScene, int) {
	var out []*behScene
	readLines(scenes, func(line string) {
		var s scene
		fail(json.Unmarshal([]byte(line), &s))
		b := &behScene{num: len(out) + 1, name: s.Name, u: keysOf(s), probe: s.Probe, scopes: s.Scopes, roots: map[int]*behNode{}}
		b.build, b.bval = toOps(s.Build)
		b.ops, _ = toOps(s.Ops)
		b.first = make([]int, b.u.n())
		for i, o := range b.build {
			b.first[o.k-1] = 0
			if o.o == "ins" {
				b.first[o.k-1] = b.bval[i]
			}
		}
		out = append(out, b)
	})
	lines := make(chan string, 1000)
	parsed := make(chan behLine, 1000)
	var wg sync.WaitGroup
	for i := 0; i < runtime.NumCPU(); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for l := range lines {
				l = strings.ReplaceAll(l[1:len(l)-1], `\"`, `"`)
				var b behLine
				fail(json.Unmarshal([]byte(l), &b))
				parsed <- b
			}
		}()
	}
	go func() {
		readLines(rows, func(line string) {
			if strings.HasPrefix(line, `"{`) {
				lines <- line
			}
		})
		close(lines)
		wg.Wait()
		close(parsed)
	}()
	n := 0
	for b := range parsed {
		n++
		sc := out[b.S-1]
		if sc.roots[b.P] == nil {
			sc.roots[b.P] = &behNode{next: map[int]*behNode{}}
		}
		d := sc.roots[b.P]
		for _, step := range b.Path {
			if d.next[step] == nil {
				d.next[step] = &behNode{next: map[int]*behNode{}}
			}
			d = d.next[step]
		}
		d.out = b.Out
		d.v, d.t, d.w = map[int][][2]int{}, map[int][][2]int{}, map[int][]int{}
		for _, x := range b.V {
			var l [][2]int
			fail(json.Unmarshal(x.list, &l))
			d.v[x.id] = l
		}
		for _, x := range b.T {
			var l [][2]int
			fail(json.Unmarshal(x.list, &l))
			d.t[x.id] = l
		}
		for _, x := range b.W {
			var l []int
			fail(json.Unmarshal(x.list, &l))
			d.w[x.id] = l
		}
	}
	return out, n
}

// behaver runs behaviours.
type behaver struct {
	sc    *behScene
	prog  [][]template
	pnum  int
	plan  behPlan
	m     *machine
	seed  int64
	alive atomic.Int64

	trees map[int]*art.RadixTree[int]
	txns  map[int]*art.Txn[int]
	curs  map[int]func() ([]byte, int, bool)
	chans map[int][]<-chan struct{}
	done  []string

	paths, calls, compared int64
	bad                    *mismatch
}

func (b *behaver) fail(what string, want, got interface{}) {
	if b.bad == nil {
		b.bad = &mismatch{Scene: b.sc.num, Name: b.sc.name, Keys: keyInts(b.sc.u.keys), Block: b.sc.u.block, Place: b.sc.u.place, Mode: fmt.Sprintf("program %d", b.pnum),
			Path: append([]string{}, b.done...), What: what, Want: fmt.Sprint(want), Got: fmt.Sprint(got)}
		for j, o := range b.sc.build {
			b.bad.Build = append(b.bad.Build, fmt.Sprintf("%s %d %d", o.o, o.k, b.sc.bval[j]))
		}
	}
	panic(stop{})
}

func (b *behaver) scope(j int) bool {
	kind := "k"
	if b.sc.scopes[j] > b.sc.u.n() {
		kind = "p"
	}
	return strings.Contains(b.plan.scopes, kind)
}

// arm takes all watches of a tree or a transaction.
func (b *behaver) arm(w int, t *art.RadixTree[int], x *art.Txn[int]) {
	if b.plan.scopes == "" {
		return
	}
	var l []<-chan struct{}
	for j, s := range b.sc.scopes {
		if b.scope(j) {
			l = append(l, b.m.take(t, x, s))
		} else {
			l = append(l, nil)
		}
	}
	b.chans[w] = l
}

// call makes the call at a position of the program; choice is what TLC chose.
func (b *behaver) call(pos, choice int, d *behNode) {
	e := b.prog[pos][choice/100-1]
	j := choice%100 - 1
	b.alive.Add(1)
	b.calls++
	m := b.m
	switch e.E {
	case "tw", "xw":
		o := b.sc.ops[j]
		x := 100 + pos // as in BehRadix.tla
		var r int
		var nt *art.RadixTree[int]
		b.done = append(b.done, fmt.Sprintf("%s v%d t%d: %s %d value %d -> %d", e.E, e.V, e.T, o.o, o.k, x, e.N))
		m.withKey(o.k, func(k []byte) {
			var old int
			var ok bool
			if e.E == "tw" {
				switch o.o {
				case "ins":
					nt, old, ok = b.trees[e.V].Insert(k, toLib(x))
				case "del":
					nt, old, ok = b.trees[e.V].Delete(k)
				case "dp":
					nt, ok = b.trees[e.V].DeletePrefix(k)
				}
			} else {
				switch o.o {
				case "ins":
					old, ok = b.txns[e.T].Insert(k, toLib(x))
				case "del":
					old, ok = b.txns[e.T].Delete(k)
				case "dp":
					ok = b.txns[e.T].DeletePrefix(k)
				}
			}
			r = oldOf(old, ok)
			if o.o == "dp" {
				r = b2i(ok)
			}
		})
		if b.plan.results && (len(d.out) != 1 || d.out[0] != r) {
			b.fail("result of "+o.o, d.out, r)
		}
		if nt != nil {
			b.trees[e.N] = nt
			b.arm(e.N, nt, nil)
		}
		return
	}
	switch e.E {
	case "bg":
		b.done = append(b.done, fmt.Sprintf("txn %d on tree %d", e.T, e.V))
		b.txns[e.T] = b.trees[e.V].Txn()
	case "trk":
		b.done = append(b.done, fmt.Sprintf("track %d %v", e.T, e.On))
		b.txns[e.T].TrackMutate(e.On)
	case "cm", "co":
		b.done = append(b.done, fmt.Sprintf("%s txn %d -> tree %d", map[string]string{"cm": "commit", "co": "commit only"}[e.E], e.T, e.N))
		if e.E == "cm" {
			b.trees[e.N] = b.txns[e.T].Commit()
		} else {
			b.trees[e.N] = b.txns[e.T].CommitOnly()
		}
		b.arm(e.N, b.trees[e.N], nil)
	case "nt":
		b.done = append(b.done, fmt.Sprintf("notify %d", e.T))
		b.txns[e.T].Notify()
	case "cl":
		b.done = append(b.done, fmt.Sprintf("clone txn %d -> %d", e.T, e.N))
		b.txns[e.N] = b.txns[e.T].Clone()
	case "ab":
		b.done = append(b.done, fmt.Sprintf("abandon %d", e.T))
		delete(b.txns, e.T)
	case "tc":
		b.done = append(b.done, fmt.Sprintf("clone tree %d -> %d", e.V, e.N))
		b.trees[e.N] = b.trees[e.V].Clone()
		b.arm(e.N, b.trees[e.N], nil)
	case "wt":
		b.done = append(b.done, fmt.Sprintf("watch in txn %d -> %d", e.T, e.W))
		b.arm(e.W, nil, b.txns[e.T])
	case "op":
		q := b.sc.probe[j]
		b.done = append(b.done, fmt.Sprintf("iterator %d on tree %d: %s %d", e.C, e.V, e.Kind, q))
		t := b.trees[e.V]
		m.withKey(q, func(k []byte) { b.curs[e.C] = m.opener(t.Root(), t, e.Kind, k) })
	case "st":
		b.done = append(b.done, fmt.Sprintf("step %d", e.C))
		k, v, ok := b.curs[e.C]()
		got := []int{0, 0}
		if ok {
			got = []int{m.u.pos(k), fromLib(v)}
			if got[0] == 0 {
				got[0] = -1
			}
		}
		if !sameInts(got, d.out) {
			b.fail("iterator step", d.out, got)
		}
	case "no":
	default:
		panic("unknown call " + e.E)
	}
}

func (b *behaver) contents(what string, t *art.RadixTree[int], x *art.Txn[int], diff [][2]int) {
	b.compared++
	c := append([]int{}, b.sc.first...)
	for _, d := range diff {
		c[d[0]-1] = d[1]
	}
	var keys, vals []int
	for i, v := range c {
		if v != 0 {
			keys = append(keys, i+1)
			vals = append(vals, v)
		}
	}
	tree := t
	if x != nil {
		tree = x.GetTree()
	}
	if n := tree.Len(); n != len(keys) {
		b.fail(what+": length", len(keys), n)
	}
	ks, vs := b.m.ask(t, x, "all", 1)
	if !sameInts(ks, keys) {
		b.fail(what+": keys", keys, ks)
	}
	if !sameInts(vs, vals) {
		b.fail(what+": values", vals, vs)
	}
	for _, q := range b.sc.probe {
		ks, vs := b.m.ask(t, x, "get", q)
		if c[q-1] == 0 && (len(ks) > 0 || len(vs) > 0) {
			b.fail(fmt.Sprintf("%s: get %d", what, q), "absent", vs)
		}
		if c[q-1] != 0 && (len(vs) != 1 || vs[0] != c[q-1]) {
			b.fail(fmt.Sprintf("%s: get %d", what, q), c[q-1], vs)
		}
	}
}

// compare compares everything with a state printed by TLC.
func (b *behaver) compare(d *behNode) {
	if b.plan.contents {
		for id, diff := range d.v {
			b.contents(fmt.Sprintf("tree %d", id), b.trees[id], nil, diff)
		}
		for id, diff := range d.t {
			b.contents(fmt.Sprintf("transaction %d", id), nil, b.txns[id], diff)
		}
	}
	if b.plan.scopes == "" {
		return
	}
	for w, codes := range d.w {
		for j, code := range codes {
			if !b.scope(j) {
				continue
			}
			b.compared++
			look := []<-chan struct{}{b.chans[w][j]}
			if t := b.trees[w]; t != nil && b.m.r.Intn(3) == 0 {
				look = append(look, b.m.take(t, nil, b.sc.scopes[j])) // a watch taken late
			}
			for i, ch := range look {
				c := closed(ch)
				name := fmt.Sprintf("watch %d of tree %d (taken %s)", b.sc.scopes[j], w, []string{"at once", "late"}[i])
				if b.plan.must && code&1 != 0 && !c {
					b.fail(name, "fired", "not fired")
				}
				if b.plan.may && code&2 == 0 && c {
					b.fail(name, "not fired", "fired")
				}
			}
		}
	}
}

// run runs one behaviour from the beginning.
func (b *behaver) run(path []int, nodes []*behNode) {
	b.paths++
	b.trees, b.txns = map[int]*art.RadixTree[int]{}, map[int]*art.Txn[int]{}
	b.curs, b.chans = map[int]func() ([]byte, int, bool){}, map[int][]<-chan struct{}{}
	b.done = b.done[:0]
	w := walker{scene: &walkScene{u: b.sc.u, build: b.sc.build, bval: b.sc.bval}}
	b.trees[0] = w.start(b.paths%2 == 0)
	b.arm(0, b.trees[0], nil)
	for i, choice := range path {
		b.call(i, choice, nodes[i])
		b.compare(nodes[i])
	}
}

func (b *behaver) all(path []int, nodes []*behNode, d *behNode) {
	if len(d.next) == 0 {
		b.run(path, nodes)
		return
	}
	var steps []int
	for step := range d.next {
		steps = append(steps, step)
	}
	sort.Ints(steps)
	for _, step := range steps {
		b.all(append(path, step), append(nodes, d.next[step]), d.next[step])
	}
}

func (b *behaver) part() (bad *mismatch) {
	defer func() {
		if p := recover(); p != nil {
			if _, ours := p.(stop); !ours {
				func() {
					defer func() { recover() }()
					b.fail("call returns", "no panic", asciiOnly(fmt.Sprint(p)))
				}()
			}
			bad = b.bad
		}
	}()
	b.all(nil, nil, b.sc.roots[b.pnum])
	return nil
}

type behStats struct {
	Scenes   int       `json:"scenes"`
	Programs int       `json:"programs"`
	Lines    int       `json:"lines"`
	Paths    int64     `json:"behaviours"`
	Calls    int64     `json:"calls"`
	Compared int64     `json:"compared"`
	Bad      *mismatch `json:"bad"`
}

func mainBehave(args []string) {
	fs := flag.NewFlagSet("behave", flag.ExitOnError)
	focus := fs.String("focus", "C14", "property")
	scenes := fs.String("scenes", "", "input")
	progs := fs.String("progs", "", "input")
	rows := fs.String("rows", "", "input")
	seed := fs.Int64("seed", 0, "seed")
	fs.Parse(args)
	plan, ok := behPlanOf(*focus)
	if !ok {
		fail(fmt.Errorf("no behaviours for %s", *focus))
	}
	var programs [][][]template
	readLines(*progs, func(line string) {
		var p [][]template
		fail(json.Unmarshal([]byte(line), &p))
		programs = append(programs, p)
	})
	all, lines := loadBehaviours(*scenes, *rows)
	st := behStats{Scenes: len(all), Programs: len(programs), Lines: lines}
	jobs := make(chan *behaver)
	var wg sync.WaitGroup
	var mu sync.Mutex
	for n := 0; n < runtime.NumCPU(); n++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for b := range jobs {
				mu.Lock()
				over := st.Bad != nil
				mu.Unlock()
				if over {
					continue
				}
				done := make(chan *mismatch, 1)
				go func() { done <- b.part() }()
				bad := waitFor(done, &b.alive, func() *mismatch {
					return &mismatch{Scene: b.sc.num, Name: b.sc.name, Keys: keyInts(b.sc.u.keys), Mode: fmt.Sprintf("program %d", b.pnum),
						What: "call returns", Want: "return", Got: "a call does not return"}
				})
				mu.Lock()
				st.Paths += b.paths
				st.Calls += b.calls
				st.Compared += b.compared
				if bad != nil && (st.Bad == nil || len(bad.Path) < len(st.Bad.Path)) {
					st.Bad = bad
				}
				mu.Unlock()
			}
		}()
	}
	for _, sc := range all {
		for p := range sc.roots {
			r := rand.New(rand.NewSource(*seed*7919 + int64(sc.num*100+p)))
			jobs <- &behaver{sc: sc, prog: programs[p-1], pnum: p, plan: plan, m: newMachine(sc.u, r)}
		}
	}
	close(jobs)
	wg.Wait()
	fail(json.NewEncoder(output).Encode(st))
}

// waitFor waits for the result of a part; a part that makes no progress for too
// long hangs in a call.
func waitFor(done chan *mismatch, alive *atomic.Int64, hangs func() *mismatch) *mismatch {
	last, since := int64(-1), time.Now()
	for {
		select {
		case bad := <-done:
			return bad
		case <-time.After(time.Second):
			if now := alive.Load(); now != last {
				last, since = now, time.Now()
			} else if time.Since(since) > callLimit {
				return hangs()
			}
		}
	}
}
