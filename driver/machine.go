package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	art "github.com/absolutelightning/go-immutable-adaptive-radix"
)

// machine runs calls on the real library and records each call together with
// what it returned. It knows nothing about what should be returned.
type machine struct {
	u  *universe
	r  *rand.Rand
	ev bytes.Buffer
	// number of events recorded
	events int
	dead   bool

	trees map[int]*art.RadixTree[int]
	txns  map[int]*art.Txn[int]
	curs  map[int]*cursor
	chans map[int]map[int]<-chan struct{}

	// ids in order of creation, for choosing
	treeIDs, txnIDs, curIDs, watIDs []int
	// keys inserted and not deleted as far as writes were issued; only used to
	// choose keys
	has  map[int]map[int]bool
	thas map[int]map[int]bool

	nextID int
	val    int

	results    bool // record the results of writes
	bufChanged bool

	scribble bool // pass keys in shared buffers and overwrite them afterwards
	kinds    map[string]int

	// the call that is running, and since when
	what  atomic.Value
	since atomic.Int64

	// machines of other goroutines that work for this one
	mu   sync.Mutex
	subs []*machine
}

type cursor struct {
	next func() ([]byte, int, bool)
}

func newMachine(u *universe, r *rand.Rand) *machine {
	m := &machine{
		u: u, r: r,
		trees: map[int]*art.RadixTree[int]{},
		txns:  map[int]*art.Txn[int]{},
		curs:  map[int]*cursor{},
		chans: map[int]map[int]<-chan struct{}{},
		has:   map[int]map[int]bool{},
		thas:  map[int]map[int]bool{},
		kinds: map[string]int{},
	}
	m.trees[0] = art.NewRadixTree[int]()
	m.treeIDs = []int{0}
	m.watIDs = []int{0}
	m.has[0] = map[int]bool{}
	m.nextID = 1
	return m
}

func (m *machine) log(kind, format string, a ...interface{}) {
	m.events++
	m.kinds[kind]++
	fmt.Fprintf(&m.ev, `{"e":"`+kind+`"`+format+"}\n", a...)
}

// call runs f; a panic is recorded as the result of the call.
func (m *machine) call(what string, f func()) {
	if m.dead {
		return
	}
	defer func() {
		if p := recover(); p != nil {
			m.dead = true
			if os.Getenv("DRIVER_STACK") != "" {
				debug.PrintStack()
			}
			m.log("panic", `,"what":%s`, strconv.Quote(asciiOnly(fmt.Sprint(what, ": ", p))))
		}
	}()
	m.what.Store(what)
	m.since.Store(time.Now().UnixNano())
	defer m.since.Store(0)
	f()
}

// stuck returns the name of a call that has been running for too long.
func (m *machine) stuck(limit time.Duration) (string, bool) {
	if since := m.since.Load(); since != 0 && time.Now().UnixNano()-since >= int64(limit) {
		return m.what.Load().(string), true
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	for _, c := range m.subs {
		if what, yes := c.stuck(limit); yes {
			return what, true
		}
	}
	return "", false
}

// sub adds a machine that another goroutine uses.
func (m *machine) sub(c *machine) {
	m.mu.Lock()
	m.subs = append(m.subs, c)
	m.mu.Unlock()
}

func asciiOnly(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c < 0x20 || c > 0x7e || c == '\\' || c == '"' {
			b[i] = '.'
		}
	}
	return string(b)
}

// withKey passes the key at a position to f. In scribble mode the slice has
// spare capacity and is overwritten after the call.
func (m *machine) withKey(pos int, f func(k []byte)) {
	k := m.u.key(pos)
	if !m.scribble {
		c := make([]byte, len(k))
		copy(c, k)
		if len(c) == 0 && m.r.Intn(2) == 0 {
			c = nil
		}
		f(c)
		return
	}
	spare := m.r.Intn(20)
	lead := m.r.Intn(3)
	buf := make([]byte, lead+len(k)+spare)
	for i := range buf {
		buf[i] = 0xa5
	}
	copy(buf[lead:], k)
	before := append([]byte{}, buf...)
	f(buf[lead : lead+len(k)])
	if m.dead {
		return
	}
	same := 0
	if bytes.Equal(before, buf) {
		same = 1
	} else {
		m.bufChanged = true
	}
	m.log("buf", `,"r":%d`, same)
	for i := range buf {
		buf[i] = byte(m.r.Intn(256))
	}
}

func (m *machine) id() int {
	m.nextID++
	return m.nextID - 1
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func copySet(s map[int]bool) map[int]bool {
	c := make(map[int]bool, len(s)+1)
	for k := range s {
		c[k] = true
	}
	return c
}

func (m *machine) note(s map[int]bool, o string, k int) {
	switch o {
	case "ins":
		s[k] = true
	case "del":
		delete(s, k)
	case "dp":
		p := m.u.key(k)
		for i := range s {
			if bytes.HasPrefix(m.u.key(i), p) {
				delete(s, i)
			}
		}
	}
}

// In the specification 0 stands for a key that is not stored, so the values
// begin with 1 there. The library gets them from 0 on, so that the zero value is
// stored as well.
func toLib(x int) int   { return x - 1 }
func fromLib(v int) int { return v + 1 }

// result of a write as the specification counts it: the previous value or 0;
// -1 if the two results do not fit together.
func oldOf(v int, ok bool) int {
	if ok {
		return fromLib(v)
	}
	if v != 0 {
		return -1
	}
	return 0
}

func (m *machine) addTree(t *art.RadixTree[int], has map[int]bool, id int) {
	m.trees[id] = t
	m.treeIDs = append(m.treeIDs, id)
	m.watIDs = append(m.watIDs, id)
	m.has[id] = has
}

func (m *machine) resField(r int) string {
	if !m.results {
		return ""
	}
	return fmt.Sprintf(`,"r":%d`, r)
}

// value returns the value for the next write: a new one, or now and then one of
// the first ones, so that keys share values and get the value they have.
func (m *machine) value() int {
	if m.r.Intn(6) == 0 {
		return 1 + m.r.Intn(2)
	}
	m.val++
	return m.val
}

func (m *machine) treeWrite(v int, o string, k int) int {
	t := m.trees[v]
	x := m.value()
	n := m.id()
	m.call("tree "+o, func() {
		var nt *art.RadixTree[int]
		var r int
		m.withKey(k, func(b []byte) {
			switch o {
			case "ins":
				var old int
				var ok bool
				nt, old, ok = t.Insert(b, toLib(x))
				r = oldOf(old, ok)
			case "del":
				var old int
				var ok bool
				nt, old, ok = t.Delete(b)
				r = oldOf(old, ok)
			case "dp":
				var ok bool
				nt, ok = t.DeletePrefix(b)
				r = b2i(ok)
			}
		})
		has := copySet(m.has[v])
		m.note(has, o, k)
		m.log("tw", `,"v":%d,"o":"%s","k":%d,"x":%d,"n":%d%s`, v, o, k, x, n, m.resField(r))
		m.addTree(nt, has, n)
	})
	return n
}

func (m *machine) treeClone(v int) int {
	n := m.id()
	m.call("tree clone", func() {
		nt := m.trees[v].Clone()
		m.log("tc", `,"v":%d,"n":%d`, v, n)
		m.addTree(nt, copySet(m.has[v]), n)
	})
	return n
}

func (m *machine) forget(v int) {
	m.log("fg", `,"v":%d`, v)
	delete(m.trees, v)
	delete(m.has, v)
	m.treeIDs = without(m.treeIDs, v)
}

func without(s []int, x int) []int {
	out := []int{}
	for _, y := range s {
		if y != x {
			out = append(out, y)
		}
	}
	return out
}

func (m *machine) begin(v int) int {
	x := m.id()
	m.call("Txn", func() {
		m.txns[x] = m.trees[v].Txn()
		m.txnIDs = append(m.txnIDs, x)
		m.thas[x] = copySet(m.has[v])
		m.log("bg", `,"v":%d,"t":%d`, v, x)
	})
	return x
}

func (m *machine) track(x int, on bool) {
	m.call("TrackMutate", func() {
		m.txns[x].TrackMutate(on)
		m.log("trk", `,"t":%d,"on":%v`, x, on)
	})
}

func (m *machine) txnWrite(x int, o string, k int) {
	t := m.txns[x]
	val := m.value()
	m.call("txn "+o, func() {
		var r int
		m.withKey(k, func(b []byte) {
			switch o {
			case "ins":
				r = oldOf(t.Insert(b, toLib(val)))
			case "del":
				r = oldOf(t.Delete(b))
			case "dp":
				r = b2i(t.DeletePrefix(b))
			}
		})
		m.note(m.thas[x], o, k)
		m.log("xw", `,"t":%d,"o":"%s","k":%d,"x":%d%s`, x, o, k, val, m.resField(r))
	})
}

// txnRepeat inserts the same entry many times over. The key is there already, so
// to the specification it does not matter how often.
func (m *machine) txnRepeat(x, k, times int) {
	t := m.txns[x]
	val := m.value()
	m.call("txn ins", func() {
		m.withKey(k, func(b []byte) {
			for i := 0; i < times; i++ {
				t.Insert(b, toLib(val))
			}
		})
		m.log("xw", `,"t":%d,"o":"ins","k":%d,"x":%d,"times":%d`, x, k, val, times)
	})
}

func (m *machine) commit(x int) int {
	n := m.id()
	m.call("Commit", func() {
		nt := m.txns[x].Commit()
		m.log("cm", `,"t":%d,"n":%d`, x, n)
		m.addTree(nt, copySet(m.thas[x]), n)
	})
	return n
}

func (m *machine) commitOnly(x int) int {
	n := m.id()
	m.call("CommitOnly", func() {
		nt := m.txns[x].CommitOnly()
		m.log("co", `,"t":%d,"n":%d`, x, n)
		m.addTree(nt, copySet(m.thas[x]), n)
	})
	return n
}

func (m *machine) notify(x int) {
	m.call("Notify", func() {
		m.txns[x].Notify()
		m.log("nt", `,"t":%d`, x)
	})
}

func (m *machine) txnClone(x int) int {
	n := m.id()
	m.call("txn Clone", func() {
		m.txns[n] = m.txns[x].Clone()
		m.txnIDs = append(m.txnIDs, n)
		m.thas[n] = copySet(m.thas[x])
		m.log("cl", `,"t":%d,"n":%d`, x, n)
	})
	return n
}

func (m *machine) abandon(x int) {
	m.log("ab", `,"t":%d`, x)
	delete(m.txns, x)
	delete(m.thas, x)
	m.txnIDs = without(m.txnIDs, x)
}

// ---------------------------------------------------------------------------
// queries

// drain collects what an iterator delivers. It stops a little past the number
// of keys that exist at all.
func (m *machine) drain(next func() ([]byte, int, bool)) (ks, vs []int) {
	for len(ks) < m.u.n()+3 {
		k, v, ok := next()
		if !ok {
			break
		}
		ks = append(ks, m.u.pos(k))
		vs = append(vs, fromLib(v))
	}
	// the end stays the end
	for i := 0; i < 2; i++ {
		if k, v, ok := next(); ok && len(ks) < m.u.n()+3 {
			ks = append(ks, m.u.pos(k))
			vs = append(vs, fromLib(v))
		}
	}
	return ks, vs
}

// opener returns the step function of an iterator of the given kind. The seek
// argument is only valid during the call.
func (m *machine) opener(root art.Node[int], tree *art.RadixTree[int], kind string, b []byte) func() ([]byte, int, bool) {
	switch kind {
	case "all":
		switch m.r.Intn(3) {
		case 0:
			return root.Iterator().Next
		case 1:
			return root.LowerBoundIterator().Next
		default:
			it := root.Iterator()
			it.SeekPrefix(nil)
			return it.Next
		}
	case "pre":
		it := root.Iterator()
		if m.r.Intn(2) == 0 {
			it.SeekPrefix(b)
		} else {
			it.SeekPrefixWatch(b)
		}
		return it.Next
	case "lb":
		it := root.LowerBoundIterator()
		it.SeekLowerBound(b)
		return it.Next
	case "rev":
		return root.ReverseIterator().Previous
	case "rlb":
		it := root.ReverseIterator()
		it.SeekReverseLowerBound(b)
		return it.Previous
	case "rpre":
		it := root.ReverseIterator()
		if m.r.Intn(2) == 0 {
			it.SeekPrefix(b)
		} else {
			it.SeekPrefixWatch(b)
		}
		return it.Previous
	case "path":
		if tree != nil && m.r.Intn(2) == 0 {
			return tree.GetPathIterator(b).Next
		}
		return root.PathIterator(b).Next
	}
	panic("unknown iterator " + kind)
}

func isIter(kind string) bool {
	switch kind {
	case "all", "pre", "lb", "rev", "rlb", "rpre", "path":
		return true
	}
	return false
}

func leafEntry(l *art.NodeLeaf[int]) ([]byte, int, bool) {
	if l == nil {
		return nil, 0, false
	}
	it := l.Iterator()
	it.SeekPrefix(nil)
	return it.Next()
}

// others makes the calls whose results are not specified.
func (m *machine) others(v int) {
	m.call("other calls", func() {
		t := m.trees[v]
		t.DFSPrintTree()
		it, lb := t.Root().Iterator(), t.Root().LowerBoundIterator()
		for i := 0; i < 3; i++ {
			it.Front()
			lb.Front()
			lb.Path()
			it.Path()
			it.Next()
			lb.Next()
		}
		m.log("ok", "")
	})
}

func (m *machine) one(k []byte, v int, ok bool) (ks, vs []int) {
	if !ok {
		return nil, nil
	}
	return []int{m.u.pos(k)}, []int{fromLib(v)}
}

// ask runs one query on a tree, or on a transaction if x is not nil.
func (m *machine) ask(tree *art.RadixTree[int], x *art.Txn[int], kind string, q int) (ks, vs []int) {
	var root art.Node[int]
	if x != nil {
		root = x.Root()
		tree = x.GetTree()
	} else {
		root = tree.Root()
	}
	switch kind {
	case "walk":
		tree.Walk(func(k []byte, v int) bool {
			ks = append(ks, m.u.pos(k))
			vs = append(vs, fromLib(v))
			return len(ks) > m.u.n()+3
		})
	case "dfs":
		tree.DFS(func(n art.Node[int]) {
			k, v, ok := n.Iterator().Next()
			if !ok {
				return // the root of an empty tree
			}
			if at := m.u.pos(k); len(ks) == 0 || ks[len(ks)-1] != at {
				ks = append(ks, at)
				vs = append(vs, fromLib(v))
			}
		})
	case "stop":
		tree.Walk(func(k []byte, v int) bool {
			ks = append(ks, m.u.pos(k))
			vs = append(vs, fromLib(v))
			return len(ks) >= q
		})
	case "get":
		m.withKey(q, func(b []byte) {
			var v int
			var ok bool
			switch {
			case m.r.Intn(3) == 0 && x != nil:
				_, v, ok = x.GetWatch(b)
			case x != nil:
				v, ok = x.Get(b)
			case m.r.Intn(3) == 0:
				_, v, ok = tree.GetWatch(b)
			default:
				v, ok = tree.Get(b)
			}
			if ok {
				ks, vs = []int{q}, []int{fromLib(v)}
			} else if v != 0 {
				vs = []int{v}
			}
		})
	case "lp":
		m.withKey(q, func(b []byte) {
			if x != nil {
				ks, vs = m.one(x.LongestPrefix(b))
			} else {
				ks, vs = m.one(tree.LongestPrefix(b))
			}
		})
	case "min":
		ks, vs = m.one(leafEntry(tree.Minimum()))
	case "max":
		ks, vs = m.one(leafEntry(tree.Maximum()))
	case "npre", "nlb", "xrlb", "xrpre", "xpath":
		// an iterator on the minimum or the maximum
		leaf := tree.Minimum()
		if kind[0] == 'x' {
			leaf = tree.Maximum()
		}
		if leaf != nil {
			var next func() ([]byte, int, bool)
			m.withKey(q, func(b []byte) { next = m.opener(leaf, nil, kind[1:], b) })
			ks, vs = m.drain(next)
		}
	case "all", "rev":
		ks, vs = m.drain(m.opener(root, tree, kind, nil))
	default:
		var next func() ([]byte, int, bool)
		m.withKey(q, func(b []byte) { next = m.opener(root, tree, kind, b) })
		ks, vs = m.drain(next)
	}
	return ks, vs
}

// needsKey tells whether a query takes a key.
func needsKey(kind string) bool {
	switch kind {
	case "walk", "dfs", "stop", "all", "rev", "min", "max":
		return false
	}
	return true
}

// query records one query for each argument.
func (m *machine) query(h string, id int, kind string, qs []int) {
	m.call("query "+kind, func() {
		var tree *art.RadixTree[int]
		var x *art.Txn[int]
		if h == "v" {
			tree = m.trees[id]
		} else {
			x = m.txns[id]
		}
		var ks, vs [][]int
		for _, q := range qs {
			a, b := m.ask(tree, x, kind, q)
			ks = append(ks, a)
			vs = append(vs, b)
		}
		m.log("q", `,"h":"%s","id":%d,"kind":"%s","q":%s,"ks":%s,"vs":%s`, h, id, kind, jints(qs), jlists(ks), jlists(vs))
	})
}

func (m *machine) length(h string, id int) {
	m.call("Len", func() {
		var n int
		if h == "v" {
			n = m.trees[id].Len()
		} else {
			n = m.txns[id].GetTree().Len()
		}
		m.log("len", `,"h":"%s","id":%d,"r":%d`, h, id, n)
	})
}

func jints(s []int) string {
	b := []byte{'['}
	for i, x := range s {
		if i > 0 {
			b = append(b, ',')
		}
		b = strconv.AppendInt(b, int64(x), 10)
	}
	return string(append(b, ']'))
}

func jlists(s [][]int) string {
	b := []byte{'['}
	for i, x := range s {
		if i > 0 {
			b = append(b, ',')
		}
		b = append(b, jints(x)...)
	}
	return string(append(b, ']'))
}

// ---------------------------------------------------------------------------
// iterators kept open

func (m *machine) open(v int, kind string, q int) int {
	c := m.id()
	m.call("open "+kind, func() {
		t := m.trees[v]
		var next func() ([]byte, int, bool)
		if needsKey(kind) {
			m.withKey(q, func(b []byte) { next = m.opener(t.Root(), t, kind, b) })
		} else {
			next = m.opener(t.Root(), t, kind, nil)
		}
		m.curs[c] = &cursor{next: next}
		m.curIDs = append(m.curIDs, c)
		m.log("op", `,"v":%d,"c":%d,"kind":"%s","q":%d`, v, c, kind, q)
	})
	return c
}

func (m *machine) step(c int) bool {
	more := false
	m.call("step", func() {
		k, v, ok := m.curs[c].next()
		more = ok
		pos := 0
		if ok {
			pos = m.u.pos(k)
			if pos == 0 {
				pos = -1
			}
			v = fromLib(v)
		} else {
			v = 0
		}
		m.log("st", `,"c":%d,"k":%d,"x":%d`, c, pos, v)
	})
	return more
}

func (m *machine) closeCur(c int) {
	m.log("cc", `,"c":%d`, c)
	delete(m.curs, c)
	m.curIDs = without(m.curIDs, c)
}

// ---------------------------------------------------------------------------
// watches: scope k is the watch on key k, scope n+p the one on prefix p

func (m *machine) take(tree *art.RadixTree[int], x *art.Txn[int], scope int) (ch <-chan struct{}) {
	n := m.u.n()
	if scope <= n {
		m.withKey(scope, func(b []byte) {
			if x != nil {
				ch, _, _ = x.GetWatch(b)
			} else {
				ch, _, _ = tree.GetWatch(b)
			}
		})
		return ch
	}
	m.withKey(scope-n, func(b []byte) {
		var root art.Node[int]
		if x != nil {
			root = x.Root()
		} else {
			root = tree.Root()
		}
		if m.r.Intn(3) == 0 {
			ch = root.ReverseIterator().SeekPrefixWatch(b)
		} else {
			ch = root.Iterator().SeekPrefixWatch(b)
		}
	})
	return ch
}

func (m *machine) keep(w, scope int, ch <-chan struct{}) {
	if m.chans[w] == nil {
		m.chans[w] = map[int]<-chan struct{}{}
	}
	m.chans[w][scope] = ch
}

// arm takes the watches of a tree for the given scopes now.
func (m *machine) arm(v int, scopes []int) {
	m.call("watch", func() {
		for _, s := range scopes {
			m.keep(v, s, m.take(m.trees[v], nil, s))
		}
	})
}

// txnWatch takes watches inside a transaction.
func (m *machine) txnWatch(x int, scopes []int) int {
	w := m.id()
	m.call("txn watch", func() {
		for _, s := range scopes {
			m.keep(w, s, m.take(nil, m.txns[x], s))
		}
		m.watIDs = append(m.watIDs, w)
		m.log("wt", `,"t":%d,"w":%d`, x, w)
	})
	return w
}

func closed(ch <-chan struct{}) bool {
	select {
	case <-ch:
		return true
	default:
		return false
	}
}

// observe records which watches of a set are closed. Scopes that were not taken
// before are taken now if the tree is still at hand, and some are taken again.
func (m *machine) observe(w int, scopes []int, must, may bool) {
	m.call("watch", func() {
		var ss, cs []int
		tree := m.trees[w]
		for _, s := range scopes {
			ch, ok := m.chans[w][s]
			if tree != nil && (!ok || m.r.Intn(6) == 0) {
				ch = m.take(tree, nil, s)
				ok = true
				if m.r.Intn(2) == 0 {
					m.keep(w, s, ch)
				}
			}
			if !ok {
				continue
			}
			ss = append(ss, s)
			cs = append(cs, b2i(closed(ch)))
		}
		m.log("ob", `,"w":%d,"s":%s,"c":%s,"must":%v,"may":%v`, w, jints(ss), jints(cs), must, may)
	})
}

// dropWatches stops observing a watch set.
func (m *machine) dropWatches(w int) {
	m.log("dw", `,"w":%d`, w)
	delete(m.chans, w)
	m.watIDs = without(m.watIDs, w)
}

func (m *machine) watched(w int) bool {
	for _, x := range m.watIDs {
		if x == w {
			return true
		}
	}
	return false
}
