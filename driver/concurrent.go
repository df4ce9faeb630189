package main

import (
	"math/rand"
	"sync"
	"time"

	art "github.com/absolutelightning/go-immutable-adaptive-radix"
)

// published is the list of trees that readers may use.
type published struct {
	mu    sync.Mutex
	ids   []int
	trees []*art.RadixTree[int]
}

func (p *published) add(id int, t *art.RadixTree[int]) {
	p.mu.Lock()
	p.ids = append(p.ids, id)
	p.trees = append(p.trees, t)
	p.mu.Unlock()
}

// pick returns one of the trees, mostly a recent one.
func (p *published) pick(r *rand.Rand) (int, *art.RadixTree[int]) {
	p.mu.Lock()
	defer p.mu.Unlock()
	n := len(p.ids)
	i := n - 1
	if r.Intn(3) == 0 {
		i = r.Intn(n)
	} else if n > 1 && r.Intn(3) == 0 {
		i = n - 2
	}
	return p.ids[i], p.trees[i]
}

type taken struct {
	w, scope int
	ch       <-chan struct{}
}

// reader runs queries and takes watches on published trees until it is told to
// stop. Everything it sees is kept for the trace.
func reader(m *machine, pub *published, stop <-chan struct{}) (got []taken) {
	u, r := m.u, m.r
	last := false
	for i := 0; !m.dead && i < 400; i++ {
		select {
		case <-stop:
			if i >= 20 {
				last = true
			}
		default:
		}
		if last {
			break
		}
		v, t := pub.pick(r)
		if r.Intn(2) == 0 {
			m.call("concurrent watch", func() {
				for j := 0; j < 3; j++ {
					s := 1 + r.Intn(2*u.n())
					got = append(got, taken{v, s, m.take(t, nil, s)})
				}
			})
			continue
		}
		kind := allKinds[r.Intn(len(allKinds))]
		m.call("concurrent "+kind, func() {
			q := 1 + r.Intn(u.n())
			ks, vs := m.ask(t, nil, kind, q)
			m.log("q", `,"h":"v","id":%d,"kind":"%s","q":[%d],"ks":%s,"vs":%s`, v, kind, q, jlists([][]int{ks}), jlists([][]int{vs}))
		})
	}
	return got
}

// recordConcurrent runs one writer and several readers at the same time.
func recordConcurrent(m *machine, readers int) {
	r := m.r
	p := profile{small: true, watch: true, dp: 5}
	w := &writer{p: p, m: m}
	w.phase()
	w.pIns = 0.9
	head := 0
	running := false
	// give the readers some time without synchronising with them
	pause := func(short bool) {
		if !running {
			return
		}
		d := 40 + r.Intn(100)
		if short {
			d = r.Intn(30)
		}
		time.Sleep(time.Duration(d) * time.Microsecond)
	}
	step := func() {
		x := m.begin(head)
		m.track(x, r.Intn(8) > 0)
		for i, n := 0, 1+r.Intn(4); i < n && !m.dead; i++ {
			o, k := w.op(m.thas[x])
			m.txnWrite(x, o, k)
			pause(i > 0)
		}
		if m.dead {
			return
		}
		if r.Intn(3) == 0 {
			head = m.commitOnly(x)
			if m.dead {
				return
			}
			pause(true)
			m.notify(x)
		} else {
			head = m.commit(x)
		}
		if m.dead {
			return
		}
		m.abandon(x)
	}
	for i, n := 0, r.Intn(6); i < n && !m.dead; i++ {
		step()
	}
	if m.dead {
		return
	}
	pub := &published{}
	pub.add(head, m.trees[head])
	stop := make(chan struct{})
	logs := make([]*machine, readers)
	gots := make([][]taken, readers)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := 0; i < readers; i++ {
		wg.Add(1)
		logs[i] = newMachine(m.u, rand.New(rand.NewSource(r.Int63())))
		m.sub(logs[i])
		go func(i int) {
			defer wg.Done()
			<-start
			gots[i] = reader(logs[i], pub, stop)
		}(i)
	}
	running = true
	close(start)
	for s := 0; s < 25 && !m.dead; s++ {
		step()
		if !m.dead {
			pub.add(head, m.trees[head])
			pause(false)
		}
	}
	close(stop)
	wg.Wait()
	if m.dead {
		return
	}
	// what the readers saw, and then the state of their channels
	for _, l := range logs {
		m.ev.Write(l.ev.Bytes())
		m.events += l.events
		for k, n := range l.kinds {
			m.kinds[k] += n
		}
	}
	by := map[int][]taken{}
	for _, g := range gots {
		for _, x := range g {
			by[x.w] = append(by[x.w], x)
		}
	}
	for _, v := range m.treeIDs {
		xs := by[v]
		if len(xs) == 0 {
			continue
		}
		var ss, cs []int
		for _, x := range xs {
			ss = append(ss, x.scope)
			cs = append(cs, b2i(closed(x.ch)))
		}
		m.log("ob", `,"w":%d,"s":%s,"c":%s,"must":true,"may":true`, v, jints(ss), jints(cs))
	}
}

// recordClones makes clones of one transaction and writes to all of them at the
// same time, each in a goroutine of its own. The clones do not influence each
// other, so for the trace it does not matter in which order the calls of
// different goroutines are put.
func recordClones(m *machine) {
	r := m.r
	p := profile{kinds: allKinds, dp: 5, onTxn: true, lens: true}
	w := &writer{p: p, m: m}
	w.phase()
	w.pIns = 0.9
	m.results = true
	head := prefill(m)
	if m.dead {
		return
	}
	x := m.begin(head)
	if r.Intn(2) == 0 {
		m.track(x, true)
	}
	for i, n := 0, r.Intn(8); i < n && !m.dead; i++ {
		o, k := w.op(m.thas[x])
		m.txnWrite(x, o, k)
	}
	var ids []int
	for i := 0; i < 3 && !m.dead; i++ {
		y := x
		if len(ids) > 0 {
			y = pickOf(r, ids)
		}
		ids = append(ids, m.txnClone(y))
	}
	if m.dead {
		return
	}
	ids = append(ids, x)
	subs := make([]*machine, len(ids))
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i, id := range ids {
		c := newMachine(m.u, rand.New(rand.NewSource(r.Int63())))
		c.nextID = 100000 * (i + 1)
		c.val = 100000 * (i + 1)
		c.results = true
		c.txns[id], c.thas[id], c.txnIDs = m.txns[id], m.thas[id], []int{id}
		c.trees[head], c.has[head], c.treeIDs = m.trees[head], m.has[head], []int{head}
		subs[i] = c
		m.sub(c)
		wg.Add(1)
		go func(id int) {
			defer wg.Done()
			<-start
			cw := &writer{p: p, m: c}
			cw.phase()
			for s := 0; s < 30 && !c.dead; s++ {
				switch y := c.r.Intn(12); {
				case y == 0:
					c.track(id, c.r.Intn(2) == 0)
				case y == 1 && len(c.treeIDs) < 6:
					finish(c, id)
				case y < 9:
					o, k := cw.op(c.thas[id])
					c.txnWrite(id, o, k)
				case y == 9:
					queries(c, p, "v", pickOf(c.r, c.treeIDs), 3)
				default:
					queries(c, p, "t", id, 3)
				}
			}
			if !c.dead {
				finish(c, id)
			}
			for _, v := range c.treeIDs {
				queries(c, p, "v", v, 4)
			}
		}(id)
	}
	close(start)
	wg.Wait()
	for _, c := range subs {
		m.ev.Write(c.ev.Bytes())
		m.events += c.events
		for k, n := range c.kinds {
			m.kinds[k] += n
		}
		if c.dead {
			return
		}
	}
}
