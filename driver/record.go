package main

import (
	"math/rand"
)

// profile says what the random histories of one property look like. The
// numbers are relative weights of the calls.
type profile struct {
	steps  int
	small  bool // small key tables
	linear bool // write to and commit on the newest tree only
	watch  bool

	results  bool
	scribble bool

	treeWrite, burst, txn, clone, treeClone int

	kinds   []string // queries
	perStep int      // queries per step, in percent
	qargs   int      // number of arguments per query
	onTxn   bool     // also query transactions
	lens    bool
	print   bool // also calls without specified results
	recheck int  // queries on old trees per step, in percent
	cursors bool

	must, may bool
	keyScopes bool
	preScopes bool
	untracked int  // share of transactions without tracking, in percent
	abandoned int  // share of transactions that are abandoned, in percent
	fresh     bool // observe the newest tree right after each commit
	eager     int  // share of versions whose watches are taken at once, in percent

	dp int // weight of prefix deletes in percent
}

var allKinds = []string{"all", "walk", "stop", "pre", "lb", "rev", "rlb", "rpre", "path", "lp", "get", "min", "max"}
var leafKinds = []string{"npre", "nlb", "xrlb", "xrpre", "xpath"}
var iterKinds = []string{"all", "pre", "lb", "rev", "rlb", "rpre", "path"}

func profileOf(focus string) profile {
	p := profile{steps: 110, treeWrite: 10, burst: 10, txn: 6, clone: 1, treeClone: 1, perStep: 60, qargs: 4, dp: 5}
	switch focus {
	case "C01":
		p.results = true
		p.onTxn = true
		p.kinds = []string{"get"}
		p.qargs = 12
		p.steps = 140
	case "C02":
		p.lens = true
		p.perStep = 100
		p.dp = 12
		p.steps = 160
	case "C03":
		p.kinds = allKinds
		p.lens = true
		p.recheck = 120
		p.perStep = 0
		p.txn, p.clone, p.treeClone = 10, 3, 3
	case "C04":
		p.kinds = allKinds
		p.onTxn = true
		p.recheck = 40
		p.treeWrite, p.txn, p.clone, p.burst = 2, 12, 0, 12
		p.abandoned = 20
	case "C05":
		p.kinds = allKinds
		p.onTxn = true
		p.recheck = 40
		p.treeWrite, p.txn, p.clone, p.burst = 2, 6, 8, 10
		p.abandoned = 10
	case "C06":
		p.kinds = []string{"all", "walk", "stop", "dfs"}
		p.perStep = 100
		p.onTxn = true
	case "C07":
		p.kinds = []string{"pre", "pre", "pre", "npre"}
		p.qargs = 12
	case "C08":
		p.kinds = []string{"lb", "lb", "lb", "nlb"}
		p.qargs = 12
	case "C09":
		p.kinds = []string{"rev", "rev", "rlb", "rlb", "rlb", "rlb", "rpre", "rpre", "xrlb", "xrpre"}
		p.qargs = 12
	case "C10":
		p.kinds = []string{"lp"}
		p.qargs = 14
		p.onTxn = true
	case "C11":
		p.kinds = []string{"path", "path", "path", "xpath"}
		p.qargs = 14
	case "C12":
		p.kinds = []string{"min", "max"}
		p.perStep = 160
		p.dp = 10
	case "C13":
		p.kinds = []string{"all", "get", "pre"}
		p.results = true
		p.dp = 35
		p.lens = true
	case "C14":
		p.keyScopes, p.must = true, true
		p.untracked = 5
	case "C15":
		p.preScopes, p.must = true, true
		p.untracked = 5
	case "C16":
		p.keyScopes, p.preScopes, p.may = true, true, true
		p.linear = true
	case "C17":
		p.keyScopes, p.preScopes, p.may, p.must = true, true, true, true
		p.linear = true
		p.untracked, p.abandoned = 35, 25
		p.treeWrite = 4
	case "C18":
		p.keyScopes, p.preScopes, p.may = true, true, true
		p.linear = true
		p.fresh = true
		p.abandoned = 10
	case "C20":
		p.scribble = true
		p.results = true
		p.onTxn = true
		p.kinds = allKinds
		p.cursors = true
		p.recheck = 30
		p.steps = 60
	case "C21":
		p.cursors = true
		p.perStep = 0
		p.kinds = iterKinds
		p.txn = 10
	case "C22":
		p.kinds = append(append([]string{"dfs"}, allKinds...), leafKinds...)
		p.print = true
		p.results, p.lens, p.onTxn = true, true, true
		p.steps = 140
	default:
		panic("no profile for " + focus)
	}
	if watching(focus) {
		p.watch, p.small = true, true
		p.steps = 40
		p.perStep = 0
		p.txn, p.burst, p.clone, p.treeClone = 10, 0, 0, 0
		if focus != "C17" {
			p.treeWrite = 0
		}
		p.eager = 50
		if !p.linear {
			p.clone = 1
		}
	}
	return p
}

// writer chooses what to write. It goes through phases of filling and
// draining, so that nodes pass all their sizes.
type writer struct {
	p     profile
	m     *machine
	left  int
	pIns  float64
	focus int // if not 0, most writes concern keys under this one
}

func (w *writer) phase() {
	r := w.m.r
	hot := len(w.m.u.hot)
	w.left = 5 + r.Intn(hot+20)
	w.pIns = []float64{0.95, 0.95, 0.8, 0.5, 0.5, 0.2, 0.05}[r.Intn(7)]
}

// op chooses a write for a map that has the given keys.
func (w *writer) op(has map[int]bool) (string, int) {
	m := w.m
	r := m.r
	w.left--
	if w.left <= 0 {
		w.phase()
	}
	u := m.u
	anyKey := func() int {
		if r.Intn(6) == 0 {
			return 1 + r.Intn(u.n())
		}
		return u.hot[r.Intn(len(u.hot))]
	}
	pick := func(present bool) int {
		k := anyKey()
		for try := 0; try < 8 && has[k] != present; try++ {
			k = anyKey()
		}
		return k
	}
	if r.Intn(100) < w.p.dp {
		// mostly prefixes that leave something
		k := 1 + r.Intn(u.n())
		if r.Intn(3) > 0 {
			k = pick(true)
		}
		if len(u.key(k)) < 2 && r.Intn(4) > 0 {
			k = anyKey()
		}
		return "dp", k
	}
	if r.Float64() < w.pIns {
		return "ins", pick(r.Intn(8) == 0)
	}
	return "del", pick(r.Intn(8) != 0)
}

// prefill often starts a history with most of the hot keys, so that the large
// nodes are, or have been, there from the beginning. It returns the newest tree.
func prefill(m *machine) int {
	r := m.r
	wide := m.u.family == "wide" || m.u.family == "twowide"
	if c := r.Intn(10); c >= 8 || (c >= 4 && !wide) {
		return 0
	}
	x := m.begin(0)
	if r.Intn(3) == 0 {
		m.track(x, true)
	}
	skip := []int{0, 0, 2, 10, 50}[r.Intn(5)] // share of keys left out, in percent
	for _, i := range r.Perm(len(m.u.hot)) {
		if r.Intn(100) >= skip && !m.dead {
			m.txnWrite(x, "ins", m.u.hot[i])
		}
	}
	// sometimes the nodes become nearly empty again
	if r.Intn(6) == 0 {
		keep := r.Intn(4)
		for i, j := range r.Perm(len(m.u.hot)) {
			if i >= keep && !m.dead {
				m.txnWrite(x, "del", m.u.hot[j])
			}
		}
	}
	if m.dead {
		return 0
	}
	v := m.commit(x)
	if !m.dead {
		m.abandon(x)
	}
	return v
}

func pickOf(r *rand.Rand, s []int) int { return s[r.Intn(len(s))] }

// record runs one random history.
func record(m *machine, p profile) {
	r := m.r
	m.results, m.scribble = p.results, p.scribble
	w := &writer{p: p, m: m}
	w.phase()
	if r.Intn(3) > 0 {
		w.pIns = 0.95
	}
	if p.watch {
		recordWatch(m, p, w)
		return
	}
	head := prefill(m)
	if m.dead {
		return
	}
	weights := []int{p.treeWrite, p.burst, p.txn, p.clone, p.treeClone}
	total := 0
	for _, x := range weights {
		total += x
	}
	choose := func() int {
		x := r.Intn(total)
		for i, y := range weights {
			if x < y {
				return i
			}
			x -= y
		}
		return 0
	}
	base := func() int {
		if r.Intn(5) == 0 {
			return pickOf(r, m.treeIDs)
		}
		if m.trees[head] == nil {
			head = m.treeIDs[len(m.treeIDs)-1]
		}
		return head
	}
	for s := 0; s < p.steps && !m.dead; s++ {
		switch choose() {
		case 0:
			v := base()
			o, k := w.op(m.has[v])
			head = m.treeWrite(v, o, k)
		case 1: // one transaction with a run of writes
			x := m.begin(base())
			if r.Intn(3) == 0 {
				m.track(x, true)
			}
			for i, n := 0, 1+r.Intn(10); i < n && !m.dead; i++ {
				o, k := w.op(m.thas[x])
				m.txnWrite(x, o, k)
				if p.onTxn && r.Intn(4) == 0 {
					queries(m, p, "t", x, 1)
				}
			}
			if m.dead {
				return
			}
			if r.Intn(100) < p.abandoned {
				m.abandon(x)
				break
			}
			head = finish(m, x)
			if !m.dead && r.Intn(4) > 0 {
				m.abandon(x)
			}
		case 2: // a step of a transaction that stays open
			if len(m.txnIDs) == 0 || (len(m.txnIDs) < 3 && r.Intn(4) == 0) {
				x := m.begin(base())
				if r.Intn(3) == 0 {
					m.track(x, true)
				}
				break
			}
			x := pickOf(r, m.txnIDs)
			switch y := r.Intn(12); {
			case y < 9:
				for i, n := 0, 1+r.Intn(3); i < n && !m.dead; i++ {
					o, k := w.op(m.thas[x])
					m.txnWrite(x, o, k)
				}
			case y == 9 && r.Intn(100) < 30+p.abandoned:
				m.abandon(x)
			default:
				head = finish(m, x)
				if !m.dead && r.Intn(2) == 0 {
					m.abandon(x)
				}
			}
		case 3:
			if len(m.txnIDs) == 0 {
				m.begin(base())
			}
			if !m.dead && len(m.txnIDs) < 4 {
				m.txnClone(pickOf(r, m.txnIDs))
			}
		case 4:
			head = m.treeClone(base())
		}
		if m.dead {
			return
		}
		for y := p.perStep; y > 0 && !m.dead; y -= 100 {
			if r.Intn(100) < y {
				if p.onTxn && len(m.txnIDs) > 0 && r.Intn(2) == 0 {
					queries(m, p, "t", pickOf(r, m.txnIDs), p.qargs)
				} else {
					queries(m, p, "v", base(), p.qargs)
				}
			}
		}
		for y := p.recheck; y > 0 && !m.dead; y -= 100 {
			if r.Intn(100) < y {
				queries(m, p, "v", pickOf(r, m.treeIDs), p.qargs)
			}
		}
		if p.cursors && !m.dead {
			cursors(m, p)
		}
		for len(m.treeIDs) > 7 {
			// keep some old ones
			if r.Intn(3) == 0 {
				m.forget(m.treeIDs[0])
			} else {
				m.forget(m.treeIDs[1+r.Intn(len(m.treeIDs)-2)])
			}
		}
		if len(m.txnIDs) > 4 {
			m.abandon(m.txnIDs[r.Intn(len(m.txnIDs))])
		}
	}
	// in the end, look at everything that is left
	for _, v := range append([]int{}, m.treeIDs...) {
		if p.recheck > 0 {
			queries(m, p, "v", v, p.qargs)
		}
	}
	for _, c := range append([]int{}, m.curIDs...) {
		for i := 0; i < m.u.n()+3 && !m.dead && m.step(c); i++ {
		}
	}
}

// finish commits a transaction in one way or the other.
func finish(m *machine, x int) int {
	if m.r.Intn(3) == 0 {
		n := m.commitOnly(x)
		if m.r.Intn(2) == 0 {
			m.notify(x)
		}
		return n
	}
	return m.commit(x)
}

func queries(m *machine, p profile, h string, id int, n int) {
	r := m.r
	if p.lens && (len(p.kinds) == 0 || r.Intn(3) == 0) {
		m.length(h, id)
	}
	if len(p.kinds) == 0 {
		return
	}
	if p.print && h == "v" && r.Intn(15) == 0 {
		m.others(id)
	}
	kind := p.kinds[r.Intn(len(p.kinds))]
	if !needsKey(kind) {
		q := 0
		if kind == "stop" {
			q = 1 + r.Intn(m.u.n())
			if r.Intn(2) == 0 {
				q = 1 + r.Intn(4)
			}
		}
		m.query(h, id, kind, []int{q})
		return
	}
	qs := []int{}
	for i := 0; i < n; i++ {
		qs = append(qs, 1+r.Intn(m.u.n()))
	}
	m.query(h, id, kind, qs)
}

// cursors opens, steps and closes iterators.
func cursors(m *machine, p profile) {
	r := m.r
	for len(m.curIDs) < 3 || (len(m.curIDs) < 6 && r.Intn(3) == 0) {
		kind := p.kinds[r.Intn(len(p.kinds))]
		if !isIter(kind) {
			kind = iterKinds[r.Intn(len(iterKinds))]
		}
		q := 0
		if needsKey(kind) {
			q = 1 + r.Intn(m.u.n())
			if r.Intn(2) == 0 {
				// few keys lie under a random one
				q = 1 + r.Intn((m.u.n()+3)/4)
			}
		}
		v := m.treeIDs[len(m.treeIDs)-1]
		if r.Intn(3) == 0 {
			v = pickOf(r, m.treeIDs)
		}
		m.open(v, kind, q)
		if m.dead {
			return
		}
	}
	for i := 0; i < 2 && len(m.curIDs) > 0; i++ {
		c := pickOf(r, m.curIDs)
		if !m.step(c) && !m.dead && r.Intn(2) == 0 {
			m.closeCur(c)
		}
		if m.dead {
			return
		}
	}
}

// ---------------------------------------------------------------------------
// histories of transactions with watches

func (p *profile) scopes(m *machine) []int {
	var out []int
	n := m.u.n()
	for i := 1; i <= n; i++ {
		if p.keyScopes {
			out = append(out, i)
		}
		if p.preScopes {
			out = append(out, n+i)
		}
	}
	return out
}

func sample(r *rand.Rand, s []int, n int) []int {
	if n >= len(s) {
		return s
	}
	out := []int{}
	for _, i := range r.Perm(len(s))[:n] {
		out = append(out, s[i])
	}
	return out
}

func recordWatch(m *machine, p profile, w *writer) {
	r := m.r
	all := p.scopes(m)
	head := 0
	look := func(v int, n int) {
		if m.dead || !m.watched(v) {
			return
		}
		m.observe(v, sample(r, all, n), p.must, p.may)
	}
	armSome := func(v int) {
		if r.Intn(100) < p.eager {
			m.arm(v, all)
		} else {
			m.arm(v, sample(r, all, r.Intn(6)))
		}
	}
	// start with some contents
	if m.u.n() > 30 {
		// enough to look at
		all = sample(r, all, 60)
	}
	if r.Intn(3) == 0 {
		head = prefill(m)
		if m.dead {
			return
		}
	} else if r.Intn(5) > 0 {
		x := m.begin(0)
		m.track(x, true)
		for i, n := 0, r.Intn(len(m.u.hot)+4); i < n && !m.dead; i++ {
			o, k := w.op(m.thas[x])
			m.txnWrite(x, o, k)
		}
		if m.dead {
			return
		}
		head = m.commit(x)
		if m.dead {
			return
		}
		m.abandon(x)
	}
	armSome(head)
	open := 0 // transaction that goes on after its commit
	many := -1
	if r.Intn(8) == 0 {
		many = r.Intn(p.steps) // a step with a very long transaction
	}
	for s := 0; s < p.steps && !m.dead; s++ {
		base := head
		if !p.linear && r.Intn(6) == 0 {
			base = pickOf(r, m.treeIDs)
		}
		if r.Intn(14) < p.treeWrite {
			o, k := w.op(m.has[base])
			head = m.treeWrite(base, o, k)
			if !m.dead {
				armSome(head)
				look(pickOf(r, m.watIDs), len(all))
			}
			continue
		}
		x := open
		if x == 0 {
			x = m.begin(base)
			if r.Intn(100) >= p.untracked {
				m.track(x, true)
			}
		}
		open = 0
		for i, n := 0, 1+r.Intn(3)*r.Intn(3); i < n && !m.dead; i++ {
			o, k := w.op(m.thas[x])
			m.txnWrite(x, o, k)
			if s >= many && many >= 0 && !m.dead && o == "ins" && len(m.u.key(k)) < 1000 {
				m.txnRepeat(x, k, []int{300, 5000, 9000, 20000, 40000}[r.Intn(5)])
				many = -1
				n += 4
			}
			if r.Intn(8) == 0 && !m.dead {
				look(pickOf(r, m.watIDs), 8)
			}
			if r.Intn(10) == 0 && !m.dead && p.must {
				m.txnWatch(x, sample(r, all, 6))
			}
			if r.Intn(40) == 0 && p.untracked > 20 {
				m.track(x, r.Intn(2) == 0)
			}
			if r.Intn(12) == 0 && p.clone > 0 && !m.dead {
				// the copy takes over; tracking starts again
				y := m.txnClone(x)
				if m.dead {
					return
				}
				if r.Intn(2) == 0 {
					m.abandon(x)
					x = y
				} else {
					m.track(y, true)
					m.txnWrite(y, "ins", pickOf(r, m.u.hot))
					if m.dead {
						return
					}
					m.commit(y)
					if m.dead {
						return
					}
					m.abandon(y)
				}
				m.track(x, true)
			}
		}
		if m.dead {
			return
		}
		if r.Intn(100) < p.abandoned {
			m.abandon(x)
			look(head, len(all))
			continue
		}
		switch r.Intn(4) {
		case 0:
			head = m.commitOnly(x)
			if m.dead {
				return
			}
			if r.Intn(2) == 0 {
				armSome(head)
			}
			look(pickOf(r, m.watIDs), len(all))
			if m.dead {
				return
			}
			if r.Intn(3) == 0 && !p.linear {
				break // never notified
			}
			if r.Intn(4) == 0 && p.abandoned > 20 {
				break
			}
			m.notify(x)
		default:
			head = m.commit(x)
		}
		if m.dead {
			return
		}
		if p.fresh {
			look(head, len(all))
		}
		if m.dead {
			return
		}
		armSome(head)
		// the tree before always, one older one, and the new one
		if m.trees[base] != nil {
			look(base, len(all))
		}
		look(pickOf(r, m.watIDs), len(all))
		if r.Intn(3) == 0 {
			look(head, len(all))
		}
		if m.dead {
			return
		}
		if r.Intn(3) == 0 && (!p.linear || head != 0) {
			open = x
		} else {
			m.abandon(x)
		}
		for len(m.treeIDs) > 8 {
			v := m.treeIDs[r.Intn(len(m.treeIDs)-1)]
			m.forget(v)
		}
		for len(m.watIDs) > 14 {
			m.dropWatches(m.watIDs[r.Intn(len(m.watIDs)-2)])
		}
	}
	for _, v := range append([]int{}, m.watIDs...) {
		look(v, len(all))
	}
}
