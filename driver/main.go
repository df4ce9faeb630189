// Command driver runs the real library and records what it does, for
// comparison with the specification.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sync"
	"sync/atomic"
	"time"
)

func fail(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "driver:", err)
		os.Exit(3)
	}
}

type head struct {
	Keys   [][]int `json:"keys"`
	Watch  bool    `json:"watch"`
	Lo     int     `json:"lo"`
	Hi     int     `json:"hi"`
	Family string  `json:"family"`
	Block  int     `json:"block"`
	Place  int     `json:"place"`
	Clones bool    `json:"clones"`
	Seed   int64   `json:"seed"`
}

func keyInts(keys [][]byte) [][]int {
	out := [][]int{}
	for _, k := range keys {
		s := []int{}
		for _, b := range k {
			s = append(s, int(b))
		}
		out = append(out, s)
	}
	return out
}

type stats struct {
	Traces   int            `json:"traces"`
	Events   int            `json:"events"`
	ByEvent  map[string]int `json:"by_event"`
	ByFamily map[string]int `json:"by_family"`
}

// output is where results go. What the library prints goes nowhere.
var output = os.Stdout

func main() {
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	fail(err)
	os.Stdout = null
	if len(os.Args) < 2 {
		fail(fmt.Errorf("missing mode"))
	}
	debug.SetMaxStack(1 << 28)
	go limitMemory()
	switch os.Args[1] {
	case "record":
		mainRecord(os.Args[2:])
	case "scenes":
		mainScenes(os.Args[2:])
	case "walk":
		mainWalk(os.Args[2:])
	case "behave":
		mainBehave(os.Args[2:])
	default:
		fail(fmt.Errorf("unknown mode %s", os.Args[1]))
	}
}

// callLimit is how long one call of the library may take. Calls take
// microseconds.
const callLimit = 30 * time.Second

// heapLimit is how much memory may be in use. The driver itself needs less than
// half of it.
const heapLimit = 12 << 30

// limitMemory ends the process if a call goes on allocating.
func limitMemory() {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(200 * time.Millisecond)
		metrics.Read(s)
		if s[0].Value.Uint64() > heapLimit {
			debug.SetTraceback("all")
			panic("out of memory")
		}
	}
}

// oneTrace runs the history with the given seed. If a call does not return, the
// trace ends with it.
func oneTrace(focus string, seed int64, clones bool, over *atomic.Bool) *machine {
	r := rand.New(rand.NewSource(seed))
	var m *machine
	var run func()
	if clones {
		m = newMachine(pickUniverse(r, false, false), r)
		run = func() { recordClones(m) }
	} else if focus == "C19" {
		m = newMachine(pickUniverse(r, true, true), r)
		run = func() { recordConcurrent(m, 5) }
	} else {
		p := profileOf(focus)
		var u *universe
		if focus == "C22" && r.Intn(12) == 0 {
			u = wideUniverse(r, 256)
			p.steps *= 2
		} else {
			u = pickUniverse(r, p.small, p.watch)
		}
		m = newMachine(u, r)
		run = func() { record(m, p) }
	}
	done := make(chan struct{})
	go func() {
		run()
		close(done)
	}()
	tick := time.NewTicker(time.Second)
	defer tick.Stop()
	for {
		select {
		case <-done:
			return m
		case <-tick.C:
			if over.Load() {
				return nil
			}
			if what, yes := m.stuck(callLimit); yes {
				over.Store(true)
				c := newMachine(m.u, nil)
				c.ev.Write(m.ev.Bytes())
				c.events = m.events
				c.log("panic", `,"what":"%s does not return"`, what)
				return c
			}
		}
	}
}

// watching tells whether the traces of a property observe watches.
func watching(focus string) bool {
	switch focus {
	case "C14", "C15", "C16", "C17", "C18", "C19":
		return true
	}
	return false
}

func mainRecord(args []string) {
	fs := flag.NewFlagSet("record", flag.ExitOnError)
	focus := fs.String("focus", "C01", "property")
	seed := fs.Int64("seed", 0, "seed")
	count := fs.Int("n", 50, "number of traces")
	heads := fs.String("heads", "", "output")
	events := fs.String("events", "", "output")
	single := fs.Bool("single", false, "seed is the seed of one trace")
	clones := fs.Bool("clones", false, "write to clones of a transaction at the same time")
	fs.Parse(args)

	var over atomic.Bool // a call hangs
	ms := make([]*machine, *count)
	seeds := make([]int64, *count)
	var wg sync.WaitGroup
	next := make(chan int)
	workers := runtime.NumCPU()
	if *focus == "C19" || *clones {
		workers = 2 // each trace has its own goroutines
	}
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				seeds[i] = *seed*1000003 + int64(i)
				if *single {
					seeds[i] = *seed
				}
				if !over.Load() {
					ms[i] = oneTrace(*focus, seeds[i], *clones, &over)
				}
			}
		}()
	}
	for i := range ms {
		next <- i
	}
	close(next)
	wg.Wait()

	hf, err := os.Create(*heads)
	fail(err)
	ef, err := os.Create(*events)
	fail(err)
	ew := bufio.NewWriter(ef)
	st := stats{ByEvent: map[string]int{}, ByFamily: map[string]int{}}
	enc := json.NewEncoder(hf)
	lo := 1
	for i, m := range ms {
		if m == nil {
			continue // a call of another trace hangs
		}
		h := head{Keys: keyInts(m.u.keys), Watch: watching(*focus), Lo: lo, Hi: lo + m.events - 1, Family: m.u.family,
			Block: m.u.block, Place: m.u.place, Clones: *clones, Seed: seeds[i]}
		fail(enc.Encode(h))
		_, err := ew.Write(m.ev.Bytes())
		fail(err)
		lo += m.events
		st.Traces++
		st.Events += m.events
		st.ByFamily[m.u.family]++
		for k, n := range m.kinds {
			st.ByEvent[k] += n
		}
	}
	fail(ew.Flush())
	fail(ef.Close())
	fail(hf.Close())
	fail(json.NewEncoder(output).Encode(st))
}
