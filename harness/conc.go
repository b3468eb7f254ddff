package main

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"

	adaptive "github.com/absolutelightning/go-immutable-adaptive-radix"
)

// C18: one writer executes the history and publishes trees; readers run all
// kinds of reads on published trees and compare them with the recorded contents;
// then concurrent watch requests and concurrently mutated transaction clones are
// tried. The binary is built with the race detector, which reports data races.

type published struct {
	t    *tree
	m    map[string]int // read-only after publication
	all  []kv
	keys []string
}

type concObs struct {
	nopObs
	cur       atomic.Pointer[published]
	n         int
	published int
	reads     atomic.Int64
}

func publish(r *treeRec) *published {
	p := &published{t: r.t, m: r.m.m, all: r.m.scan("")}
	p.keys = append([]string(nil), r.m.keys()...)
	return p
}

func (c *concObs) onTree(s *state, r *treeRec) {
	c.n++
	if len(r.m.m) > 60 && c.n%8 != 0 {
		return
	}
	c.cur.Store(publish(r))
	c.published++
	// let the readers get at it while the writer continues
	seen := c.reads.Load()
	for i := 0; i < 50 && c.reads.Load() == seen; i++ {
		runtime.Gosched()
	}
}

type failBox struct {
	mu  sync.Mutex
	msg string
}

func (f *failBox) set(m string) {
	f.mu.Lock()
	if f.msg == "" {
		f.msg = m
	}
	f.mu.Unlock()
}

func (f *failBox) get() string {
	f.mu.Lock()
	defer f.mu.Unlock()
	return f.msg
}

func (f *failBox) guard(wg *sync.WaitGroup, fn func()) {
	defer wg.Done()
	defer func() {
		if r := recover(); r != nil {
			if v, ok := r.(violation); ok {
				f.set(v.msg)
			} else {
				f.set(fmt.Sprintf("panic in a concurrent goroutine: %v", r))
			}
		}
	}()
	fn()
}

func readOnce(p *published, r *rng, probes []string) {
	lim := 2*len(p.all) + 64
	root := p.t.Root()
	k := probes[r.n(len(probes))]
	if len(p.keys) > 0 && r.pct(50) {
		k = p.keys[r.n(len(p.keys))]
	}
	m := &model{m: p.m, sorted: p.keys}
	if len(p.keys) == 0 {
		m.sorted = []string{}
	}
	switch r.n(13) {
	case 0, 1:
		expectGet("concurrent reader", p.t.Get, k, m)
	case 2:
		expectKVs("concurrent forward scan", fwdScan(root, lim, func(it *adaptive.Iterator[int]) { it.SeekPrefix(nil) }), p.all)
	case 3:
		expectKVs("concurrent prefix scan", fwdScan(root, lim, func(it *adaptive.Iterator[int]) { it.SeekPrefix([]byte(k)) }), m.scan(k))
	case 4:
		expectKVs("concurrent reverse scan", revScan(root, lim, nil), reversed(p.all))
	case 5:
		expectKVs("concurrent lower bound", lbScan(root, lim, k), m.lowerBound(k))
	case 6:
		expectKVs("concurrent reverse lower bound", rlbScan(root, lim, k), m.reverseLowerBound(k))
	case 7:
		expectKVs("concurrent path", pathScan(root, lim, k), m.path(k))
	case 8:
		_, v, ok := p.t.GetWatch([]byte(k))
		if w, has := p.m[k]; has != ok || w != v {
			failf("concurrent GetWatch(%q) = %d,%v want %d,%v", k, v, ok, w, has)
		}
	case 9:
		root.Iterator().SeekPrefixWatch([]byte(k))
		root.ReverseIterator().SeekPrefixWatch([]byte(k))
	case 10:
		var got []kv
		p.t.Walk(func(k []byte, v int) bool {
			got = append(got, kv{string(k), v})
			return len(got) > lim
		})
		expectKVs("concurrent walk", got, p.all)
		if p.t.Len() != len(p.all) {
			failf("concurrent Len = %d want %d", p.t.Len(), len(p.all))
		}
	case 11:
		path := m.path(k)
		if lk, lv, ok := p.t.LongestPrefix([]byte(k)); ok != (len(path) > 0) || ok && (path[len(path)-1] != kv{string(lk), lv}) {
			failf("concurrent LongestPrefix(%q) = %q,%d,%v want the last of %s", k, lk, lv, ok, fmtKVs(path))
		}
		ends := []*adaptive.NodeLeaf[int]{p.t.Minimum(), p.t.Maximum()}
		for i, l := range ends {
			if len(p.all) == 0 {
				break
			}
			var got []kv
			if l != nil {
				got = fwdScan(l, 2, nil)
			}
			e := p.all[i*(len(p.all)-1)]
			expectKVs("concurrent minimum or maximum", got, []kv{e})
		}
		nodes := 0
		p.t.DFS(func(node) { nodes++ })
		if nodes == 0 {
			failf("concurrent DFS visited nothing")
		}
	case 12:
		// private transactions on the shared tree and on a clone of it
		t := p.t
		if r.pct(50) {
			t = t.Clone()
		}
		x := t.Txn()
		x.Insert([]byte(k), -7)
		if v, ok := x.Get([]byte(k)); !ok || v != -7 {
			failf("Get(%q) in the transaction of a reader = %d,%v", k, v, ok)
		}
		x.Delete([]byte(k))
		if v, ok := x.Get([]byte(k)); ok {
			failf("Get(%q) in the transaction of a reader = %d,%v after Delete", k, v, ok)
		}
		n := len(p.all)
		if _, has := p.m[k]; has {
			n--
		}
		if got := x.CommitOnly().Len(); got != n {
			failf("Len of the transaction of a reader = %d want %d", got, n)
		}
	}
}

func runConc(c *testCase, st *stats) {
	o := &concObs{}
	probes := probesOf(c, 40)
	var fb failBox
	var stop atomic.Bool
	var wg sync.WaitGroup
	o.cur.Store(publish(&treeRec{t: newTree(), m: newModel()}))
	const readers = 3
	var started sync.WaitGroup
	for i := 0; i < readers; i++ {
		r := &rng{s: c.Perm + uint64(i)*131}
		wg.Add(1)
		started.Add(1)
		go fb.guard(&wg, func() {
			begun := sync.OnceFunc(started.Done)
			defer begun()
			held := o.cur.Load()
			for j := 0; ; j++ {
				if j >= 24 && stop.Load() {
					return
				}
				if !r.pct(40) {
					held = o.cur.Load()
				}
				readOnce(held, r, probes)
				o.reads.Add(1)
				begun()
			}
		})
	}
	started.Wait()
	var s *state
	var msg any
	func() {
		defer func() { msg = recover() }()
		s = runHistory(c, o, st, nil)
	}()
	stop.Store(true)
	wg.Wait()
	if m := fb.get(); m != "" {
		failf("%s", m)
	}
	if msg != nil {
		panic(msg)
	}
	st.queries = int(o.reads.Load())
	st.published = o.published
	r := &rng{s: c.Perm ^ 0xabcdef}
	for trial := 0; trial < 4; trial++ {
		concWatchTrial(s, r, probes, &fb)
		st.trials++
		if m := fb.get(); m != "" {
			failf("%s", m)
		}
	}
	concTxnTrial(s, r, probes, &fb)
	if m := fb.get(); m != "" {
		failf("%s", m)
	}
}

// concWatchTrial: several goroutines ask for watches affected by one write while
// the tracked transaction performing that write is running; after its commit all
// of them have to be closed.
func concWatchTrial(s *state, r *rng, probes []string, fb *failBox) {
	base := s.cur
	k := probes[r.n(len(probes))]
	if ks := base.m.keys(); len(ks) > 0 && r.pct(50) {
		k = ks[r.n(len(ks))]
	}
	_, had := base.m.m[k]
	// a clone of the tree shares its nodes but may not have any channel yet
	var chans [8]<-chan struct{}
	start := make(chan struct{})
	var wg sync.WaitGroup
	t := base.t
	for i := range chans {
		i := i
		kind := r.n(4)
		p := k[:r.n(len(k)+1)]
		wg.Add(1)
		go fb.guard(&wg, func() {
			<-start
			switch kind {
			case 0:
				chans[i] = t.Root().Iterator().SeekPrefixWatch([]byte(p))
			default:
				chans[i], _, _ = t.GetWatch([]byte(k))
			}
		})
	}
	var x *txn
	del := had && r.pct(50)
	pre := r.pct(30)
	if pre {
		x = t.Txn()
		x.TrackMutate(true)
	}
	wg.Add(1)
	go fb.guard(&wg, func() {
		<-start
		if !pre {
			x = t.Txn()
			x.TrackMutate(true)
		}
		if del {
			x.Delete([]byte(k))
		} else {
			x.Insert([]byte(k), 1<<30)
		}
	})
	close(start)
	wg.Wait()
	if fb.get() != "" {
		return
	}
	nt := x.Commit()
	for i, ch := range chans {
		if ch == nil {
			failf("concurrent watch request %d for %q returned nil", i, k)
		}
		if !closed(ch) {
			failf("concurrent watch request %d of %d for %q did not fire when the key changed", i, len(chans), k)
		}
	}
	m := base.m.fork()
	if del {
		m.del(k)
	} else {
		m.put(k, 1<<30)
	}
	s.cur = &treeRec{t: nt, m: m, id: -1, from: -1}
}

// concTxnTrial: transactions opened on one tree and clones of a transaction with
// uncommitted writes are mutated in parallel, each in its own goroutine.
func concTxnTrial(s *state, r *rng, probes []string, fb *failBox) {
	base := s.cur
	first := base.t.Txn()
	fm := base.m.fork()
	for i := 0; i < 4; i++ {
		k := probes[r.n(len(probes))]
		first.Insert([]byte(k), 2<<20+i)
		fm.put(k, 2<<20+i)
	}
	type job struct {
		x *txn
		m *model
		r *rng
	}
	var jobs []*job
	for i := 0; i < 2; i++ {
		jobs = append(jobs, &job{x: first.Clone(), m: fm.fork(), r: &rng{s: r.next()}})
	}
	jobs = append(jobs, &job{x: base.t.Txn(), m: base.m.fork(), r: &rng{s: r.next()}})
	jobs = append(jobs, &job{x: first, m: fm, r: &rng{s: r.next()}})
	var wg sync.WaitGroup
	for ji, j := range jobs {
		ji, j := ji, j
		wg.Add(1)
		go fb.guard(&wg, func() {
			for i := 0; i < 12; i++ {
				k := probes[j.r.n(len(probes))]
				if j.r.pct(60) {
					v := (ji+3)<<20 + i
					j.x.Insert([]byte(k), v)
					j.m.put(k, v)
				} else {
					j.x.Delete([]byte(k))
					j.m.del(k)
				}
			}
			nt := j.x.CommitOnly()
			expectKVs(fmt.Sprintf("parallel transaction %d", ji), fwdScan(nt.Root(), limitFor(j.m), func(it *adaptive.Iterator[int]) { it.SeekPrefix(nil) }), j.m.scan(""))
		})
	}
	wg.Wait()
	if fb.get() == "" {
		expectKVs("base tree of parallel transactions", fwdScan(base.t.Root(), limitFor(base.m), func(it *adaptive.Iterator[int]) { it.SeekPrefix(nil) }), base.m.scan(""))
	}
}
