package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"

	adaptive "github.com/absolutelightning/go-immutable-adaptive-radix"
)

type property struct {
	id         string
	run        func(c *testCase, st *stats)
	prof       profile
	rule       string
	nontrivial func(st *stats) bool
	quick      int
	thorough   int
	gen        func(r *rng, p *property) *testCase
}

// ---------------------------------------------------------------- C01 / C02

type mapObs struct {
	nopObs
	txn, tree bool // which results are judged
	n         int
}

func (m *mapObs) judged(x *txnRec) bool {
	if x == nil {
		return m.tree
	}
	return m.txn
}

func (m *mapObs) onInsert(s *state, x *txnRec, k string, old int, ok bool, wantOld int, wantOk bool) {
	if !m.judged(x) {
		return
	}
	if ok != wantOk || old != wantOld {
		failf("Insert(%q) returned (%d,%v) want (%d,%v)", k, old, ok, wantOld, wantOk)
	}
	if x != nil {
		expectGet("Txn.Get after Insert", x.x.Get, k, x.m)
	}
}

func (m *mapObs) onDelete(s *state, x *txnRec, k string, old int, ok bool, wantOld int, wantOk bool) {
	if !m.judged(x) {
		return
	}
	if ok != wantOk || old != wantOld {
		failf("Delete(%q) returned (%d,%v) want (%d,%v)", k, old, ok, wantOld, wantOk)
	}
	if x != nil {
		expectGet("Txn.Get after Delete", x.x.Get, k, x.m)
	}
}

func (m *mapObs) onDeletePrefix(s *state, x *txnRec, p string, ok bool, want int) {
	if !m.judged(x) || !m.txn {
		return
	}
	if ok != (want > 0) {
		failf("DeletePrefix(%q) returned %v but %d keys have that prefix", p, ok, want)
	}
}

func expectGet(what string, get func([]byte) (int, bool), k string, m *model) {
	v, ok := get(raw(k, len(m.m)))
	want, has := m.m[k]
	if ok != has || v != want {
		failf("%s: Get(%q) = %d,%v want %d,%v", what, k, v, ok, want, has)
	}
}

func checkMap(what string, t *tree, m *model, probes []string) {
	if t.Len() != len(m.m) {
		failf("%s: Len = %d want %d", what, t.Len(), len(m.m))
	}
	for k := range m.m {
		expectGet(what, t.Get, k, m)
	}
	for _, k := range probes {
		expectGet(what, t.Get, k, m)
	}
}

func (m *mapObs) onTree(s *state, r *treeRec) {
	if !m.tree {
		return
	}
	m.n++
	if m.n%5 == 0 || len(r.m.m) <= 8 {
		checkMap("after operation", r.t, r.m, nil)
	} else if r.t.Len() != len(r.m.m) {
		failf("Len = %d want %d", r.t.Len(), len(r.m.m))
	}
}

func (m *mapObs) onQuery(s *state, o op) {
	if m.tree {
		expectGet("Get", s.cur.t.Get, string(o.K), s.cur.m)
	}
	if m.txn && s.ctx != nil {
		m.txnReads(s, s.ctx, string(o.K))
	}
}

func (m *mapObs) txnReads(s *state, x *txnRec, k string) {
	expectGet("Txn.Get", x.x.Get, k, x.m)
	want := x.m.path(k)
	lk, lv, lok := x.x.LongestPrefix(raw(k, len(x.m.m)))
	if lok != (len(want) > 0) {
		failf("Txn.LongestPrefix(%q) = %q,%d,%v want matches %s", k, lk, lv, lok, fmtKVs(want))
	}
	if lok {
		if e := want[len(want)-1]; e.k != string(lk) || e.v != lv {
			failf("Txn.LongestPrefix(%q) = %q,%d want %q,%d", k, lk, lv, e.k, e.v)
		}
	}
	lim := limitFor(x.m)
	expectKVs("scan of Txn.Root", fwdScan(x.x.Root(), lim, func(it *adaptive.Iterator[int]) { it.SeekPrefix(nil) }), x.m.scan(""))
	expectKVs(fmt.Sprintf("prefix scan %q of Txn.Root", k), fwdScan(x.x.Root(), lim, func(it *adaptive.Iterator[int]) { it.SeekPrefix(raw(k, len(x.m.m))) }), x.m.scan(k))
	expectKVs("reverse scan of Txn.Root", revScan(x.x.Root(), lim, nil), reversed(x.m.scan("")))
	expectKVs(fmt.Sprintf("lower bound scan %q of Txn.Root", k), lbScan(x.x.Root(), lim, k), x.m.lowerBound(k))
	expectKVs(fmt.Sprintf("reverse lower bound scan %q of Txn.Root", k), rlbScan(x.x.Root(), lim, k), x.m.reverseLowerBound(k))
	ch, wv, wok := x.x.GetWatch(raw(k, len(x.m.m)))
	if v, has := x.m.m[k]; wok != has || wv != v || ch == nil {
		failf("Txn.GetWatch(%q) = %d,%v want %d,%v", k, wv, wok, v, has)
	}
	if g := x.x.GetTree(); g != nil {
		if g.Len() != len(x.m.m) {
			failf("Txn.GetTree().Len() = %d want %d", g.Len(), len(x.m.m))
		}
		expectGet("Txn.GetTree()", g.Get, k, x.m)
		var got []kv
		g.Walk(func(k []byte, v int) bool {
			got = append(got, kv{string(k), v})
			return len(got) >= lim
		})
		all := x.m.scan("")
		expectKVs("Walk of Txn.GetTree()", got, all)
		if len(all) > 0 {
			expectKVs("Minimum of Txn.GetTree()", leafEntry(g.Minimum()), all[:1])
			expectKVs("Maximum of Txn.GetTree()", leafEntry(g.Maximum()), all[len(all)-1:])
		} else if g.Minimum() != nil || g.Maximum() != nil {
			failf("Minimum or Maximum of the tree of an emptied transaction is not nil")
		}
	}
}

func (m *mapObs) onStep(s *state, o op) {
	if !m.txn {
		return
	}
	switch o.O {
	case opTins, opTdel, opTdlp:
		if s.ctx != nil {
			k := string(o.K)
			m.n++
			if m.n%3 == 0 || len(s.ctx.m.m) <= 8 {
				m.txnReads(s, s.ctx, k)
			}
		}
	case opCom, opCmo:
		if s.ctx != nil {
			m.fullCommitted("committed tree", s.cur)
		}
	case opAbt:
		m.fullCommitted("tree after an abandoned transaction", s.cur)
	}
}

func (m *mapObs) fullCommitted(what string, r *treeRec) {
	checkMap(what, r.t, r.m, nil)
	expectKVs(what+": scan", fwdScan(r.t.Root(), limitFor(r.m), func(it *adaptive.Iterator[int]) { it.SeekPrefix(nil) }), r.m.scan(""))
}

func (m *mapObs) onEnd(s *state) {
	probes := probesOf(s.c, 300)
	if m.tree {
		checkMap("final tree", s.cur.t, s.cur.m, probes)
	}
	if m.txn {
		if s.ctx != nil {
			for _, k := range probes {
				expectGet("open transaction", s.ctx.x.Get, k, s.ctx.m)
			}
			for i := 0; i < len(probes) && i < 6; i++ {
				m.txnReads(s, s.ctx, probes[i*len(probes)/6])
			}
			before := s.ctx.m
			nt := s.ctx.x.Commit()
			checkMap("finally committed tree", nt, before, probes)
		}
		for _, r := range s.trees {
			if r.id >= len(s.trees)-4 {
				m.fullCommitted("tree of the history", r)
			}
		}
	}
}

// ---------------------------------------------------------------- C03

type immObs struct {
	nopObs
	probes []string
	n      int
}

func (m *immObs) onTree(s *state, r *treeRec) {
	// Record what the tree answers at the moment it is returned.
	n := len(r.m.m)
	m.n++
	if s.isHot {
		r.aux = &immRec{d: lightDigest(r.t, []string{s.hot}, n), n: n, probes: []string{s.hot}}
		return
	}
	if len(s.trees) <= 40 || m.n%16 == 0 {
		if n <= 64 || m.n%8 == 0 {
			r.aux = &immRec{d: treeDigest(r.t, m.probes, n, 8, r.id), full: true, n: n}
		} else {
			r.aux = &immRec{d: lightDigest(r.t, m.probes, n), n: n}
		}
	}
}

type immRec struct {
	d    *digest
	full bool
	n    int

	probes []string // if not those of the case
}

var silence sync.Once

// printTree prints the tree to nowhere. From the first call on this process says
// nothing on standard output by the usual way.
func printTree(t *tree) {
	silence.Do(func() {
		if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
			os.Stdout = f
		}
	})
	t.DFSPrintTree()
}

func (m *immObs) verify(r *treeRec, why string) {
	a, _ := r.aux.(*immRec)
	if a == nil {
		return
	}
	var now *digest
	if a.full {
		now = treeDigest(r.t, m.probes, a.n, 8, r.id)
	} else {
		probes := m.probes
		if a.probes != nil {
			probes = a.probes
		}
		now = lightDigest(r.t, probes, a.n)
	}
	if d := a.d.diff(now); d != "" {
		failf("tree %d changed after it was returned (%s): %s", r.id, why, d)
	}
}

func (m *immObs) onStep(s *state, o op) {
	if o.O == opTcl {
		src, n := s.trees[s.cur.from], len(s.cur.m.m)
		if d := treeDigest(src.t, m.probes, n, 8, 0).diff(treeDigest(s.cur.t, m.probes, n, 8, 0)); d != "" {
			failf("a clone of tree %d answers differently: %s", src.id, strings.Replace(d, " now ", " but the clone says ", 1))
		}
	}
	// the source of the last operation is the likeliest victim
	if len(s.trees) > 60 && len(s.trees)%10 != 0 {
		return
	}
	switch o.O {
	case opIns, opDel, opDlp, opCom, opCmo:
		if f := s.cur.from; f >= 0 && f < len(s.trees) {
			if a, _ := s.trees[f].aux.(*immRec); a != nil && a.n <= 40 {
				m.verify(s.trees[f], "source of "+o.String())
			}
		}
	}
}

func (m *immObs) onEnd(s *state) {
	if s.c.Perm%16 == 0 && len(s.cur.m.m) <= 64 {
		printTree(s.cur.t)
	}
	for _, r := range s.trees {
		m.verify(r, "end of history")
	}
}

// ---------------------------------------------------------------- C04

type txnIndepObs struct {
	nopObs
	n int
}

func checkTxnContent(what string, x *txnRec) {
	got := fwdScan(x.x.Root(), limitFor(x.m), func(it *adaptive.Iterator[int]) { it.SeekPrefix(nil) })
	expectKVs(fmt.Sprintf("%s: content of transaction %d", what, x.id), got, x.m.scan(""))
	if g := x.x.GetTree(); g != nil && g.Len() != len(x.m.m) {
		failf("%s: transaction %d has Len %d want %d", what, x.id, g.Len(), len(x.m.m))
	}
}

func (m *txnIndepObs) all(s *state, what string) {
	for _, x := range s.txns {
		if x.open {
			checkTxnContent(what, x)
			for k := range x.m.m {
				expectGet(fmt.Sprintf("%s: transaction %d", what, x.id), x.x.Get, k, x.m)
			}
		}
	}
	for _, r := range s.trees {
		if len(s.trees) > 30 && r.id%(len(s.trees)/15) != 0 && r.id < len(s.trees)-3 {
			continue
		}
		got := fwdScan(r.t.Root(), limitFor(r.m), func(it *adaptive.Iterator[int]) { it.SeekPrefix(nil) })
		expectKVs(fmt.Sprintf("%s: content of tree %d", what, r.id), got, r.m.scan(""))
		checkMap(fmt.Sprintf("%s: tree %d", what, r.id), r.t, r.m, nil)
	}
}

func (m *txnIndepObs) onStep(s *state, o op) {
	switch o.O {
	case opTins, opTdel, opTdlp, opCom, opCmo, opCln, opBins, opBdel:
		m.n++
		total := 0
		for _, x := range s.txns {
			total += len(x.m.m)
		}
		if total < 60 || m.n%6 == 0 {
			m.all(s, "after "+o.String())
		}
	}
}

func (m *txnIndepObs) onEnd(s *state) {
	m.all(s, "end")
	// commit everything that is still open, then look at everything again
	for _, x := range s.txns {
		if x.open {
			s.ctx = x
			s.commit(x, x.id%2 == 0)
		}
	}
	m.all(s, "after final commits")
}

// ---------------------------------------------------------------- C30

// apartObs looks at the contents of everything and at all watches.
type apartObs struct{ txnIndepObs }

func (q *apartObs) onStep(s *state, o op) {
	q.txnIndepObs.onStep(s, o)
	s.w.sweep(s, o.String(), false)
}

func (q *apartObs) onEnd(s *state) {
	q.txnIndepObs.onEnd(s)
	s.w.sweep(s, "end", false)
	for i := range s.trees {
		if e := newTree(); e.Len() != 0 || len(fwdScan(e.Root(), 8, func(it *adaptive.Iterator[int]) { it.SeekPrefix(nil) })) != 0 {
			failf("a new tree is not empty")
		} else if ch, _, ok := e.GetWatch([]byte("k")); ok || closed(ch) || closed(e.Root().Iterator().SeekPrefixWatch(nil)) {
			failf("a watch on a new tree is already closed")
		}
		if i >= 2 {
			break
		}
	}
}

// ---------------------------------------------------------------- C05..C12

// scanObs runs one query function on the current tree.
type scanObs struct {
	nopObs
	one  func(s *state, root node, t *tree, x *txnRec, m *model, arg string)
	once func(s *state, t *tree, m *model) // argument-free part
	max  int
	slow bool // the query takes long on wide trees
	n    int
}

func (q *scanObs) onQuery(s *state, o op) {
	if o.O == opTq {
		if s.ctx != nil && q.one != nil {
			q.one(s, s.ctx.x.Root(), nil, s.ctx, s.ctx.m, string(o.K))
		}
		return
	}
	if q.one != nil {
		q.one(s, s.cur.t.Root(), s.cur.t, nil, s.cur.m, string(o.K))
	}
	if q.once != nil {
		q.once(s, s.cur.t, s.cur.m)
	}
}

func (q *scanObs) onTree(s *state, r *treeRec) {
	if q.once == nil {
		return
	}
	q.n++
	if len(r.m.m) <= 40 || q.n%7 == 0 {
		q.once(s, r.t, r.m)
	}
}

func (q *scanObs) onEnd(s *state) {
	if q.once != nil {
		q.once(s, s.cur.t, s.cur.m)
	}
	if q.one == nil {
		return
	}
	probes := probesOf(s.c, q.max)
	for i, k := range probes {
		if q.slow && len(s.cur.m.m) > 100 && i%6 != 0 {
			continue
		}
		q.one(s, s.cur.t.Root(), s.cur.t, nil, s.cur.m, k)
	}
	// stored keys and their neighbours that are not literally in the case
	ks := s.cur.m.keys()
	for i := 0; i < len(ks); i += 1 + len(ks)/12 {
		q.one(s, s.cur.t.Root(), s.cur.t, nil, s.cur.m, ks[i])
		if len(ks[i]) < 300 {
			q.one(s, s.cur.t.Root(), s.cur.t, nil, s.cur.m, ks[i]+"\xff")
		}
	}
	if len(s.trees) > 1 {
		r := s.trees[len(s.trees)/2]
		for i := 0; i < len(probes); i += 1 + len(probes)/6 {
			q.one(s, r.t.Root(), r.t, nil, r.m, probes[i])
		}
	}
	if s.ctx != nil {
		for i := 0; i < len(probes); i += 1 + len(probes)/6 {
			q.one(s, s.ctx.x.Root(), nil, s.ctx, s.ctx.m, probes[i])
		}
	}
}

func note(s *state, want []kv) {
	if len(want) > 0 {
		s.st.nonEmptyQueries++
	}
}

func c05one(s *state, root node, t *tree, x *txnRec, m *model, arg string) {
	want := m.scan(arg)
	note(s, want)
	lim := limitFor(m)
	it := root.Iterator()
	it.SeekPrefix(raw(arg, len(m.m)))
	expectKVs(fmt.Sprintf("iteration after SeekPrefix(%q)", arg), drainFwd(it, lim), want)
	for i := 0; i < 2; i++ {
		if k, v, ok := it.Next(); ok {
			failf("exhausted iterator (prefix %q) yielded %q=%d", arg, k, v)
		}
	}
	it = root.Iterator()
	it.SeekPrefixWatch(raw(arg, len(m.m)))
	expectKVs(fmt.Sprintf("iteration after SeekPrefixWatch(%q)", arg), drainFwd(it, lim), want)
}

func c05once(s *state, t *tree, m *model) {
	want := m.scan("")
	note(s, want)
	it := t.Root().Iterator()
	expectKVs("unseeked iteration", drainFwd(it, limitFor(m)), want)
	for i := 0; i < 2; i++ {
		if k, v, ok := it.Next(); ok {
			failf("exhausted unseeked iterator yielded %q=%d", k, v)
		}
	}
	for _, p := range [][]byte{nil, {}} {
		p := p
		expectKVs("iteration after SeekPrefix of the empty prefix", fwdScan(t.Root(), limitFor(m), func(it *adaptive.Iterator[int]) { it.SeekPrefix(p) }), want)
	}
}

func c06one(s *state, root node, t *tree, x *txnRec, m *model, arg string) {
	want := m.lowerBound(arg)
	note(s, want)
	it := root.LowerBoundIterator()
	lim := limitFor(m)
	drain := func() []kv {
		var got []kv
		for len(got) < lim {
			k, v, ok := it.Next()
			if !ok {
				break
			}
			got = append(got, kv{string(k), v})
		}
		return got
	}
	it.SeekLowerBound(raw(arg, len(m.m)))
	expectKVs(fmt.Sprintf("iteration after SeekLowerBound(%q)", arg), drain(), want)
	if k, v, ok := it.Next(); ok {
		failf("exhausted lower-bound iterator (bound %q) yielded %q=%d", arg, k, v)
	}
	// the same iterator, sought again after it was exhausted and when half used
	other := arg[:len(arg)/2]
	it.SeekLowerBound(raw(other, len(m.m)+1))
	again := m.lowerBound(other)
	for i := 0; i < len(again)/2; i++ {
		if k, v, ok := it.Next(); !ok || string(k) != again[i].k || v != again[i].v {
			failf("iteration after seeking again to %q (first %q), step %d: %q=%d,%v want %q=%d", other, arg, i, k, v, ok, again[i].k, again[i].v)
		}
	}
	it.SeekLowerBound(raw(arg, len(m.m)))
	expectKVs(fmt.Sprintf("iteration after SeekLowerBound(%q) on a partly used iterator", arg), drain(), want)
}

func c07one(s *state, root node, t *tree, x *txnRec, m *model, arg string) {
	// The oracle is the forward iteration of the same range by the same code.
	lim := limitFor(m)
	want := reversed(fwdScan(root, lim, func(it *adaptive.Iterator[int]) { it.SeekPrefix(raw(arg, len(m.m))) }))
	note(s, want)
	it := root.ReverseIterator()
	it.SeekPrefix(raw(arg, len(m.m)))
	var got []kv
	for len(got) < lim {
		k, v, ok := it.Previous()
		if !ok {
			break
		}
		got = append(got, kv{string(k), v})
	}
	expectKVs(fmt.Sprintf("reverse iteration after SeekPrefix(%q) against forward iteration", arg), got, want)
	if !sort.SliceIsSorted(got, func(i, j int) bool { return got[i].k > got[j].k }) {
		failf("reverse iteration after SeekPrefix(%q) is not descending: %s", arg, fmtKVs(got))
	}
	for i := 0; i < 2; i++ {
		if k, v, ok := it.Previous(); ok {
			failf("exhausted reverse iterator (prefix %q) yielded %q=%d", arg, k, v)
		}
	}
	it = root.ReverseIterator()
	it.SeekPrefixWatch(raw(arg, len(m.m)))
	got = nil
	for len(got) < lim {
		k, v, ok := it.Previous()
		if !ok {
			break
		}
		got = append(got, kv{string(k), v})
	}
	expectKVs(fmt.Sprintf("reverse iteration after SeekPrefixWatch(%q) against forward iteration", arg), got, want)
}

func c07once(s *state, t *tree, m *model) {
	lim := limitFor(m)
	want := reversed(fwdScan(t.Root(), lim, func(it *adaptive.Iterator[int]) { it.SeekPrefix(nil) }))
	note(s, want)
	it := t.Root().ReverseIterator()
	var got []kv
	for len(got) < lim {
		k, v, ok := it.Previous()
		if !ok {
			break
		}
		got = append(got, kv{string(k), v})
	}
	expectKVs("unseeked reverse iteration against forward iteration", got, want)
	for i := 0; i < 2; i++ {
		if k, v, ok := it.Previous(); ok {
			failf("exhausted unseeked reverse iterator yielded %q=%d", k, v)
		}
	}
}

func c08one(s *state, root node, t *tree, x *txnRec, m *model, arg string) {
	want := m.reverseLowerBound(arg)
	note(s, want)
	it := root.ReverseIterator()
	it.SeekReverseLowerBound(raw(arg, len(m.m)))
	var got []kv
	for lim := limitFor(m); len(got) < lim; {
		k, v, ok := it.Previous()
		if !ok {
			break
		}
		got = append(got, kv{string(k), v})
	}
	expectKVs(fmt.Sprintf("iteration after SeekReverseLowerBound(%q)", arg), got, want)
	if k, v, ok := it.Previous(); ok {
		failf("exhausted reverse lower-bound iterator (bound %q) yielded %q=%d", arg, k, v)
	}
}

func c09one(s *state, root node, t *tree, x *txnRec, m *model, arg string) {
	want := m.path(arg)
	note(s, want)
	lim := limitFor(m)
	it := root.PathIterator(raw(arg, len(m.m)))
	expectKVs(fmt.Sprintf("PathIterator(%q)", arg), drainPath(it, lim), want)
	if k, v, ok := it.Next(); ok {
		failf("exhausted path iterator (%q) yielded %q=%d", arg, k, v)
	}
	if t != nil {
		expectKVs(fmt.Sprintf("GetPathIterator(%q)", arg), drainPath(t.GetPathIterator(raw(arg, len(m.m))), lim), want)
	}
}

func c10one(s *state, root node, t *tree, x *txnRec, m *model, arg string) {
	want := m.path(arg)
	note(s, want)
	f := (*tree).LongestPrefix
	var k []byte
	var v int
	var ok bool
	who := "LongestPrefix"
	if x != nil {
		k, v, ok = x.x.LongestPrefix(raw(arg, len(m.m)))
		who = "Txn.LongestPrefix"
	} else {
		k, v, ok = f(t, raw(arg, len(m.m)))
	}
	if ok != (len(want) > 0) {
		failf("%s(%q) = %q,%d,%v but the stored prefixes are %s", who, arg, k, v, ok, fmtKVs(want))
	}
	if ok {
		if e := want[len(want)-1]; e.k != string(k) || e.v != v {
			failf("%s(%q) = %q,%d want %q,%d", who, arg, k, v, e.k, e.v)
		}
	}
}

func c11once(s *state, t *tree, m *model) {
	ks := m.keys()
	var wantMin, wantMax []kv
	if len(ks) > 0 {
		wantMin = []kv{{ks[0], m.m[ks[0]]}}
		wantMax = []kv{{ks[len(ks)-1], m.m[ks[len(ks)-1]]}}
	}
	note(s, wantMin)
	mn, mx := t.Minimum(), t.Maximum()
	if (mn != nil) != (len(ks) > 0) || (mx != nil) != (len(ks) > 0) {
		failf("Minimum/Maximum present = %v/%v on a tree of %d keys", mn != nil, mx != nil, len(ks))
	}
	expectKVs("Minimum", leafEntry(mn), wantMin)
	expectKVs("Maximum", leafEntry(mx), wantMax)
}

func c12once(s *state, t *tree, m *model) {
	want := m.scan("")
	note(s, want)
	stops := []int{len(want) + 1}
	for i := 1; i <= len(want); i += 1 + len(want)/5 {
		stops = append(stops, i)
	}
	for _, stop := range stops {
		var got []kv
		lim := limitFor(m)
		after := 0
		done := false
		t.Walk(func(k []byte, v int) bool {
			if done {
				after++
				if after > 1000 {
					return true
				}
				return true
			}
			got = append(got, kv{string(k), v})
			if len(got) == stop || len(got) >= lim {
				done = true
				return true
			}
			return false
		})
		w := want
		if stop <= len(w) {
			w = w[:stop]
		}
		expectKVs(fmt.Sprintf("Walk stopping at call %d", stop), got, w)
		if after > 0 {
			failf("Walk called the callback %d more times after it asked to stop at call %d", after, stop)
		}
	}
	// Callbacks that use the tree themselves: walk it, read it, derive other trees
	// from it and walk those.
	if at := 1 + s.val%(len(want)+1); s.val%4 == 0 && len(want) <= 200 {
		var got []kv
		lim := limitFor(m)
		t.Walk(func(k []byte, v int) bool {
			got = append(got, kv{string(k), v})
			if len(got) == at {
				key := string(k)
				inner := func(what string, t2 *tree, m2 *model) {
					var in []kv
					t2.Walk(func(k []byte, v int) bool {
						in = append(in, kv{string(k), v})
						return len(in) >= lim
					})
					expectKVs(what+" inside the callback of another", in, m2.scan(""))
				}
				inner("Walk", t, m)
				t2, _, _ := t.Insert([]byte(key+"w"), -7)
				m2 := m.fork()
				m2.put(key+"w", -7)
				inner("Walk of a derived tree", t2, m2)
				t2, _, _ = t2.Delete([]byte(key))
				m2.del(key)
				inner("Walk of a derived tree", t2, m2)
				nodes := 0
				t.DFS(func(node) { nodes++ })
			}
			return len(got) >= lim
		})
		expectKVs(fmt.Sprintf("Walk whose callback uses the tree at call %d", at), got, want)
	}
	checkDFS(s, t, m, t.Root(), t.DFS)
	// DFS from an inner node
	if ks := m.keys(); len(ks) > 1 {
		k := ks[len(ks)/2]
		it := t.Root().Iterator()
		if n := it.SeekPrefix([]byte(k[:(len(k)+1)/2])); n != nil {
			checkDFS(s, t, nil, n, func(fn adaptive.DfsFn[int]) { t.DFSNode(n, fn) })
		}
	}
}

func checkDFS(s *state, t *tree, m *model, start node, dfs func(adaptive.DfsFn[int])) {
	seen := map[node]int{}
	var order []node
	calls := 0
	dfs(func(n node) {
		calls++
		if calls > 1<<20 {
			failf("DFS does not terminate")
		}
		if n == nil {
			failf("DFS visited a nil node")
		}
		seen[n]++
		order = append(order, n)
	})
	if len(order) == 0 || order[0] != start {
		failf("DFS did not visit its starting node first")
	}
	for _, c := range seen {
		if c > 1 {
			failf("DFS visited a node %d times", c)
		}
	}
	if m == nil {
		return
	}
	// Every node that a seek can reach has to be among the visited ones.
	reach := func(p string) {
		it := start.Iterator()
		n := it.SeekPrefix([]byte(p))
		if n != nil && seen[n] == 0 {
			failf("DFS did not visit the node at prefix %q", p)
		}
	}
	ks := m.keys()
	for i := 0; i < len(ks); i += 1 + len(ks)/64 {
		reach(ks[i])
		for j := 0; j < len(ks[i]) && j < 24; j += 1 + len(ks[i])/8 {
			reach(ks[i][:j])
		}
	}
	// and no visited node may hold an entry the tree does not hold
	if len(order) <= 80 {
		for _, n := range order {
			for _, e := range fwdScan(n, limitFor(m), nil) {
				if v, ok := m.m[e.k]; !ok || v != e.v {
					failf("DFS visited a node containing %q=%d which is not in the tree", e.k, e.v)
				}
			}
		}
	}
}

// ---------------------------------------------------------------- C13

type dlpObs struct {
	nopObs
	since int // operations since the last prefix deletion, 0: none yet
}

func (d *dlpObs) onDeletePrefix(s *state, x *txnRec, p string, ok bool, want int) {
	if ok != (want > 0) {
		failf("DeletePrefix(%q) returned %v but %d keys have that prefix", p, ok, want)
	}
	d.since = 1
	if want > 0 {
		s.st.nonEmptyQueries++
	}
	if x != nil {
		d.checkTxn(s, x, fmt.Sprintf("after DeletePrefix(%q)", p))
	}
}

func (d *dlpObs) checkTxn(s *state, x *txnRec, what string) {
	checkTxnContent(what, x)
	for k := range x.m.m {
		expectGet(what, x.x.Get, k, x.m)
	}
}

func (d *dlpObs) onInsert(s *state, x *txnRec, k string, old int, ok bool, wantOld int, wantOk bool) {
	if d.since > 0 && (ok != wantOk || old != wantOld) {
		failf("Insert(%q) after a prefix deletion returned (%d,%v) want (%d,%v)", k, old, ok, wantOld, wantOk)
	}
}

func (d *dlpObs) onDelete(s *state, x *txnRec, k string, old int, ok bool, wantOld int, wantOk bool) {
	if d.since > 0 && (ok != wantOk || old != wantOld) {
		failf("Delete(%q) after a prefix deletion returned (%d,%v) want (%d,%v)", k, old, ok, wantOld, wantOk)
	}
}

func (d *dlpObs) onTree(s *state, r *treeRec) {
	if d.since == 0 {
		return
	}
	d.since++
	if len(r.m.m) > 60 && d.since > 3 && d.since%8 != 0 {
		return
	}
	d.full("after a prefix deletion", r, nil)
}

func (d *dlpObs) full(what string, r *treeRec, probes []string) {
	checkMap(what, r.t, r.m, probes)
	lim := limitFor(r.m)
	expectKVs(what+": scan", fwdScan(r.t.Root(), lim, func(it *adaptive.Iterator[int]) { it.SeekPrefix(nil) }), r.m.scan(""))
	expectKVs(what+": reverse scan", revScan(r.t.Root(), lim, nil), reversed(r.m.scan("")))
}

func (d *dlpObs) onStep(s *state, o op) {
	if d.since > 0 && s.ctx != nil && (o.O == opTins || o.O == opTdel) {
		d.checkTxn(s, s.ctx, "later in the transaction")
	}
}

func (d *dlpObs) onEnd(s *state) {
	if d.since == 0 {
		return
	}
	probes := probesOf(s.c, 120)
	d.full("at the end", s.cur, probes)
	for i := 0; i < len(probes); i += 1 + len(probes)/10 {
		p := probes[i]
		lim := limitFor(s.cur.m)
		root := s.cur.t.Root()
		expectKVs(fmt.Sprintf("lower bound %q", p), lbScan(root, lim, p), s.cur.m.lowerBound(p))
		expectKVs(fmt.Sprintf("prefix %q", p), fwdScan(root, lim, func(it *adaptive.Iterator[int]) { it.SeekPrefix([]byte(p)) }), s.cur.m.scan(p))
	}
}

// ---------------------------------------------------------------- C14..C16

// lateObs judges watches taken long after the notification.
type lateObs struct{ nopObs }

func (lateObs) onEnd(s *state) {
	for id := range s.trees {
		s.w.checkLate(s, id, s.w.stale[id], 8)
	}
}

type watchObs struct{ nopObs }

func (watchObs) onStep(s *state, o op) {
	// every operation other than a notification must leave all watches alone;
	// notifications were swept when they were issued
	s.w.sweep(s, o.String(), false)
	if (o.O == opCom || o.O == opNtf) && s.c.Perm%4 == 0 {
		s.w.checkOpen(s)
	}
}

func (watchObs) onEnd(s *state) {
	s.w.sweep(s, "end", false)
	s.w.checkOpen(s)
}

// ---------------------------------------------------------------- C20

type iterObs struct {
	nopObs
	its []*liveIter
}

type liveIter struct {
	what string
	next func() ([]byte, int, bool)
	want []kv
	pos  int
	end  bool
}

const numIterKinds = 9

// openIter creates an iterator of the given kind on a tree.
func openIter(t *tree, kind int, arg string) (string, func() ([]byte, int, bool)) {
	root := t.Root()
	a := []byte(arg)
	switch kind % numIterKinds {
	case 0:
		it := root.Iterator()
		it.SeekPrefix(nil)
		return "iterator", it.Next
	case 1:
		it := root.Iterator()
		it.SeekPrefix(a)
		return "prefix iterator", it.Next
	case 2:
		it := root.LowerBoundIterator()
		it.SeekLowerBound(a)
		return "lower-bound iterator", it.Next
	case 3:
		it := root.ReverseIterator()
		return "reverse iterator", it.Previous
	case 4:
		it := root.ReverseIterator()
		it.SeekReverseLowerBound(a)
		return "reverse lower-bound iterator", it.Previous
	case 5:
		it := t.GetPathIterator(a)
		return "path iterator", it.Next
	case 6:
		it := root.ReverseIterator()
		it.SeekPrefix(a)
		return "reverse prefix iterator", it.Previous
	case 7:
		it := root.Iterator()
		it.SeekPrefixWatch(a)
		return "watched prefix iterator", it.Next
	default:
		it := root.Iterator()
		return "unseeked iterator", it.Next
	}
}

func (q *iterObs) onQuery(s *state, o op) {
	switch o.O {
	case opIter:
		what, next := openIter(s.cur.t, o.N, string(o.K))
		// The oracle is the same iteration run without interruption on the
		// same tree, now.
		_, ref := openIter(s.cur.t, o.N, string(o.K))
		lim := limitFor(s.cur.m)
		var want []kv
		for len(want) < lim {
			k, v, ok := ref()
			if !ok {
				break
			}
			want = append(want, kv{string(k), v})
		}
		s.st.iters++
		if len(want) > 1 {
			s.st.nonEmptyQueries++
		}
		q.its = append(q.its, &liveIter{what: fmt.Sprintf("%s %d (%q)", what, len(q.its), []byte(o.K)), next: next, want: want})
	case opStep:
		if len(q.its) == 0 {
			return
		}
		it := q.its[o.N%len(q.its)]
		for i := 0; i < 1+o.A; i++ {
			q.advance(it)
			s.st.steps++
		}
	}
}

func (q *iterObs) onStep(s *state, o op) {
	switch o.O {
	case opIns, opDel, opDlp, opTins, opTdel, opTdlp, opBins, opBdel:
		for _, it := range q.its {
			if len(it.want) > 1 && it.pos < len(it.want) {
				s.st.openWrites++
				break
			}
		}
	}
}

func (q *iterObs) advance(it *liveIter) {
	k, v, ok := it.next()
	if it.pos >= len(it.want) {
		if ok {
			failf("%s yielded %q=%d past the %d entries it should yield", it.what, k, v, len(it.want))
		}
		it.end = true
		return
	}
	w := it.want[it.pos]
	if !ok || string(k) != w.k || v != w.v {
		failf("%s step %d: got %q=%d,%v want %q=%d", it.what, it.pos, k, v, ok, w.k, w.v)
	}
	it.pos++
}

func (q *iterObs) onEnd(s *state) {
	// drain all, round robin
	for live := true; live; {
		live = false
		for _, it := range q.its {
			if !it.end {
				q.advance(it)
				live = true
			}
		}
	}
}

// ---------------------------------------------------------------- registry

func runWith(mk func(c *testCase) obs, prep func(*state)) func(c *testCase, st *stats) {
	return func(c *testCase, st *stats) { runHistory(c, mk(c), st, prep) }
}

func scanProp(one func(s *state, root node, t *tree, x *txnRec, m *model, arg string), once func(s *state, t *tree, m *model)) func(c *testCase, st *stats) {
	return runWith(func(c *testCase) obs { return &scanObs{one: one, once: once, max: 40} }, nil)
}

var scanRule = "the history performed at least 3 inserts and at least one judged query or scan had a non-empty expected answer; distinct by the hash of the whole case"

func scanNontrivial(st *stats) bool { return st.inserts >= 3 && st.nonEmptyQueries > 0 }

func allProps() []*property {
	return []*property{
		{id: "C01", quick: 500000, thorough: 7500000, prof: profTree,
			run:        runWith(func(*testCase) obs { return &mapObs{tree: true} }, nil),
			rule:       "the history contained at least 3 inserts and at least one update, delete of a present key or delete of an absent key; distinct by the hash of the whole case",
			nontrivial: func(st *stats) bool { return st.inserts >= 3 && st.updates+st.deletes+st.misses > 0 }},
		{id: "C02", quick: 250000, thorough: 3750000, prof: profTxn,
			run:        runWith(func(*testCase) obs { return &mapObs{txn: true} }, nil),
			rule:       "at least 3 successful writes happened inside transactions and at least one transaction was committed or abandoned; distinct by the hash of the whole case",
			nontrivial: func(st *stats) bool { return st.txWrites >= 3 && st.commits+st.aborts > 0 }},
		{id: "C03", quick: 24000, thorough: 360000, prof: profFork,
			run:        runWith(func(c *testCase) obs { return &immObs{probes: probesOf(c, 40)} }, nil),
			rule:       "at least 4 trees were returned and at least one of them was written to or had a transaction opened on it after another tree or transaction had already been derived from it; distinct by the hash of the whole case",
			nontrivial: func(st *stats) bool { return st.trees >= 4 && st.rewrites > 0 }},
		{id: "C04", quick: 200000, thorough: 3000000, prof: profClone,
			run:        runWith(func(*testCase) obs { return &txnIndepObs{} }, nil),
			rule:       "at least 3 successful transactional writes, at least one of them in a transaction that is a clone, had been cloned or had already committed; distinct by the hash of the whole case",
			nontrivial: func(st *stats) bool { return st.txWrites >= 3 && st.sharedWrites > 0 }},
		{id: "C05", quick: 180000, thorough: 2700000, prof: profScan, run: scanProp(c05one, c05once), rule: scanRule, nontrivial: scanNontrivial},
		{id: "C06", quick: 240000, thorough: 3600000, prof: profScan, run: scanProp(c06one, nil), rule: scanRule, nontrivial: scanNontrivial},
		{id: "C07", quick: 180000, thorough: 2700000, prof: profScan, run: scanProp(c07one, c07once), rule: scanRule, nontrivial: scanNontrivial},
		{id: "C08", quick: 240000, thorough: 3600000, prof: profScan, run: scanProp(c08one, nil), rule: scanRule, nontrivial: scanNontrivial},
		{id: "C09", quick: 50000, thorough: 750000, prof: profPath, run: runWith(func(*testCase) obs { return &scanObs{one: c09one, max: 40, slow: true} }, nil), rule: scanRule, nontrivial: scanNontrivial},
		{id: "C10", quick: 400000, thorough: 6000000, prof: profScan, run: scanProp(c10one, nil), rule: scanRule, nontrivial: scanNontrivial},
		{id: "C11", quick: 400000, thorough: 6000000, prof: profScan, run: scanProp(nil, c11once), rule: scanRule, nontrivial: scanNontrivial},
		{id: "C12", quick: 80000, thorough: 1200000, prof: profScan, run: scanProp(nil, c12once), rule: scanRule, nontrivial: scanNontrivial},
		{id: "C13", quick: 240000, thorough: 3600000, prof: profDlp,
			run:        runWith(func(*testCase) obs { return &dlpObs{} }, nil),
			rule:       "at least one DeletePrefix removed at least one key; distinct by the hash of the whole case",
			nontrivial: func(st *stats) bool { return st.dlps > 0 && st.nonEmptyQueries > 0 }},
		{id: "C14", quick: 600000, thorough: 9000000, prof: profWatchKey, gen: genWatch,
			run:        runWith(func(*testCase) obs { return watchObs{} }, func(s *state) { s.w = newWatchState(true, false) }),
			rule:       "at least one registered key watch was required to fire by a notified transaction; distinct by the hash of the whole case",
			nontrivial: func(st *stats) bool { return st.mustFired > 0 }},
		{id: "C15", quick: 600000, thorough: 9000000, prof: profWatchPrefix, gen: genWatch,
			run:        runWith(func(*testCase) obs { return watchObs{} }, func(s *state) { s.w = newWatchState(true, false) }),
			rule:       "at least one registered prefix watch was required to fire by a notified transaction; distinct by the hash of the whole case",
			nontrivial: func(st *stats) bool { return st.mustFired > 0 }},
		{id: "C16", quick: 600000, thorough: 9000000, prof: profWatchAll, gen: genWatch,
			run:        runWith(func(*testCase) obs { return watchObs{} }, func(s *state) { s.w = newWatchState(false, true) }),
			rule:       "at least one watch was registered and at least 2 successful transactional writes happened; distinct by the hash of the whole case",
			nontrivial: func(st *stats) bool { return st.watches > 0 && st.txWrites >= 2 }},
		{id: "C21", quick: 400000, thorough: 6000000, prof: profWatchChain, gen: genWatch,
			run: runWith(func(*testCase) obs { return watchObs{} }, func(s *state) {
				s.w = newWatchState(true, false)
				s.w.chain = true
			}),
			rule:       "at least one watch was required to fire by a transaction opened on a later tree than the one it was taken from; distinct by the hash of the whole case",
			nontrivial: func(st *stats) bool { return st.laterFired > 0 }},
		{id: "C22", quick: 100000, thorough: 1500000, prof: profValues, run: runValues,
			rule:       "at least 3 inserts happened and at least one stored value was the zero value of its type; distinct by the hash of the whole case",
			nontrivial: func(st *stats) bool { return st.inserts >= 3 && st.zeroValues > 0 }},
		{id: "C23", quick: 150000, thorough: 2250000, prof: profShare,
			run:        runWith(func(*testCase) obs { return &shareObs{} }, nil),
			rule:       "at least one judged update started from a tree with more nodes than twice the number of new nodes it was allowed; distinct by the hash of the whole case",
			nontrivial: func(st *stats) bool { return st.nonEmptyQueries > 0 }},
		{id: "C24", quick: 120000, thorough: 1800000, prof: profScan, run: scanProp(nil, c24once),
			rule:       "at least one judged tree had an inner node other than the root with two or more entries below it; distinct by the hash of the whole case",
			nontrivial: func(st *stats) bool { return st.nonEmptyQueries > 0 }},
		{id: "C25", quick: 400000, thorough: 6000000, prof: profWatchLocal, gen: genWatch,
			run: runWith(func(*testCase) obs { return watchObs{} }, func(s *state) {
				s.w = newWatchState(false, false)
				s.w.local = true
			}),
			rule:       "at least one notified transaction wrote only keys remote from an open watch on a missing key or a prefix; distinct by the hash of the whole case",
			nontrivial: func(st *stats) bool { return st.remote > 0 }},
		{id: "C27", quick: 400000, thorough: 6000000, prof: profWatchOwn, gen: genWatch,
			run: runWith(func(*testCase) obs { return watchObs{} }, func(s *state) {
				s.w = newWatchState(false, false)
				s.w.own = true
			}),
			rule:       "at least one watch taken inside a transaction was required to fire by a later write of the same transaction; distinct by the hash of the whole case",
			nontrivial: func(st *stats) bool { return st.ownFired > 0 }},
		{id: "C28", quick: 400000, thorough: 6000000, prof: profWatchSame, gen: genWatch,
			run: runWith(func(*testCase) obs { return watchObs{} }, func(s *state) {
				s.w = newWatchState(true, false)
				s.w.same = true
			}),
			rule:       "at least one watch was required to fire by a transaction opened on another tree than the one it was taken from, only operations without effect lying between them; distinct by the hash of the whole case",
			nontrivial: func(st *stats) bool { return st.laterFired > 0 }},
		{id: "C26", quick: 60000, thorough: 900000, prof: profReclaim, run: runReclaim,
			rule:       "at least 3 values were stored in trees that were let go, and the trees still held had at least one; distinct by the hash of the whole case",
			nontrivial: func(st *stats) bool { return st.published >= 3 && st.maxKeys > 0 }},
		{id: "C17", quick: 40000, thorough: 600000, prof: profAlias, run: runAlias,
			rule:       "the history performed at least 3 inserts and the second run passed every key in a buffer of 0 to 64 spare bytes that was overwritten afterwards; distinct by the hash of the whole case",
			nontrivial: func(st *stats) bool { return st.inserts >= 3 }},
		{id: "C29", quick: 200000, thorough: 3000000, prof: profRetain,
			run:        runWith(func(c *testCase) obs { return &retainObs{probes: probesOf(c, 16)} }, nil),
			rule:       "at least 3 inserts happened and at least one round of queries handed out more than 8 keys, which were all held to the end; distinct by the hash of the whole case",
			nontrivial: func(st *stats) bool { return st.inserts >= 3 && st.nonEmptyQueries > 0 }},
		{id: "C31", quick: 150000, thorough: 2500000, prof: profWatchChain, gen: genWatch,
			run: runWith(func(*testCase) obs { return lateObs{} }, func(s *state) {
				s.w = newWatchState(false, false)
				s.w.late = true
			}),
			rule:       "at least one watch on a changed key was taken from an outdated tree after the notification, and at least one change was notified two or more commits after such a tree; distinct by the hash of the whole case",
			nontrivial: func(st *stats) bool { return st.late > 0 && st.lateLater > 0 }},
		{id: "C30", quick: 100000, thorough: 1500000, prof: profApart,
			run: runWith(func(*testCase) obs { return &apartObs{} }, func(s *state) {
				s.w = newWatchState(true, true)
				s.w.apart = true
			}),
			rule:       "at least two unrelated trees were built up and a transaction of one notified while a watch on the other was open; distinct by the hash of the whole case",
			nontrivial: func(st *stats) bool { return st.roots > 0 && st.apart > 0 }},
		{id: "C18", quick: 7000, thorough: 105000, prof: profConc, run: runConc,
			rule:       "at least 3 trees were published between the first and the last read of each of the three readers and at least one concurrent watch trial was judged; distinct by the hash of the whole case",
			nontrivial: func(st *stats) bool { return st.published >= 3 && st.trials > 0 }},
		{id: "C19", quick: 20000, thorough: 300000, prof: profHist, gen: genHistIndep, run: runHistoryIndep,
			rule:       "the compared trees held at least 3 keys (the second tree is always built anew, by a generated order, grouping and detour); distinct by the hash of the whole case",
			nontrivial: func(st *stats) bool { return st.maxKeys >= 3 }},
		{id: "C20", quick: 500000, thorough: 7500000, prof: profIter,
			run:        runWith(func(*testCase) obs { return &iterObs{} }, nil),
			rule:       "at least one operation wrote to a tree or transaction while an iterator of two or more entries was open and not exhausted; distinct by the hash of the whole case",
			nontrivial: func(st *stats) bool { return st.openWrites > 0 }},
	}
}

func propByID(id string) *property {
	for _, p := range allProps() {
		if strings.EqualFold(p.id, id) {
			return p
		}
	}
	return nil
}
