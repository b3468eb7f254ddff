package main

import (
	"fmt"
	"runtime/debug"
	"strings"
)

// violation is what a property check raises.
type violation struct{ msg string }

func failf(format string, a ...any) {
	panic(violation{fmt.Sprintf(format, a...)})
}

type treeRec struct {
	class int // id of the first tree it was derived from by operations without effect
	t     *tree
	m     *model
	id    int
	from  int
	root  int  // id of the empty tree it goes back to
	aux   any  // property-specific data recorded when the tree was returned
	used  bool // something was derived from it
}

type txnRec struct {
	x     *txn
	m     *model
	base  int  // id of the tree it was opened on (or last committed to)
	dirty bool // writes since the last commit
	open  bool
	track bool
	id    int
	root  int // id of the empty tree it goes back to

	shared bool // cloned, a clone, or has committed
	st     *stats

	// watch bookkeeping (per phase = since begin or last commit)
	trackedFromStart bool
	startM           *model
	first            map[string]bool // keys whose first touch in the phase was tracked
	written          map[string]bool // keys written in the phase, tracked or not
	pending          []phase
	events           int            // tracked successful writes since last notify
	oldVals          map[int]string // values (with their key) overwritten or deleted while tracked, since last notify
	writes           int
	watched          bool // a watch was taken in the transaction; its writes are logged from then on (C27)
	log              []txWrite
}

// txWrite is a write with an effect in a transaction.
type txWrite struct {
	key     string
	had     bool // the key was present
	tracked bool
}

type phase struct {
	base int
	to   int  // id of the committed tree
	full bool // every write was tracked
	must map[string]bool
	// for C25: what was there before and which keys were written
	start   *model
	written map[string]bool
}

// obs receives what happened; a property overrides what it judges.
type obs interface {
	// insert / delete results; x is nil for tree-level operations.
	onInsert(s *state, x *txnRec, key string, old int, ok bool, wantOld int, wantOk bool)
	onDelete(s *state, x *txnRec, key string, old int, ok bool, wantOld int, wantOk bool)
	onDeletePrefix(s *state, x *txnRec, prefix string, ok bool, want int)
	// a tree was returned (after insert, delete, commit, clone ...)
	onTree(s *state, r *treeRec)
	// after each executed operation
	onStep(s *state, o op)
	onQuery(s *state, o op)
	onEnd(s *state)
}

type nopObs struct{}

func (nopObs) onInsert(*state, *txnRec, string, int, bool, int, bool) {}
func (nopObs) onDelete(*state, *txnRec, string, int, bool, int, bool) {}
func (nopObs) onDeletePrefix(*state, *txnRec, string, bool, int)      {}
func (nopObs) onTree(*state, *treeRec)                                {}
func (nopObs) onStep(*state, op)                                      {}
func (nopObs) onQuery(*state, op)                                     {}
func (nopObs) onEnd(*state)                                           {}

type state struct {
	c          *testCase
	trees      []*treeRec
	cur        *treeRec
	txns       []*txnRec
	ctx        *txnRec // current transaction
	committing *txnRec // set while a commit reports its tree
	val        int     // next unique value
	o          obs
	probes     []string
	hot        string // key of the running opHot
	isHot      bool
	keep       int // maximum number of retained trees

	// key passing hook (C17)
	passKey func(k string) ([]byte, func())

	// statistics for the non-triviality rules
	st stats

	// watch machinery, enabled when w != nil
	w *watchState
}

type stats struct {
	inserts, updates, deletes, misses, dlps, commits, notifies, aborts, clones, forks int
	txWrites, queries, watches, iters, steps, maxKeys                                 int
	mustFired, preciseChecks, ownFired                                                int
	nonEmptyQueries                                                                   int
	trees, rewrites                                                                   int // trees returned; writes to and transactions on trees used before
	sharedWrites                                                                      int // writes in transactions that were cloned, are clones or have committed
	openWrites                                                                        int // writes while an unfinished iterator of two or more entries was open
	laterFired                                                                        int // watches required to fire by a later transaction than the first
	remote                                                                            int // notifications with changes all of which were remote from a watch (C25)
	zeroValues                                                                        int // zero values stored (C22)
	late, lateLater                                                                   int // watches taken after the notification; those on trees before the base (C31)
	roots, apart                                                                      int // further empty trees; notifications with open watches on unrelated trees (C30)
	published, trials                                                                 int
}

func newState(c *testCase, o obs) *state {
	s := &state{c: c, o: o, keep: 1 << 30, val: 1}
	t := newTree()
	s.addTree(t, newModel(), -1)
	return s
}

func (s *state) addTree(t *tree, m *model, from int) *treeRec {
	if t == nil {
		failf("operation returned a nil tree")
	}
	r := &treeRec{t: t, m: m, id: len(s.trees), from: from, class: len(s.trees), root: len(s.trees)}
	switch {
	case s.committing != nil:
		r.root = s.committing.root
	case from >= 0:
		r.root = s.trees[from].root
	}
	s.trees = append(s.trees, r)
	s.st.trees++
	s.cur = r
	if len(m.m) > s.st.maxKeys {
		s.st.maxKeys = len(m.m)
	}
	if s.w != nil {
		s.w.onTree(s, r)
	}
	s.o.onTree(s, r)
	return r
}

// key is the argument passed for key k. The empty key is passed as a nil slice
// about half of the time.
func (s *state) key(k string) ([]byte, func()) {
	if s.passKey != nil {
		return s.passKey(k)
	}
	return raw(k, s.val), nil
}

// raw is k as a slice, a nil one for the empty string when n is odd.
func raw(k string, n int) []byte {
	if k == "" && n&1 == 1 {
		return nil
	}
	return []byte(k)
}

func fin(f func()) {
	if f != nil {
		f()
	}
}

// use notes that a tree or transaction is about to be derived from the current tree.
func (s *state) use() {
	if s.cur.used {
		s.st.rewrites++
	}
	s.cur.used = true
}

func (s *state) treeInsert(k string) {
	s.use()
	v := s.val
	s.val++
	old, had := s.cur.m.m[k]
	b, done := s.key(k)
	nt, gotOld, ok := s.cur.t.Insert(b, v)
	fin(done)
	m := s.cur.m.fork()
	m.put(k, v)
	s.st.inserts++
	if had {
		s.st.updates++
	}
	s.o.onInsert(s, nil, k, gotOld, ok, old, had)
	s.addTree(nt, m, s.cur.id)
}

func (s *state) treeDelete(k string) {
	s.use()
	old, had := s.cur.m.m[k]
	b, done := s.key(k)
	nt, gotOld, ok := s.cur.t.Delete(b)
	fin(done)
	m := s.cur.m.fork()
	m.del(k)
	if had {
		s.st.deletes++
	} else {
		s.st.misses++
	}
	s.o.onDelete(s, nil, k, gotOld, ok, old, had)
	src := s.cur
	r := s.addTree(nt, m, src.id)
	if !had {
		r.class = src.class
	}
}

func (s *state) treeDeletePrefix(p string) {
	s.use()
	b, done := s.key(p)
	nt, ok := s.cur.t.DeletePrefix(b)
	fin(done)
	m := s.cur.m.fork()
	gone := m.delPrefix(p)
	s.st.dlps++
	s.o.onDeletePrefix(s, nil, p, ok, len(gone))
	src := s.cur
	r := s.addTree(nt, m, src.id)
	if len(gone) == 0 {
		r.class = src.class
	}
}

func (s *state) begin(track bool) {
	s.use()
	x := &txnRec{st: &s.st, x: s.cur.t.Txn(), m: s.cur.m.fork(), base: s.cur.id, open: true, id: len(s.txns), root: s.cur.root}
	x.track = track
	if track {
		x.x.TrackMutate(true)
	}
	x.newPhase()
	s.txns = append(s.txns, x)
	s.ctx = x
}

func (x *txnRec) newPhase() {
	x.trackedFromStart = true
	x.startM = x.m.fork()
	x.first = map[string]bool{}
	x.written = map[string]bool{}
}

// touched records a successful write of key k in transaction x.
func (x *txnRec) touched(k string, oldVal int, had bool) {
	x.dirty = true
	x.writes++
	x.written[k] = true
	if x.watched {
		x.log = append(x.log, txWrite{k, had, x.track})
	}
	if x.shared {
		x.st.sharedWrites++
	}
	if !x.track {
		x.trackedFromStart = false
		return
	}
	x.events++
	if x.oldVals == nil {
		x.oldVals = map[int]string{}
	}
	if had {
		x.oldVals[oldVal] = k
	}
	if x.trackedFromStart {
		x.first[k] = true
	}
}

// mustFire is the set of keys whose watches on the phase's base tree have to fire.
func (x *txnRec) mustFire() map[string]bool {
	must := map[string]bool{}
	for k := range x.first {
		if _, had := x.startM.m[k]; had {
			must[k] = true
			continue
		}
		if _, has := x.m.m[k]; has {
			must[k] = true
		}
	}
	return must
}

func (s *state) txInsert(x *txnRec, k string) {
	v := s.val
	s.val++
	old, had := x.m.m[k]
	b, done := s.key(k)
	gotOld, ok := x.x.Insert(b, v)
	fin(done)
	x.m.put(k, v)
	x.touched(k, old, had)
	s.st.inserts++
	s.st.txWrites++
	if had {
		s.st.updates++
	}
	s.o.onInsert(s, x, k, gotOld, ok, old, had)
}

func (s *state) txDelete(x *txnRec, k string) {
	old, had := x.m.m[k]
	b, done := s.key(k)
	gotOld, ok := x.x.Delete(b)
	fin(done)
	if had {
		x.m.del(k)
		x.touched(k, old, true)
		s.st.deletes++
		s.st.txWrites++
	} else {
		s.st.misses++
	}
	s.o.onDelete(s, x, k, gotOld, ok, old, had)
}

func (s *state) txDeletePrefix(x *txnRec, p string) {
	b, done := s.key(p)
	ok := x.x.DeletePrefix(b)
	fin(done)
	vals := map[string]int{}
	for k, v := range x.m.m {
		if strings.HasPrefix(k, p) {
			vals[k] = v
		}
	}
	gone := x.m.delPrefix(p)
	for _, k := range gone {
		x.touched(k, vals[k], true)
	}
	s.st.dlps++
	if len(gone) > 0 {
		s.st.txWrites++
	}
	s.o.onDeletePrefix(s, x, p, ok, len(gone))
}

func (s *state) commit(x *txnRec, only bool) {
	var nt *tree
	x.pending = append(x.pending, phase{base: x.base, to: len(s.trees), full: x.trackedFromStart, must: x.mustFire(), start: x.startM, written: x.written})
	if only {
		nt = x.x.CommitOnly()
	} else {
		nt = x.x.Commit()
		if x.track {
			s.notified(x)
		}
	}
	s.st.commits++
	s.committing = x
	r := s.addTree(nt, x.m.fork(), x.base)
	s.committing = nil
	if x.base >= 0 && len(x.written) == 0 {
		r.class = s.trees[x.base].class
	}
	if s.w != nil {
		s.w.onCommit(s, x, r)
	}
	x.base = r.id
	x.dirty = false
	x.shared = true
	x.newPhase()
}

// notified is called after the transaction's notifications have been issued.
func (s *state) notified(x *txnRec) {
	s.st.notifies++
	if s.w != nil {
		s.w.onNotify(s, x)
	}
	x.pending = nil
	x.events = 0
	x.oldVals = nil
}

// churn commits a transaction that inserts and deletes k n times and restores it
// in the end, so that the tree has a long history but the same contents.
func (s *state) churn(k string, n int) {
	prev := s.ctx
	s.begin(false)
	x := s.ctx
	v, had := x.m.m[k]
	b, done := s.key(k)
	for i := 0; i < n; i++ {
		x.x.Insert(b, -1)
		x.x.Delete(b)
	}
	if had {
		x.x.Insert(b, v)
	}
	fin(done)
	x.touched(k, v, had)
	s.commit(x, false)
	x.open = false
	s.ctx = prev
}

// hot writes the same key over and over: in one transaction, at the tree level, in
// one transaction that commits each time, or inserting and deleting at the tree level.
func (s *state) hotKey(o op) {
	k := string(o.K)
	prev := s.ctx
	s.hot = k
	s.isHot = true
	switch o.A % 4 {
	case 0:
		s.begin(o.X == 1)
		for i := 0; i < o.N; i++ {
			s.txInsert(s.ctx, k)
		}
		s.commit(s.ctx, false)
		s.ctx.open = false
	case 1:
		for i := 0; i < o.N; i++ {
			s.treeInsert(k)
		}
	case 2:
		s.begin(o.X == 1)
		x := s.ctx
		for i := 0; i < o.N; i++ {
			if s.w != nil {
				kind := opWatch
				if s.w.own {
					kind = opTw
				}
				s.w.register(s, op{O: kind, K: o.K})
			}
			s.txInsert(x, k)
			s.commit(x, false)
		}
		x.open = false
	default:
		for i := 0; i < o.N; i++ {
			s.treeInsert(k)
			s.treeDelete(k)
		}
	}
	s.isHot = false
	s.ctx = prev
}

func (s *state) step(o op) {
	switch o.O {
	case opIns:
		s.treeInsert(string(o.K))
	case opDel:
		s.treeDelete(string(o.K))
	case opDlp:
		s.treeDeletePrefix(string(o.K))
	case opBins, opBdel:
		if o.Q != famFan && (o.X != 1 || s.ctx == nil) {
			// large: always in a transaction of its own
			prev := s.ctx
			s.begin(false)
			in := o
			in.X = 1
			s.step(in)
			s.commit(s.ctx, false)
			s.ctx.open = false
			s.ctx = prev
			return
		}
		for _, k := range o.bulkKeys() {
			switch {
			case o.X == 1 && s.ctx != nil && o.O == opBins:
				s.txInsert(s.ctx, k)
			case o.X == 1 && s.ctx != nil:
				s.txDelete(s.ctx, k)
			case o.O == opBins:
				s.treeInsert(k)
			default:
				s.treeDelete(k)
			}
		}
	case opChurn:
		s.churn(string(o.K), o.N)
	case opHot:
		s.hotKey(o)
	case opBeg:
		s.begin(o.N == 1)
	case opTins:
		if s.ctx != nil {
			s.txInsert(s.ctx, string(o.K))
		}
	case opTdel:
		if s.ctx != nil {
			s.txDelete(s.ctx, string(o.K))
		}
	case opTdlp:
		if s.ctx != nil {
			s.txDeletePrefix(s.ctx, string(o.K))
		}
	case opTrk:
		if s.ctx != nil {
			s.ctx.track = o.N == 1
			s.ctx.x.TrackMutate(s.ctx.track)
		}
	case opCom:
		if s.ctx != nil {
			s.commit(s.ctx, false)
		}
	case opCmo:
		if s.ctx != nil {
			s.commit(s.ctx, true)
		}
	case opNtf:
		if s.ctx != nil && !s.ctx.dirty {
			s.ctx.x.Notify()
			if s.ctx.track {
				s.notified(s.ctx)
			}
		}
	case opAbt:
		if s.ctx != nil {
			s.ctx.open = false
			s.st.aborts++
			s.ctx = nil
			for _, x := range s.txns {
				if x.open {
					s.ctx = x
				}
			}
		}
	case opCln:
		if s.ctx != nil {
			s.ctx.shared = true
			x := &txnRec{st: &s.st, shared: true, x: s.ctx.x.Clone(), m: s.ctx.m.fork(), base: s.ctx.base, open: true, id: len(s.txns), dirty: s.ctx.dirty, root: s.ctx.root}
			x.newPhase()
			x.base = -1 // not opened on any returned tree
			s.txns = append(s.txns, x)
			s.ctx = x
			s.st.clones++
		}
	case opSwt:
		var open []*txnRec
		for _, x := range s.txns {
			if x.open {
				open = append(open, x)
			}
		}
		if len(open) > 0 {
			s.ctx = open[o.N%len(open)]
		}
	case opFrk:
		s.cur = s.trees[len(s.trees)-1-o.N%len(s.trees)]
		if o.N%len(s.trees) != 0 {
			s.st.forks++
		}
	case opTcl:
		src := s.cur
		s.addTree(src.t.Clone(), src.m, src.id).class = src.class
	case opNew:
		s.addTree(newTree(), newModel(), -1)
		s.st.roots++
	case opQuery, opTq, opIter, opStep:
		s.st.queries++
		s.o.onQuery(s, o)
	case opWatch, opWpre, opTw, opTwp:
		if s.w != nil {
			s.w.register(s, o)
		}
	default:
		panic("unknown op " + o.O)
	}
}

// runCase executes the case under a property's observer and returns the
// violation message ("" when the property held) together with the statistics.
func runCase(p *property, c *testCase) (msg string, st stats) {
	defer func() {
		if r := recover(); r != nil {
			if v, ok := r.(violation); ok {
				msg = v.msg
				return
			}
			stack := string(debug.Stack())
			if i := strings.Index(stack, "runtime/panic.go"); i >= 0 {
				stack = stack[i:]
			}
			if len(stack) > 2500 {
				stack = stack[:2500]
			}
			msg = fmt.Sprintf("panic: %v\n%s", r, stack)
		}
	}()
	p.run(c, &st)
	return
}

// runHistory drives c.Ops through a fresh state with the observer.
func runHistory(c *testCase, o obs, st *stats, prep func(*state)) *state {
	s := &state{c: c, o: o, keep: 1 << 30, val: 1}
	if prep != nil {
		prep(s)
	}
	defer func() { *st = s.st }()
	s.addTree(newTree(), newModel(), -1)
	for i, o := range c.Ops {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if v, ok := r.(violation); ok {
						panic(violation{fmt.Sprintf("op %d %s: %s", i, o, v.msg)})
					}
					panic(r)
				}
			}()
			s.step(o)
			s.o.onStep(s, o)
		}()
	}
	s.o.onEnd(s)
	return s
}
