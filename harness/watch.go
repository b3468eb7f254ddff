package main

import (
	"sort"
	"strings"
)

// watchRec is one registered watch channel.
type watchRec struct {
	ch     <-chan struct{}
	prefix bool
	rev    bool
	key    string
	src    int // id of the tree it was obtained from; -1: an open transaction
	tx     *txnRec
	txW    int // number of writes of tx when it was taken
	logAt  int // number of logged writes of tx when it was taken
	val    int // value of the entry it was obtained for; 0: key missing or prefix watch
	fired  bool
	id     int
	root   int          // the empty tree its source goes back to
	armed  map[int]bool // further trees whose transactions still have to fire it (C21)
}

type watchState struct {
	must    bool                    // judge "has to fire" (C14, C15)
	precise bool                    // judge "must not fire" (C16)
	chain   bool                    // a watch stays armed along notified commits (C21)
	local   bool                    // judge that remote changes do not fire (C25)
	same    bool                    // a watch has to fire for all trees of its class (C28)
	apart   bool                    // judge that notifications leave watches on unrelated trees alone (C30)
	late    bool                    // judge that watches taken on outdated trees are closed (C31)
	before  map[int][]int           // trees whose watches a transaction on this tree has to fire
	stale   map[int]map[string]bool // per tree the keys changed since by notified transactions
	own     bool                    // judge that a watch taken in a transaction fires for its later writes (C27)
	ws      []*watchRec
	latest  int
	linear  bool
	done    map[int]bool   // values replaced or deleted by notified tracked transactions
	doneMax map[string]int // per key the newest such value
}

func newWatchState(must, precise bool) *watchState {
	return &watchState{must: must, precise: precise, linear: true, done: map[int]bool{}, doneMax: map[string]int{}}
}

func closed(ch <-chan struct{}) bool {
	select {
	case <-ch:
		return true
	default:
		return false
	}
}

func (w *watchState) register(s *state, o op) {
	k := string(o.K)
	r := &watchRec{key: k, src: s.cur.id, id: len(w.ws), root: s.cur.root}
	m := s.cur.m
	linearSrc := w.linear && s.cur.id == w.latest
	switch o.O {
	case opWatch:
		ch, v, ok := s.cur.t.GetWatch(raw(k, s.val))
		r.ch = ch
		if want, has := m.m[k]; w.must && (has != ok || (has && v != want) || (!has && v != 0)) {
			failf("GetWatch(%q) = %d,%v want %d,%v", k, v, ok, want, has)
		}
		r.val = m.m[k]
	case opWpre:
		r.prefix = true
		if o.N == 1 {
			r.rev = true
			r.ch = s.cur.t.Root().ReverseIterator().SeekPrefixWatch(raw(k, s.val))
		} else {
			r.ch = s.cur.t.Root().Iterator().SeekPrefixWatch(raw(k, s.val))
		}
	case opTw:
		if s.ctx == nil {
			return
		}
		x := s.ctx
		ch, v, ok := x.x.GetWatch(raw(k, s.val))
		r.ch = ch
		if want, has := x.m.m[k]; w.must && (has != ok || (has && v != want) || (!has && v != 0)) {
			failf("Txn.GetWatch(%q) = %d,%v want %d,%v", k, v, ok, want, has)
		}
		r.val = x.m.m[k]
		r.inTxn(x)
		linearSrc = false
	case opTwp:
		if s.ctx == nil {
			return
		}
		x := s.ctx
		r.prefix = true
		if o.N == 1 {
			r.rev = true
			r.ch = x.x.Root().ReverseIterator().SeekPrefixWatch(raw(k, s.val))
		} else {
			r.ch = x.x.Root().Iterator().SeekPrefixWatch(raw(k, s.val))
		}
		r.inTxn(x)
		linearSrc = false
	}
	if r.ch == nil {
		if w.must || w.own {
			failf("watch %s returned a nil channel", o)
		}
		return
	}
	r.fired = closed(r.ch)
	if r.fired && w.precise && linearSrc {
		failf("watch %s obtained from the latest tree is already closed", o)
	}
	if r.fired && w.precise {
		w.checkPrecise(s, r)
	}
	s.st.watches++
	w.ws = append(w.ws, r)
}

// inTxn notes that r was taken in the open transaction x.
func (r *watchRec) inTxn(x *txnRec) {
	r.tx = x
	r.root = x.root
	r.txW = x.writes
	r.logAt = len(x.log)
	x.watched = true
	if x.dirty {
		r.src = -1
	} else {
		r.src = x.base
	}
}

func (w *watchState) checkPrecise(s *state, r *watchRec) {
	s.st.preciseChecks++
	// An entry a transaction owns may be updated in place while it is open, so a
	// watch taken inside one also covers the later values of the key.
	if r.tx != nil && w.doneMax[r.key] >= r.val {
		return
	}
	if r.val != 0 && !w.done[r.val] {
		failf("watch %d on existing key %q (entry value %d) fired although no notified tracked transaction replaced or deleted that entry", r.id, r.key, r.val)
	}
}

// sweep observes which channels are closed. allow: some may have fired now.
func (w *watchState) sweep(s *state, what string, allow bool) {
	for _, r := range w.ws {
		if r.fired || !closed(r.ch) {
			continue
		}
		r.fired = true
		if !w.precise {
			continue
		}
		if !allow {
			failf("%s: watch %d on %q fired although the operation issues no notification for any change", what, r.id, r.key)
		}
		w.checkPrecise(s, r)
	}
	if w.precise {
		s.st.preciseChecks++
	}
}

// checkOpen judges that on a linear history no watch on the latest tree is closed
// already, for its keys, keys next to them and their prefixes.
func (w *watchState) checkOpen(s *state) {
	if !w.precise || !w.linear {
		return
	}
	r := s.trees[w.latest]
	ks := r.m.keys()
	step := 1 + len(ks)/24
	for i := 0; i < len(ks); i += step {
		k := ks[i]
		for _, q := range []string{k, k + "a", k[:len(k)/2]} {
			if ch, _, _ := r.t.GetWatch(raw(q, s.val)); closed(ch) {
				failf("watch on %q obtained from the latest tree is already closed", q)
			}
			if closed(r.t.Root().Iterator().SeekPrefixWatch(raw(q, s.val))) {
				failf("prefix watch on %q obtained from the latest tree is already closed", q)
			}
		}
		s.st.preciseChecks++
	}
}

func (w *watchState) onTree(s *state, r *treeRec) {
	if r.from == w.latest || r.from < 0 {
		w.latest = r.id
		return
	}
	// A version derived from an older one. Harmless when it has the same content
	// as its source; otherwise the history is no longer linear.
	w.linear = false
}

func (w *watchState) onCommit(s *state, x *txnRec, r *treeRec) {
	if x.base != r.from || x.base < 0 {
		w.linear = false
	}
	for _, rec := range w.ws {
		if rec.tx == x && rec.src == -1 && rec.txW == x.writes {
			rec.src = r.id
		}
	}
}

// onNotify judges the notifications of x, which have just been issued.
func (w *watchState) onNotify(s *state, x *txnRec) {
	for v, k := range x.oldVals {
		w.done[v] = true
		if v > w.doneMax[k] {
			w.doneMax[k] = v
		}
	}
	if w.must {
		for _, ph := range x.pending {
			if ph.base < 0 {
				continue
			}
			for _, r := range w.ws {
				if r.src != ph.base && !r.armed[ph.base] && !(w.same && w.sameClass(s, r.src, ph.base)) {
					continue
				}
				hit := ""
				found := false
				if !r.prefix {
					found = ph.must[r.key]
					hit = r.key
				} else {
					for k := range ph.must {
						if strings.HasPrefix(k, r.key) {
							found = true
							if hit == "" || k < hit {
								hit = k
							}
						}
					}
				}
				if !found {
					continue
				}
				s.st.mustFired++
				if r.src != ph.base {
					s.st.laterFired++
				}
				if !closed(r.ch) {
					kind := "key"
					if r.prefix {
						kind = "prefix"
					}
					if r.rev {
						kind = "reverse prefix"
					}
					failf("%s watch %d on %q (taken from tree %d) did not fire although the notified transaction changed %q", kind, r.id, r.key, r.src, hit)
				}
			}
			if !w.chain || !ph.full {
				continue
			}
			for _, r := range w.ws {
				if (r.src == ph.base || r.armed[ph.base]) && !closed(r.ch) {
					if r.armed == nil {
						r.armed = map[int]bool{}
					}
					r.armed[ph.to] = true
				}
			}
		}
	}
	if w.own {
		w.checkOwn(s, x)
	}
	if w.late {
		for i := range x.pending {
			w.outdate(s, &x.pending[i])
		}
	}
	if w.local && len(x.pending) == 1 && x.pending[0].base >= 0 {
		w.checkLocal(s, &x.pending[0])
	}
	if w.apart {
		w.checkApart(s, x)
	}
	w.sweep(s, "notify", x.events > 0)
}

// outdate notes which keys the notified phase changed for its base and for the trees
// before it, and takes watches on some of these keys.
func (w *watchState) outdate(s *state, ph *phase) {
	if ph.base < 0 {
		return
	}
	if w.stale == nil {
		w.stale = map[int]map[string]bool{}
		w.before = map[int][]int{}
	}
	olds := append([]int{ph.base}, w.before[ph.base]...)
	for _, id := range olds {
		if w.stale[id] == nil {
			w.stale[id] = map[string]bool{}
		}
		for k := range ph.must {
			w.stale[id][k] = true
		}
		if id != ph.base && len(ph.must) > 0 {
			s.st.lateLater++
		}
	}
	if ph.full {
		w.before[ph.to] = olds
	}
	w.checkLate(s, ph.base, ph.must, 6)
}

// checkLate judges that watches on tree id for keys changed since are closed when
// they are taken now.
func (w *watchState) checkLate(s *state, id int, changed map[string]bool, max int) {
	ks := make([]string, 0, len(changed))
	for k := range changed {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	step := 1 + len(ks)/max
	t := s.trees[id].t
	for i := (id + len(ks)) % step; i < len(ks); i += step {
		k := ks[i]
		s.st.late++
		if ch, _, _ := t.GetWatch(raw(k, s.val)); !closed(ch) {
			failf("watch on %q taken from tree %d after the notification of a change of that key is open", k, id)
		}
		if ch, _, _ := t.Txn().GetWatch(raw(k, s.val)); !closed(ch) {
			failf("watch on %q taken in a transaction on tree %d after the notification of a change of that key is open", k, id)
		}
		for _, q := range []string{k, k[:len(k)/2], k[:len(k)-len(k)/4], ""} {
			if !closed(t.Root().Iterator().SeekPrefixWatch(raw(q, s.val))) {
				failf("prefix watch on %q taken from tree %d after the notification of a change of %q is open", q, id, k)
			}
			if !closed(t.Root().ReverseIterator().SeekPrefixWatch(raw(q, s.val))) {
				failf("reverse prefix watch on %q taken from tree %d after the notification of a change of %q is open", q, id, k)
			}
		}
	}
}

// checkApart judges that the notification of x fired no watch on a tree that goes
// back to another empty tree.
func (w *watchState) checkApart(s *state, x *txnRec) {
	if x.events == 0 {
		return
	}
	for _, r := range w.ws {
		if r.fired || r.root == x.root {
			continue
		}
		s.st.apart++
		if closed(r.ch) {
			failf("watch %d on %q of a tree created as number %d fired for a transaction on a tree created as number %d", r.id, r.key, r.root, x.root)
		}
	}
}

// sameClass tells whether only operations without effect lie between two trees.
func (w *watchState) sameClass(s *state, a, b int) bool {
	return a >= 0 && b >= 0 && s.trees[a].class == s.trees[b].class
}

// checkLocal judges the watches on missing keys and on prefixes that were open
// before the notification of ph: none may fire when everything written is remote.
func (w *watchState) checkLocal(s *state, ph *phase) {
	if len(ph.written) == 0 {
		return
	}
	for _, r := range w.ws {
		if r.fired || r.tx != nil || r.val != 0 || r.src != ph.base {
			continue
		}
		far := -1
		for k := range ph.written {
			if n := len(commonPrefix(k, r.key)); n > far {
				far = n
			}
		}
		near, mid := -1, -1 // the two deepest points where untouched keys leave the watched key
		for k := range ph.start.m {
			if ph.written[k] {
				continue
			}
			switch n := len(commonPrefix(k, r.key)); {
			case n > near:
				near, mid = n, near
			case n < near && n > mid:
				mid = n
			}
		}
		if far >= mid {
			continue
		}
		s.st.remote++
		if closed(r.ch) {
			failf("watch %d on %q fired although the keys written share at most %d bytes with it, while untouched keys share %d and %d", r.id, r.key, far, mid, near)
		}
	}
}

// checkOwn judges the watches taken in x: they have to have fired for what x wrote
// since, when all of that was tracked. A key that is new since then and gone again
// may have stayed silent.
func (w *watchState) checkOwn(s *state, x *txnRec) {
	for _, r := range w.ws {
		if r.tx != x {
			continue
		}
		hit, found := "", false
		first := map[string]bool{}
		for _, e := range x.log[r.logAt:] {
			if !e.tracked {
				found = false
				break
			}
			if r.prefix && !strings.HasPrefix(e.key, r.key) || !r.prefix && e.key != r.key || first[e.key] {
				continue
			}
			first[e.key] = true
			if _, has := x.m.m[e.key]; (e.had || has) && !found {
				hit, found = e.key, true
			}
		}
		if !found {
			continue
		}
		s.st.ownFired++
		if !closed(r.ch) {
			kind := "key"
			if r.prefix {
				kind = "prefix"
			}
			if r.rev {
				kind = "reverse prefix"
			}
			failf("%s watch %d on %q (taken in the transaction) did not fire although the transaction changed %q afterwards and notified", kind, r.id, r.key, hit)
		}
	}
}
