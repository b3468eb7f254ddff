package main

import (
	"strconv"
	"strings"

	adaptive "github.com/absolutelightning/go-immutable-adaptive-radix"
)

// ---------------------------------------------------------------- C23

// shareObs judges how many nodes of a tree are not shared with its source.
type shareObs struct {
	nopObs
	allowed int // new nodes the current operation may bring, negative: not judged
	tx      map[*txnRec]int
	n       int
}

// perWrite bounds the nodes one write may bring: every node on the way to the
// key uses up at least one byte of it, and a split or merge adds a few.
func perWrite(k string) int { return len(k) + 8 }

func nodesOf(t *tree) map[node]bool {
	seen := map[node]bool{}
	t.DFS(func(n node) { seen[n] = true })
	return seen
}

func (h *shareObs) onInsert(s *state, x *txnRec, k string, _ int, _ bool, _ int, _ bool) {
	h.wrote(x, k, true)
}
func (h *shareObs) onDelete(s *state, x *txnRec, k string, _ int, _ bool, _ int, had bool) {
	h.wrote(x, k, had)
}
func (h *shareObs) onDeletePrefix(s *state, x *txnRec, p string, _ bool, want int) {
	h.wrote(x, p, want > 0)
}

func (h *shareObs) wrote(x *txnRec, k string, effect bool) {
	if !effect {
		return
	}
	if x == nil {
		h.allowed = perWrite(k)
		return
	}
	if h.tx == nil {
		h.tx = map[*txnRec]int{}
	}
	h.tx[x] += perWrite(k)
}

func (h *shareObs) onTree(s *state, r *treeRec) {
	allowed := h.allowed
	h.allowed = 0
	if r.from < 0 {
		return
	}
	if s.committing != nil {
		// all its writes, since a transaction may commit more than once
		allowed = h.tx[s.committing]
	}
	allowed++ // the root
	h.n++
	if len(r.m.m) > 60 && h.n%9 != 0 {
		return
	}
	from := s.trees[r.from]
	old := nodesOf(from.t)
	fresh := 0
	for n := range nodesOf(r.t) {
		if !old[n] {
			fresh++
		}
	}
	if fresh > allowed {
		failf("tree %d has %d nodes that tree %d, which it was derived from, does not have; its writes account for at most %d", r.id, fresh, from.id, allowed)
	}
	if len(old) > 2*allowed {
		s.st.nonEmptyQueries++
	}
}

// ---------------------------------------------------------------- C24

func commonPrefix(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return a[:i]
}

// c24once iterates from every node DFS visits.
func c24once(s *state, t *tree, m *model) {
	var nodes []node
	t.DFS(func(n node) { nodes = append(nodes, n) })
	step := 1 + len(nodes)/60
	lim := limitFor(m)
	for i := 0; i < len(nodes); i += step {
		got := fwdScan(nodes[i], lim, nil)
		if len(got) == 0 {
			if len(m.m) > 0 {
				failf("iteration from node %d of %d yields nothing", i, len(nodes))
			}
			continue
		}
		// A node holds all the keys that start with what its keys have in common.
		p := commonPrefix(got[0].k, got[len(got)-1].k)
		if i == 0 {
			p = ""
		}
		want := m.scan(p)
		expectKVs("iteration from the node with the keys under "+strconv.Quote(p), got, want)
		expectKVs("reverse iteration from the node with the keys under "+strconv.Quote(p), revScan(nodes[i], lim, nil), reversed(want))
		if i > 0 && len(got) > 1 {
			s.st.nonEmptyQueries++
		}
	}
	if len(m.m) > 0 {
		all := m.scan("")
		fromEntry("first", t.Minimum(), all[0], s.val)
		fromEntry("last", t.Maximum(), all[len(all)-1], s.val+1)
	}
}

// fromEntry judges all kinds of iteration started at an entry itself, with one of
// several arguments, picked by turn.
func fromEntry(which string, l node, e kv, turn int) {
	one := func(what string, got []kv, want bool) {
		var w []kv
		if want {
			w = []kv{e}
		}
		expectKVs(what+" from the "+which+" entry", got, w)
	}
	one("iteration", fwdScan(l, 4, nil), true)
	one("reverse iteration", revScan(l, 4, nil), true)
	args := []string{"", e.k, e.k + "\x00", e.k + "\xff"}
	if n := len(e.k); n > 0 {
		last := e.k[n-1]
		args = append(args, e.k[:n-1], e.k[:n/2], e.k[:n-1]+string([]byte{last - 1}), e.k[:n-1]+string([]byte{last + 1}))
	}
	a := args[turn%len(args)]
	q := strconv.Quote(a)
	one("prefix "+q, fwdScan(l, 4, func(it *adaptive.Iterator[int]) { it.SeekPrefix([]byte(a)) }), strings.HasPrefix(e.k, a))
	one("lower bound "+q, lbScan(l, 4, a), e.k >= a)
	one("reverse lower bound "+q, revScan(l, 4, func(it *adaptive.ReverseIterator[int]) { it.SeekReverseLowerBound([]byte(a)) }), e.k <= a)
	one("path "+q, pathScan(l, 4, a), strings.HasPrefix(a, e.k))
}
