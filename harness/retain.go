package main

import (
	"fmt"

	adaptive "github.com/absolutelightning/go-immutable-adaptive-radix"
)

// ---------------------------------------------------------------- C29

// kept is a key as it was handed out, with its bytes at that time.
type kept struct {
	b    []byte
	want string
	from string
}

// retainObs keeps the slices returned by queries and scans, never writes to them,
// and compares them with their first contents after each later operation and at
// the end. The slices passed to the queries are overwritten once the scans are done. Scans are also stepped in turns, with a key of each outstanding.
type retainObs struct {
	nopObs
	keys   []kept
	probes []string
	at     int
}

const maxKept = 3000

func (q *retainObs) keep(from string, k []byte) {
	if len(q.keys) < maxKept {
		q.keys = append(q.keys, kept{k, string(k), from})
	}
}

// judge compares n of the keys held, in turn, or all if n is negative.
func (q *retainObs) judge(after string, n int) {
	if n < 0 || n > len(q.keys) {
		n = len(q.keys)
	}
	for ; n > 0; n-- {
		q.at++
		if q.at >= len(q.keys) {
			q.at = 0
		}
		if k := q.keys[q.at]; string(k.b) != k.want {
			failf("a key returned by %s was %q and is %q after %s", k.from, k.want, k.b, after)
		}
	}
}

func (q *retainObs) reads(s *state, root node, t *tree, x *txnRec, m *model, arg string) {
	lim := limitFor(m)
	start := len(q.keys)
	// The slices passed belong to the caller, who writes to them at the end.
	var args [][]byte
	b := func() []byte {
		args = append(args, []byte(arg))
		return args[len(args)-1]
	}
	name := func(what string) string { return fmt.Sprintf("%s of %q", what, arg) }
	if x != nil {
		if k, _, ok := x.x.LongestPrefix(b()); ok {
			q.keep(name("the longest prefix"), k)
		}
	} else if k, _, ok := t.LongestPrefix(b()); ok {
		q.keep(name("the longest prefix"), k)
	}
	if t != nil {
		n := 0
		t.Walk(func(k []byte, v int) bool {
			q.keep("a walk", k)
			n++
			return n >= lim
		})
		if len(m.m) > 0 {
			for _, l := range []node{t.Minimum(), t.Maximum()} {
				if k, _, ok := l.Iterator().Next(); ok {
					q.keep("an entry", k)
				}
			}
		}
	}
	all := root.Iterator()
	pre := root.Iterator()
	pre.SeekPrefix(b())
	lb := root.LowerBoundIterator()
	lb.SeekLowerBound(b())
	rall := root.ReverseIterator()
	rlb := root.ReverseIterator()
	rlb.SeekReverseLowerBound(b())
	rpre := root.ReverseIterator()
	rpre.SeekPrefix(b())
	var pi *adaptive.PathIterator[int]
	if t != nil {
		pi = t.GetPathIterator(b())
	} else {
		pi = root.PathIterator(b())
	}
	its := []struct {
		what string
		next func() ([]byte, int, bool)
	}{
		{"the iteration", all.Next}, {"the prefix scan", pre.Next}, {"the lower-bound scan", lb.Next},
		{"the reverse iteration", rall.Previous}, {"the reverse lower-bound scan", rlb.Previous},
		{"the reverse prefix scan", rpre.Previous}, {"the path iteration", pi.Next},
	}
	for i := range its {
		its[i].what = name(its[i].what)
	}
	open := len(its)
	for n := 0; open > 0 && n < lim; n++ {
		for i := range its {
			if its[i].next == nil {
				continue
			}
			k, _, ok := its[i].next()
			if !ok {
				its[i].next = nil
				open--
				continue
			}
			q.keep(its[i].what, k)
		}
	}
	for _, a := range args {
		for i := range a {
			a[i] ^= 0xff
		}
	}
	if len(q.keys)-start > 8 {
		s.st.nonEmptyQueries++
	}
	q.judge("the scans that followed", -1)
}

func (q *retainObs) onQuery(s *state, o op) {
	if o.O == opTq {
		if s.ctx != nil {
			q.reads(s, s.ctx.x.Root(), nil, s.ctx, s.ctx.m, string(o.K))
		}
		return
	}
	q.reads(s, s.cur.t.Root(), s.cur.t, nil, s.cur.m, string(o.K))
}

func (q *retainObs) onStep(s *state, o op) { q.judge("a later operation", 200) }

func (q *retainObs) onEnd(s *state) {
	q.judge("the whole history", -1)
	for i := 0; i < len(q.probes) && i < 4; i++ {
		q.reads(s, s.cur.t.Root(), s.cur.t, nil, s.cur.m, q.probes[i*len(q.probes)/4])
	}
}
