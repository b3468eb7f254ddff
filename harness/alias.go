package main

import (
	"bytes"
	"fmt"

	adaptive "github.com/absolutelightning/go-immutable-adaptive-radix"
)

// C17: the same history is run twice, once with private exact-size key slices
// that are never touched again, once with buffers that have spare capacity, are
// checked for writes and scribbled over after each call, and with every returned
// key appended to. Everything observable has to be identical.

type aliasObs struct {
	nopObs
	log     []string
	hostile bool
	cnt     int
	probes  []string
}

func (a *aliasObs) emit(format string, x ...any) { a.log = append(a.log, fmt.Sprintf(format, x...)) }

func (a *aliasObs) pass(perm uint64) func(k string) ([]byte, func()) {
	if !a.hostile {
		return nil
	}
	spares := []int{0, 1, 2, 5, 16, 64}
	return func(k string) ([]byte, func()) {
		a.cnt++
		r := &rng{s: perm + uint64(a.cnt)*77}
		spare := spares[r.n(len(spares))]
		buf := make([]byte, len(k)+spare)
		copy(buf, k)
		for i := len(k); i < len(buf); i++ {
			buf[i] = byte(r.next())
		}
		if spare > 0 && r.pct(30) {
			buf[len(k)] = '$'
		}
		want := append([]byte(nil), buf...)
		return buf[:len(k)], func() {
			if !bytes.Equal(buf, want) {
				failf("a slice passed for key %q (cap %d) was written to: before %q after %q", k, len(buf), want, buf)
			}
			for i := range buf {
				buf[i] ^= 0xff
			}
		}
	}
}

func (a *aliasObs) ret(k []byte) string {
	s := string(k)
	if a.hostile {
		_ = append(k, 0xEE, 0xEE, 0xEE)
		_ = append(k, '$')
	}
	return s
}

func (a *aliasObs) onInsert(s *state, x *txnRec, k string, old int, ok bool, wo int, wk bool) {
	a.emit("insert %q -> %d %v", k, old, ok)
}
func (a *aliasObs) onDelete(s *state, x *txnRec, k string, old int, ok bool, wo int, wk bool) {
	a.emit("delete %q -> %d %v", k, old, ok)
}
func (a *aliasObs) onDeletePrefix(s *state, x *txnRec, p string, ok bool, want int) {
	a.emit("deletePrefix %q -> %v", p, ok)
}

func (a *aliasObs) drain(what string, next func() ([]byte, int, bool), lim int) {
	var out []kv
	for len(out) < lim {
		k, v, ok := next()
		if !ok {
			break
		}
		out = append(out, kv{a.ret(k), v})
	}
	a.emit("%s %s", what, fullKVs(out))
}

func (a *aliasObs) reads(s *state, root node, t *tree, x *txnRec, m *model, arg string) {
	lim := limitFor(m)
	use := func(f func(b []byte)) {
		b, done := s.key(arg)
		f(b)
		fin(done)
	}
	use(func(b []byte) {
		if x != nil {
			v, ok := x.x.Get(b)
			a.emit("get %q %d %v", arg, v, ok)
		} else {
			v, ok := t.Get(b)
			a.emit("get %q %d %v", arg, v, ok)
		}
	})
	use(func(b []byte) {
		var k []byte
		var v int
		var ok bool
		if x != nil {
			k, v, ok = x.x.LongestPrefix(b)
		} else {
			k, v, ok = t.LongestPrefix(b)
		}
		a.emit("longest prefix %q: %q %d %v", arg, a.ret(k), v, ok)
	})
	use(func(b []byte) {
		if x != nil {
			_, v, ok := x.x.GetWatch(b)
			a.emit("getwatch %q %d %v", arg, v, ok)
		} else {
			_, v, ok := t.GetWatch(b)
			a.emit("getwatch %q %d %v", arg, v, ok)
		}
	})
	// The buffer is reused before the iterator is consumed.
	it := root.Iterator()
	use(func(b []byte) { it.SeekPrefix(b) })
	a.drain(fmt.Sprintf("prefix %q", arg), it.Next, lim)
	it = root.Iterator()
	use(func(b []byte) { it.SeekPrefixWatch(b) })
	a.drain(fmt.Sprintf("prefix watch %q", arg), it.Next, lim)
	lb := root.LowerBoundIterator()
	use(func(b []byte) { lb.SeekLowerBound(b) })
	a.drain(fmt.Sprintf("lower bound %q", arg), lb.Next, lim)
	ri := root.ReverseIterator()
	use(func(b []byte) { ri.SeekReverseLowerBound(b) })
	a.drain(fmt.Sprintf("reverse lower bound %q", arg), ri.Previous, lim)
	ri = root.ReverseIterator()
	use(func(b []byte) { ri.SeekPrefix(b) })
	a.drain(fmt.Sprintf("reverse prefix %q", arg), ri.Previous, lim)
	var pi *adaptive.PathIterator[int]
	use(func(b []byte) { pi = root.PathIterator(b) })
	a.drain(fmt.Sprintf("path %q", arg), pi.Next, lim)
	if t != nil {
		use(func(b []byte) { pi = t.GetPathIterator(b) })
		a.drain(fmt.Sprintf("tree path %q", arg), pi.Next, lim)
		if len(m.m) > 0 {
			for _, l := range []node{t.Minimum(), t.Maximum()} {
				var own []byte
				if k, _, ok := l.Iterator().Next(); ok {
					own = cat(k)
				}
				b, done := s.key(string(own) + arg)
				pi = l.PathIterator(b)
				fin(done)
				a.drain(fmt.Sprintf("path %q from the entry", string(own)+arg), pi.Next, lim)
			}
		}
		var out []kv
		t.Walk(func(k []byte, v int) bool {
			out = append(out, kv{a.ret(k), v})
			return len(out) >= lim
		})
		a.emit("walk %s", fullKVs(out))
	}
}

func (a *aliasObs) onQuery(s *state, o op) {
	if o.O == opTq {
		if s.ctx != nil {
			a.reads(s, s.ctx.x.Root(), nil, s.ctx, s.ctx.m, string(o.K))
		}
		return
	}
	a.reads(s, s.cur.t.Root(), s.cur.t, nil, s.cur.m, string(o.K))
}

func (a *aliasObs) onEnd(s *state) {
	for i := 0; i < len(a.probes) && i < 8; i++ {
		a.reads(s, s.cur.t.Root(), s.cur.t, nil, s.cur.m, a.probes[i*len(a.probes)/8])
	}
	step := 1 + len(s.trees)/6
	for i := len(s.trees) - 1; i >= 0; i -= step {
		r := s.trees[i]
		d := treeDigest(r.t, a.probes, len(r.m.m), 24, 0)
		for j := range d.name {
			a.emit("tree %d %s(%q): %s #%x", r.id, d.name[j], d.arg[j], d.text[j], d.sum[j])
		}
	}
	for _, x := range s.txns {
		if x.open {
			a.emit("transaction %d %s", x.id, fullKVs(fwdScan(x.x.Root(), limitFor(x.m), func(it *adaptive.Iterator[int]) { it.SeekPrefix(nil) })))
		}
	}
}

func runAlias(c *testCase, st *stats) {
	probes := probesOf(c, 16)
	a := &aliasObs{probes: probes}
	runHistory(c, a, st, func(s *state) { s.passKey = a.pass(0) })
	b := &aliasObs{probes: probes, hostile: true}
	var st2 stats
	runHistory(c, b, &st2, func(s *state) { s.passKey = b.pass(c.Perm) })
	for i := range a.log {
		if i >= len(b.log) || a.log[i] != b.log[i] {
			got := "(nothing)"
			if i < len(b.log) {
				got = b.log[i]
			}
			failf("reusing key buffers changed an answer: with private keys %q, with reused buffers %q", a.log[i], got)
		}
	}
}
