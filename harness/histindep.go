package main

import (
	"fmt"
	"strings"
)

// C19: reach the same contents by a second, different history and compare the
// two trees by everything they answer, now and after a common continuation.

type finalObs struct{ nopObs }

func genHistIndep(r *rng, p *property) *testCase {
	c := &testCase{Ops: genHistory(r, &p.prof), Perm: r.next()}
	// continuation: tree-level operations over the same kind of keys
	u := &universe{r: r, alpha: alphabets[r.n(len(alphabets))], stems: [][]byte{nil}}
	for _, o := range c.Ops {
		switch o.O {
		case opIns, opTins, opDel, opTdel:
			u.pool = append(u.pool, o.K)
		case opBins:
			ks := o.bulkKeys()
			if len(ks) == 0 {
				continue
			}
			u.pool = append(u.pool, []byte(ks[0]), []byte(ks[len(ks)/2]))
		}
	}
	if len(u.pool) == 0 {
		u.pool = append(u.pool, []byte{'a'})
	}
	n := r.n(12)
	for i := 0; i < n; i++ {
		k := cat(u.query())
		switch x := r.n(10); {
		case x < 5:
			c.Ops2 = append(c.Ops2, op{O: opIns, K: k})
		case x < 9:
			c.Ops2 = append(c.Ops2, op{O: opDel, K: k})
		default:
			c.Ops2 = append(c.Ops2, op{O: opDlp, K: k})
		}
	}
	return c
}

func rebuild(m *model, perm uint64) (*tree, string) {
	r := &rng{s: perm}
	ks := append([]string(nil), m.keys()...)
	order := r.n(4)
	switch order {
	case 0: // ascending
	case 1:
		for i, j := 0, len(ks)-1; i < j; i, j = i+1, j-1 {
			ks[i], ks[j] = ks[j], ks[i]
		}
	default:
		for i := len(ks) - 1; i > 0; i-- {
			j := r.n(i + 1)
			ks[i], ks[j] = ks[j], ks[i]
		}
	}
	t := newTree()
	how := []string{fmt.Sprintf("order %d", order)}
	inTxn := r.pct(50)
	var x *txn
	if inTxn {
		x = t.Txn()
		how = append(how, "one transaction")
	}
	ins := func(k string, v int) {
		if x != nil {
			x.Insert([]byte(k), v)
		} else {
			t, _, _ = t.Insert([]byte(k), v)
		}
	}
	del := func(k string) {
		if x != nil {
			x.Delete([]byte(k))
		} else {
			t, _, _ = t.Delete([]byte(k))
		}
	}
	delp := func(p string) {
		if x != nil {
			x.DeletePrefix([]byte(p))
		} else {
			t, _ = t.DeletePrefix([]byte(p))
		}
	}
	var decoys []string
	decoy := func(k string) {
		if _, ok := m.m[k]; !ok && len(decoys) < 120 {
			decoys = append(decoys, k)
		}
	}
	detour := r.n(6)
	how = append(how, fmt.Sprintf("detour %d", detour))
	switch detour {
	case 1: // neighbours of stored keys, removed again one by one
		for _, k := range ks {
			if len(decoys) > 40 {
				break
			}
			decoy(k + string([]byte{byte(r.next())}))
			if len(k) > 0 {
				decoy(k[:r.n(len(k))])
				b := []byte(k)
				b[r.n(len(b))] ^= byte(1 + r.n(255))
				decoy(string(b))
			}
		}
	case 2: // a wide family next to a stored key
		p := ""
		if len(ks) > 0 {
			k := ks[r.n(len(ks))]
			p = k[:r.n(len(k)+1)]
		}
		n := r.pick(3, 13, 17, 38, 49, 100)
		for i := 0; i < n; i++ {
			decoy(p + string([]byte{byte(i * 5)}))
		}
	}
	early := r.pct(50)
	for i, d := range decoys {
		if early || i%2 == 0 {
			ins(d, -1-i)
		}
	}
	if detour == 3 { // wrong values first
		for i, k := range ks {
			ins(k, -1000-i)
		}
	}
	for _, k := range ks {
		ins(k, m.m[k])
	}
	for i, d := range decoys {
		if !(early || i%2 == 0) {
			ins(d, -1-i)
		}
	}
	for _, d := range decoys {
		del(d)
	}
	if detour == 4 { // take some out and put them back
		for i, k := range ks {
			if i%3 == 0 {
				del(k)
			}
		}
		for i, k := range ks {
			if i%3 == 0 {
				ins(k, m.m[k])
			}
		}
	}
	if detour == 5 && len(ks) > 0 { // remove a whole prefix and put it back
		k := ks[r.n(len(ks))]
		p := k[:r.n(len(k)+1)]
		delp(p)
		for _, q := range ks {
			if strings.HasPrefix(q, p) {
				ins(q, m.m[q])
			}
		}
	}
	if x != nil {
		t = x.Commit()
	}
	return t, strings.Join(how, ", ")
}

func runHistoryIndep(c *testCase, st *stats) {
	s := runHistory(c, finalObs{}, st, nil)
	a := s.cur
	st.maxKeys = len(a.m.m)
	probes := probesOf(c, 40)
	for round := uint64(0); round < 2; round++ {
		b, how := rebuild(a.m, c.Perm+round*7919)
		da, db := treeDigest(a.t, probes, len(a.m.m), 24, 0), treeDigest(b, probes, len(a.m.m), 24, 0)
		if d := da.diff(db); d != "" {
			failf("two trees with the same %d entries answer differently (second built by %s): %s", len(a.m.m), how, strings.NewReplacer(": was ", ": first ", " now ", " second ").Replace(d))
		}
		ta, tb := a.t, b
		m := a.m.fork()
		v := 1 << 20
		for i, o := range c.Ops2 {
			v++
			k := []byte(o.K)
			switch o.O {
			case opIns:
				na, oa, fa := ta.Insert(k, v)
				nb, ob, fb := tb.Insert(k, v)
				if oa != ob || fa != fb {
					failf("continuation %d %s: results (%d,%v) and (%d,%v) differ between equal trees (second built by %s)", i, o, oa, fa, ob, fb, how)
				}
				ta, tb = na, nb
				m.put(string(k), v)
			case opDel:
				na, oa, fa := ta.Delete(k)
				nb, ob, fb := tb.Delete(k)
				if oa != ob || fa != fb {
					failf("continuation %d %s: results (%d,%v) and (%d,%v) differ between equal trees (second built by %s)", i, o, oa, fa, ob, fb, how)
				}
				ta, tb = na, nb
				m.del(string(k))
			case opDlp:
				na, fa := ta.DeletePrefix(k)
				nb, fb := tb.DeletePrefix(k)
				if fa != fb {
					failf("continuation %d %s: results %v and %v differ between equal trees (second built by %s)", i, o, fa, fb, how)
				}
				ta, tb = na, nb
				m.delPrefix(string(k))
			}
		}
		if len(c.Ops2) > 0 {
			da, db := treeDigest(ta, probes, len(m.m), 24, 0), treeDigest(tb, probes, len(m.m), 24, 0)
			if d := da.diff(db); d != "" {
				failf("after the same continuation two equal trees answer differently (second built by %s): %s", how, strings.NewReplacer(": was ", ": first ", " now ", " second ").Replace(d))
			}
		}
	}
}
