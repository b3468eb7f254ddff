package main

import (
	"runtime"
	"sort"
	"strings"
	"time"
	"weak"

	adaptive "github.com/absolutelightning/go-immutable-adaptive-radix"
)

// ---------------------------------------------------------------- C26

// token is a stored value whose collection can be observed. It holds a pointer so
// that it is allocated on its own.
type token struct {
	self *token
	n    int
	pad  [4]int
}

type tokenTree struct {
	t *adaptive.RadixTree[*token]
	m map[string]int // key to number of the token
}

type tokenTxn struct {
	x *adaptive.Txn[*token]
	m map[string]int
}

func forkInts(m map[string]int) map[string]int {
	n := make(map[string]int, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

// runReclaim runs the history, lets go of everything but a few of the trees and
// judges that all values that are in none of those are reclaimed.
func runReclaim(c *testCase, st *stats) {
	held, made := reclaimHistory(c, st)
	live := map[int]string{}
	for _, h := range held {
		for k, n := range h.m {
			live[n] = k
		}
	}
	var stuck []int
	for try := 0; try < 8; try++ {
		runtime.GC()
		stuck = stuck[:0]
		for n, w := range made {
			if _, ok := live[n]; !ok && w.Value() != nil {
				stuck = append(stuck, n)
			}
		}
		if len(stuck) == 0 {
			break
		}
		if try > 1 {
			time.Sleep(time.Duration(try) * time.Millisecond)
		}
	}
	st.maxKeys = len(live)
	st.published = len(made) - len(live)
	if len(stuck) > 0 {
		sort.Ints(stuck)
		failf("%d of %d values that are in none of the %d trees still held are kept in memory, the first is number %d", len(stuck), len(made)-len(live), len(held), stuck[0])
	}
	runtime.KeepAlive(held)
}

//go:noinline
func reclaimHistory(c *testCase, st *stats) ([]tokenTree, []weak.Pointer[token]) {
	trees := []tokenTree{{adaptive.NewRadixTree[*token](), map[string]int{}}}
	cur := trees[0]
	var txns []*tokenTxn
	var x *tokenTxn
	var made []weak.Pointer[token]
	mk := func() (*token, int) {
		v := &token{n: len(made)}
		v.self = v
		made = append(made, weak.Make(v))
		st.inserts++
		return v, v.n
	}
	push := func(t *adaptive.RadixTree[*token], m map[string]int) {
		cur = tokenTree{t, m}
		trees = append(trees, cur)
	}
	ins := func(k string, tx bool) {
		v, n := mk()
		if tx {
			x.x.Insert([]byte(k), v)
			x.m[k] = n
			return
		}
		t, _, _ := cur.t.Insert([]byte(k), v)
		m := forkInts(cur.m)
		m[k] = n
		push(t, m)
	}
	del := func(k string, tx bool) {
		if tx {
			x.x.Delete([]byte(k))
			delete(x.m, k)
			return
		}
		t, _, _ := cur.t.Delete([]byte(k))
		m := forkInts(cur.m)
		delete(m, k)
		push(t, m)
	}
	cut := func(m map[string]int, p string) {
		for k := range m {
			if strings.HasPrefix(k, p) {
				delete(m, k)
			}
		}
	}
	begin := func(track bool) {
		x = &tokenTxn{cur.t.Txn(), forkInts(cur.m)}
		x.x.TrackMutate(track)
		txns = append(txns, x)
	}
	for _, o := range c.Ops {
		k := string(o.K)
		switch o.O {
		case opIns:
			ins(k, false)
		case opDel:
			del(k, false)
		case opBins, opBdel:
			own := o.Q != famFan && (o.X != 1 || x == nil)
			prev := x
			if own {
				begin(false)
			}
			for _, k := range o.bulkKeys() {
				if o.O == opBins {
					ins(k, own || o.X == 1 && x != nil)
				} else {
					del(k, own || o.X == 1 && x != nil)
				}
			}
			if own {
				push(x.x.Commit(), forkInts(x.m))
				x = prev
			}
		case opDlp:
			t, _ := cur.t.DeletePrefix(o.K)
			m := forkInts(cur.m)
			cut(m, k)
			push(t, m)
		case opBeg:
			begin(o.N == 1)
		case opAbt:
			x = nil
		case opFrk:
			cur = trees[len(trees)-1-o.N%len(trees)]
		case opTcl:
			push(cur.t.Clone(), cur.m)
		case opSwt:
			if len(txns) > 0 {
				x = txns[o.N%len(txns)]
			}
		case opQuery:
			cur.t.Get(o.K)
			cur.t.GetWatch(o.K)
			cur.t.Root().Iterator().SeekPrefixWatch(o.K)
		}
		if x == nil {
			continue
		}
		switch o.O {
		case opTins:
			ins(k, true)
		case opTdel:
			del(k, true)
		case opTdlp:
			x.x.DeletePrefix(o.K)
			cut(x.m, k)
		case opTrk:
			x.x.TrackMutate(o.N == 1)
		case opCom:
			push(x.x.Commit(), forkInts(x.m))
		case opCmo:
			push(x.x.CommitOnly(), forkInts(x.m))
		case opNtf:
			x.x.Notify()
		case opCln:
			x = &tokenTxn{x.x.Clone(), forkInts(x.m)}
			txns = append(txns, x)
		}
	}
	st.trees = len(trees)
	held := []tokenTree{trees[len(trees)-1]}
	switch p := int(c.Perm % 1000003); p % 4 {
	case 0:
		held[0] = trees[p/4%len(trees)]
	case 1:
		held = append(held, trees[p/4%len(trees)])
	}
	return held, made
}
