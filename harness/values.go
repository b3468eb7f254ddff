package main

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"

	adaptive "github.com/absolutelightning/go-immutable-adaptive-radix"
)

// ---------------------------------------------------------------- C22

// valueKind describes one type of values: mk makes the i-th value (the zero
// value for some i), same tells whether a value is the very one made.
type valueKind[T any] struct {
	name string
	mk   func(i int) (v T, zero bool)
	same func(a, b T) bool
}

type bigValue struct {
	a [40]uint64
	s []int
	f func()
}

// runValues runs the history on trees whose value type is chosen by the case.
func runValues(c *testCase, st *stats) {
	ints := make([]int, 64)
	ptr := func(i int) *int { return &ints[i%len(ints)] }
	f0, f1 := func() int { return 0 }, func() int { return 1 }
	fp := func(f func() int) uintptr {
		if f == nil {
			return 0
		}
		return reflect.ValueOf(f).Pointer()
	}
	switch c.Perm % 7 {
	case 0:
		runValueKind(c, st, valueKind[*int]{"*int",
			func(i int) (*int, bool) {
				if i%3 == 0 {
					return nil, true
				}
				return ptr(i), false
			},
			func(a, b *int) bool { return a == b }})
	case 1:
		// dynamic types that panic when they are compared are included
		runValueKind(c, st, valueKind[any]{"any",
			func(i int) (any, bool) {
				switch i % 8 {
				case 0:
					return nil, true
				case 1:
					return []int{i}, false
				case 2:
					return map[string]int{"i": i}, false
				case 3:
					return "", false
				case 4:
					return (*int)(nil), false
				case 5:
					return math.NaN(), false
				case 6:
					return func() {}, false
				}
				return i, false
			},
			func(a, b any) bool {
				if (a == nil) != (b == nil) {
					return false
				}
				if a == nil {
					return true
				}
				ta, tb := reflect.TypeOf(a), reflect.TypeOf(b)
				if ta != tb {
					return false
				}
				if f, ok := a.(float64); ok && math.IsNaN(f) {
					return math.IsNaN(b.(float64))
				}
				if ta.Kind() == reflect.Func {
					return reflect.ValueOf(a).Pointer() == reflect.ValueOf(b).Pointer()
				}
				return reflect.DeepEqual(a, b)
			}})
	case 2:
		runValueKind(c, st, valueKind[struct{}]{"struct{}",
			func(i int) (struct{}, bool) { return struct{}{}, true },
			func(a, b struct{}) bool { return true }})
	case 3:
		runValueKind(c, st, valueKind[[]byte]{"[]byte",
			func(i int) ([]byte, bool) {
				switch i % 4 {
				case 0:
					return nil, true
				case 1:
					return []byte{}, false
				}
				return []byte{byte(i), byte(i >> 8)}, false
			},
			func(a, b []byte) bool { return (a == nil) == (b == nil) && string(a) == string(b) }})
	case 4:
		runValueKind(c, st, valueKind[float64]{"float64",
			func(i int) (float64, bool) {
				switch i % 4 {
				case 0:
					return 0, true
				case 1:
					return math.NaN(), false
				case 2:
					return math.Copysign(0, -1), false
				}
				return float64(i), false
			},
			func(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }})
	case 5:
		runValueKind(c, st, valueKind[func() int]{"func() int",
			func(i int) (func() int, bool) {
				switch i % 3 {
				case 0:
					return nil, true
				case 1:
					return f0, false
				}
				return f1, false
			},
			func(a, b func() int) bool { return fp(a) == fp(b) }})
	default:
		runValueKind(c, st, valueKind[bigValue]{"struct of 43 words",
			func(i int) (bigValue, bool) {
				if i%4 == 0 {
					return bigValue{}, true
				}
				v := bigValue{s: []int{i}}
				v.a[i%40] = uint64(i)
				return v, false
			},
			func(a, b bigValue) bool { return a.a == b.a && reflect.DeepEqual(a.s, b.s) }})
	}
}

type valueModel[T any] map[string]T

func (m valueModel[T]) fork() valueModel[T] {
	n := make(valueModel[T], len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (m valueModel[T]) keys() []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

type valueTree[T any] struct {
	t *adaptive.RadixTree[T]
	m valueModel[T]
}

func runValueKind[T any](c *testCase, st *stats, kind valueKind[T]) {
	trees := []valueTree[T]{{adaptive.NewRadixTree[T](), valueModel[T]{}}}
	cur := trees[0]
	var x *adaptive.Txn[T]
	var xm valueModel[T]
	n := int(c.Perm>>8) & 0xff
	next := func() T {
		v, zero := kind.mk(n)
		n++
		st.inserts++
		if zero {
			st.zeroValues++
		}
		return v
	}
	result := func(what, k string, old T, ok bool, want T, has bool) {
		if ok != has || !kind.same(old, want) {
			failf("%s(%q) on a tree of %s returned (%v,%v) want (%v,%v)", what, k, kind.name, old, ok, want, has)
		}
	}
	push := func(t *adaptive.RadixTree[T], m valueModel[T]) {
		cur = valueTree[T]{t, m}
		trees = append(trees, cur)
		if t.Len() != len(m) {
			failf("Len = %d want %d on a tree of %s", t.Len(), len(m), kind.name)
		}
	}
	ins := func(k string, tx bool) {
		v := next()
		if tx {
			want, has := xm[k]
			old, ok := x.Insert([]byte(k), v)
			result("Txn.Insert", k, old, ok, want, has)
			xm[k] = v
			st.txWrites++
			return
		}
		want, has := cur.m[k]
		t, old, ok := cur.t.Insert([]byte(k), v)
		result("Insert", k, old, ok, want, has)
		m := cur.m.fork()
		m[k] = v
		push(t, m)
	}
	del := func(k string, tx bool) {
		if tx {
			want, has := xm[k]
			old, ok := x.Delete([]byte(k))
			result("Txn.Delete", k, old, ok, want, has)
			delete(xm, k)
			return
		}
		want, has := cur.m[k]
		t, old, ok := cur.t.Delete([]byte(k))
		result("Delete", k, old, ok, want, has)
		m := cur.m.fork()
		delete(m, k)
		push(t, m)
	}
	cut := func(m valueModel[T], p string) bool {
		any := false
		for k := range m {
			if strings.HasPrefix(k, p) {
				delete(m, k)
				any = true
			}
		}
		return any
	}
	for i, o := range c.Ops {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if v, ok := r.(violation); ok {
						panic(violation{fmt.Sprintf("op %d %s: %s", i, o, v.msg)})
					}
					panic(r)
				}
			}()
			k := string(o.K)
			switch o.O {
			case opIns:
				ins(k, false)
			case opDel:
				del(k, false)
			case opBins:
				for _, k := range o.bulkKeys() {
					ins(k, o.X == 1 && x != nil)
				}
			case opBdel:
				for _, k := range o.bulkKeys() {
					del(k, o.X == 1 && x != nil)
				}
			case opDlp:
				t, ok := cur.t.DeletePrefix(o.K)
				m := cur.m.fork()
				if any := cut(m, k); any != ok {
					failf("DeletePrefix(%q) returned %v want %v", k, ok, any)
				}
				push(t, m)
			case opBeg:
				x, xm = cur.t.Txn(), cur.m.fork()
			case opAbt:
				x = nil
			case opFrk:
				cur = trees[len(trees)-1-o.N%len(trees)]
			case opQuery:
				readValues(cur.t, cur.m, kind, []string{k})
			}
			if x == nil {
				return
			}
			switch o.O {
			case opTins:
				ins(k, true)
			case opTdel:
				del(k, true)
			case opTdlp:
				ok := x.DeletePrefix(o.K)
				if any := cut(xm, k); any != ok {
					failf("Txn.DeletePrefix(%q) returned %v want %v", k, ok, any)
				}
			case opCom:
				push(x.Commit(), xm.fork())
			case opCmo:
				push(x.CommitOnly(), xm.fork())
			}
			if o.O == opTins || o.O == opTdel {
				v, ok := x.Get(o.K)
				want, has := xm[k]
				result("Txn.Get", k, v, ok, want, has)
			}
		}()
	}
	probes := probesOf(c, 40)
	for i := 0; i < len(trees); i += 1 + len(trees)/4 {
		readValues(trees[i].t, trees[i].m, kind, probes)
	}
	readValues(cur.t, cur.m, kind, probes)
}

// readValues judges every kind of read of t.
func readValues[T any](t *adaptive.RadixTree[T], m valueModel[T], kind valueKind[T], probes []string) {
	ks := m.keys()
	lim := 2*len(ks) + 64
	get := func(what, k string, v T, ok bool) {
		want, has := m[k]
		if ok != has || !kind.same(v, want) {
			failf("%s(%q) on a tree of %s = %v,%v want %v,%v", what, k, kind.name, v, ok, want, has)
		}
	}
	one := func(k string) {
		v, ok := t.Get([]byte(k))
		get("Get", k, v, ok)
		_, v, ok = t.GetWatch([]byte(k))
		get("GetWatch", k, v, ok)
	}
	for _, k := range ks {
		one(k)
	}
	seq := func(what string, want []string, next func() ([]byte, T, bool)) {
		for i := 0; i < lim; i++ {
			k, v, ok := next()
			if !ok {
				if i != len(want) {
					failf("%s of a tree of %s yielded %d entries want %d", what, kind.name, i, len(want))
				}
				return
			}
			if i >= len(want) || string(k) != want[i] || !kind.same(v, m[want[i]]) {
				failf("%s of a tree of %s yielded %q=%v at step %d, want %q", what, kind.name, k, v, i, want)
			}
		}
		failf("%s of a tree of %s does not end", what, kind.name)
	}
	rev := make([]string, len(ks))
	for i, k := range ks {
		rev[len(ks)-1-i] = k
	}
	root := t.Root()
	seq("iteration", ks, root.Iterator().Next)
	seq("reverse iteration", rev, root.ReverseIterator().Previous)
	i := 0
	t.Walk(func(k []byte, v T) bool {
		if i >= len(ks) || string(k) != ks[i] || !kind.same(v, m[ks[i]]) {
			failf("Walk of a tree of %s yielded %q=%v at step %d", kind.name, k, v, i)
		}
		i++
		return false
	})
	if i != len(ks) {
		failf("Walk of a tree of %s made %d calls want %d", kind.name, i, len(ks))
	}
	end := func(what string, l *adaptive.NodeLeaf[T], want []string) {
		if (l != nil) != (len(want) > 0) {
			failf("%s of a tree of %s present = %v with %d keys", what, kind.name, l != nil, len(ks))
		}
		if l != nil {
			seq(what, want, l.Iterator().Next)
		}
	}
	if len(ks) > 0 {
		end("Minimum", t.Minimum(), ks[:1])
		end("Maximum", t.Maximum(), rev[:1])
	} else {
		end("Minimum", t.Minimum(), nil)
		end("Maximum", t.Maximum(), nil)
	}
	for _, p := range probes {
		one(p)
		var path, from, upto []string
		for _, k := range ks {
			if strings.HasPrefix(p, k) {
				path = append(path, k)
			}
			if k >= p {
				from = append(from, k)
			}
		}
		for _, k := range rev {
			if k <= p {
				upto = append(upto, k)
			}
		}
		if k, v, ok := t.LongestPrefix([]byte(p)); ok != (len(path) > 0) || ok && (string(k) != path[len(path)-1] || !kind.same(v, m[string(k)])) {
			failf("LongestPrefix(%q) on a tree of %s = %q,%v,%v want %q", p, kind.name, k, v, ok, path)
		}
		if len(ks) > 60 {
			continue
		}
		seq(fmt.Sprintf("path iteration %q", p), path, t.GetPathIterator([]byte(p)).Next)
		lb := root.LowerBoundIterator()
		lb.SeekLowerBound([]byte(p))
		seq(fmt.Sprintf("lower-bound iteration %q", p), from, lb.Next)
		rlb := root.ReverseIterator()
		rlb.SeekReverseLowerBound([]byte(p))
		seq(fmt.Sprintf("reverse lower-bound iteration %q", p), upto, rlb.Previous)
	}
}
