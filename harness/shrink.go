package main

import "time"

// shrink reduces a failing case while fails keeps reporting true.
func shrink(c *testCase, fails func(*testCase) bool, budget int, limit time.Duration) *testCase {
	deadline := time.Now().Add(limit)
	try := func(n *testCase) bool {
		if budget <= 0 || time.Now().After(deadline) {
			return false
		}
		budget--
		if fails(n) {
			c = n
			return true
		}
		return false
	}
	get := func(which int) []op {
		if which == 0 {
			return c.Ops
		}
		return c.Ops2
	}
	with := func(which int, ops []op) *testCase {
		n := &testCase{Ops: c.Ops, Ops2: c.Ops2, Perm: c.Perm}
		if which == 0 {
			n.Ops = ops
		} else {
			n.Ops2 = ops
		}
		return n
	}
	for round := 0; round < 8; round++ {
		before := caseSize(c)
		for which := 0; which < 2; which++ {
			// remove chunks of operations
			for size := len(get(which)); size >= 1; size /= 2 {
				for i := 0; i < len(get(which)); {
					ops := get(which)
					j := i + size
					if j > len(ops) {
						j = len(ops)
					}
					n := append(append([]op(nil), ops[:i]...), ops[j:]...)
					if !try(with(which, n)) {
						i = j
					}
				}
			}
			// simplify single operations
			for i := 0; i < len(get(which)); i++ {
				set := func(f func(o *op)) bool {
					ops := append([]op(nil), get(which)...)
					f(&ops[i])
					if sameOp(ops[i], get(which)[i]) {
						return false
					}
					return try(with(which, ops))
				}
				if o := get(which)[i]; o.O == opBins || o.O == opBdel {
					for set(func(o *op) { o.N /= 2 }) {
					}
					for set(func(o *op) {
						if o.N > 0 {
							o.N--
						}
					}) {
					}
					set(func(o *op) { o.Q = famFan })
					set(func(o *op) { o.B = 1 })
					set(func(o *op) { o.A = 'a' })
					if o := get(which)[i]; o.N == 1 {
						set(func(o *op) {
							k := []byte(o.bulkKeys()[0])
							kind := opIns
							if o.O == opBdel {
								kind = opDel
							}
							if o.X == 1 {
								kind = "t" + kind
							}
							*o = op{O: kind, K: k}
						})
					}
				}
				switch get(which)[i].O {
				case opTins:
					set(func(o *op) { o.O = opIns })
				case opTdel:
					set(func(o *op) { o.O = opDel })
				case opTdlp:
					set(func(o *op) { o.O = opDlp })
				}
				for _, field := range []int{0, 1} {
					f := func(o *op) *hexKey {
						if field == 0 {
							return &o.K
						}
						return &o.S
					}
					cur := func() hexKey { o := get(which)[i]; return *f(&o) }
					for size := len(cur()); size >= 1; size /= 2 {
						for at := 0; at+size <= len(cur()); {
							k := cur()
							nk := cat(k[:at], k[at+size:])
							if !set(func(o *op) { *f(o) = nk }) {
								at += size
							}
						}
					}
				}
				for _, f := range []func(o *op){
					func(o *op) { o.N = 0 }, func(o *op) { o.A = 0 },
				} {
					if o := get(which)[i]; o.O != opBins && o.O != opBdel && o.O != opIter {
						set(f)
					}
				}
			}
		}
		// drop the same byte position from all keys, then rename bytes
		for pos := 0; pos < 40; pos++ {
			for try(dropAt(c, pos)) {
			}
		}
		for b := 0; b < 256; b++ {
			if usesByte(c, byte(b)) {
				for _, to := range []byte{'a', 'b', 'c'} {
					if byte(b) != to && !usesByte(c, to) {
						if try(rename(c, byte(b), to)) {
							break
						}
					}
				}
			}
		}
		if caseSize(c) >= before || budget <= 0 {
			break
		}
	}
	return c
}

func caseSize(c *testCase) int {
	n := 0
	for _, ops := range [][]op{c.Ops, c.Ops2} {
		for _, o := range ops {
			n += 10 + len(o.K) + len(o.S) + o.N
		}
	}
	return n
}

func sameOp(a, b op) bool {
	return a.O == b.O && string(a.K) == string(b.K) && string(a.S) == string(b.S) && a.N == b.N && a.A == b.A && a.B == b.B && a.X == b.X && a.Q == b.Q
}

func mapKeys(c *testCase, f func(k hexKey) hexKey) *testCase {
	n := c.clone()
	for _, ops := range [][]op{n.Ops, n.Ops2} {
		for i := range ops {
			ops[i].K = f(ops[i].K)
			ops[i].S = f(ops[i].S)
		}
	}
	return n
}

func dropAt(c *testCase, pos int) *testCase {
	changed := false
	n := mapKeys(c, func(k hexKey) hexKey {
		if pos < len(k) {
			changed = true
			return cat(k[:pos], k[pos+1:])
		}
		return k
	})
	if !changed {
		return &testCase{}
	}
	return n
}

func usesByte(c *testCase, b byte) bool {
	for _, ops := range [][]op{c.Ops, c.Ops2} {
		for _, o := range ops {
			for _, x := range o.K {
				if x == b {
					return true
				}
			}
			for _, x := range o.S {
				if x == b {
					return true
				}
			}
		}
	}
	return false
}

func rename(c *testCase, from, to byte) *testCase {
	return mapKeys(c, func(k hexKey) hexKey {
		n := cat(k)
		for i := range n {
			if n[i] == from {
				n[i] = to
			}
		}
		return n
	})
}
