package main

import "bytes"

// rng is splitmix64: small, fast and fully determined by its seed.
type rng struct{ s uint64 }

func (r *rng) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *rng) n(k int) int {
	if k <= 0 {
		return 0
	}
	return int(r.next() % uint64(k))
}

func (r *rng) pct(p int) bool           { return r.n(100) < p }
func (r *rng) pickS(a ...string) string { return a[r.n(len(a))] }

func (r *rng) pick(a ...int) int   { return a[r.n(len(a))] }
func (r *rng) pickB(a []byte) byte { return a[r.n(len(a))] }

func caseRng(seed uint64, prop string, idx uint64) *rng {
	h := seed*0x9e3779b97f4a7c15 + 0x1234567
	for i := 0; i < len(prop); i++ {
		h = (h ^ uint64(prop[i])) * 0x100000001b3
	}
	r := &rng{s: h ^ (idx * 0xd1342543de82ef95)}
	r.next()
	return r
}

// profile weighs the operation kinds of a property's histories.
type profile struct {
	ins, del, dlp         int // tree level
	beg, tins, tdel, tdlp int
	trk, com, cmo, ntf    int
	abt, cln, swt, frk    int
	tcl, nw, q, tq        int
	w, wp, tw, twp        int
	it, st                int
	bulk                  int // percentage of cases with bulk operations
	trackPct              int // percentage of tracked transactions
	maxOps                int
	noLong                bool
	keepOpen              int  // percentage of commits that keep using the transaction
	filled                int  // percentage of cases that start with a few inserts
	deepMax               int  // longest of these chains
	mass                  int  // cases in 100000 that start with a family of up to 70000 keys
	rounds                int  // genWatch: up to this many further transactions per case, most without new watches
	deep                  int  // cases in 100000 that start with a chain of 300 to 1500 nested keys
	hot                   int  // cases in 100000 that write one key up to 600 times in a row
	churn                 int  // cases in 100000 with a transaction of up to 40000 writes without net effect
	huge                  int  // watch cases in 100000 with a transaction of up to 120000 writes
	own                   bool // genWatch: take watches mostly inside transactions
	same                  bool // genWatch: operations without effect between watches and writes
	remote                bool // genWatch: mostly write keys that leave the watched ones early
}

var (
	profTree  = profile{hot: 150, ins: 50, del: 25, q: 6, beg: 4, tins: 10, tdel: 6, com: 5, abt: 1, frk: 2, bulk: 18, maxOps: 70, mass: 20, churn: 60}
	profTxn   = profile{hot: 150, ins: 8, del: 3, dlp: 1, q: 6, tq: 6, beg: 8, tins: 40, tdel: 20, tdlp: 5, com: 5, cmo: 3, abt: 3, frk: 2, trk: 1, bulk: 18, maxOps: 70, trackPct: 20, mass: 30, churn: 100}
	profFork  = profile{hot: 2500, ins: 30, del: 14, dlp: 4, beg: 7, tins: 22, tdel: 12, tdlp: 3, com: 5, cmo: 3, abt: 3, cln: 2, swt: 2, frk: 10, tcl: 2, trk: 1, bulk: 12, maxOps: 40, trackPct: 30, filled: 40, mass: 10, churn: 1500}
	profClone = profile{hot: 150, ins: 8, del: 3, beg: 8, tins: 40, tdel: 16, tdlp: 4, com: 5, cmo: 5, abt: 2, cln: 10, swt: 14, frk: 4, trk: 1, bulk: 12, maxOps: 50, trackPct: 30, keepOpen: 60, filled: 40, mass: 10, churn: 200}
	profScan  = profile{ins: 40, del: 16, dlp: 3, q: 16, tq: 4, beg: 4, tins: 14, tdel: 7, tdlp: 2, com: 4, abt: 1, frk: 2, bulk: 25, maxOps: 50, mass: 30, churn: 60, deep: 12, deepMax: 1200}
	profPath  = profile{ins: 40, del: 16, dlp: 3, q: 16, tq: 4, beg: 4, tins: 14, tdel: 7, tdlp: 2, com: 4, abt: 1, frk: 2, bulk: 25, maxOps: 50, mass: 30, churn: 60, deepMax: 60}
	profDlp   = profile{hot: 100, ins: 40, del: 8, dlp: 14, beg: 5, tins: 18, tdel: 5, tdlp: 10, com: 4, cmo: 1, abt: 1, frk: 2, bulk: 25, maxOps: 50, trackPct: 20, mass: 30, churn: 100}

	profWatchKey    = profile{hot: 300, ins: 18, del: 6, dlp: 1, w: 30, wp: 0, tw: 4, beg: 14, tins: 22, tdel: 12, tdlp: 3, com: 14, cmo: 3, ntf: 3, abt: 3, cln: 1, frk: 1, trk: 1, bulk: 18, maxOps: 50, trackPct: 92, keepOpen: 12, deep: 60, mass: 15, huge: 6, churn: 40}
	profWatchPrefix = profile{hot: 150, ins: 18, del: 6, dlp: 1, w: 0, wp: 30, tw: 0, beg: 14, tins: 22, tdel: 12, tdlp: 3, com: 14, cmo: 3, ntf: 3, abt: 3, cln: 1, frk: 1, trk: 1, bulk: 18, maxOps: 50, trackPct: 92, keepOpen: 12, deep: 60, mass: 15, huge: 6, churn: 40}
	profWatchAll    = profile{hot: 200, ins: 18, del: 6, dlp: 1, w: 24, wp: 10, tw: 3, beg: 14, tins: 22, tdel: 14, tdlp: 3, com: 12, cmo: 4, ntf: 3, abt: 4, cln: 1, frk: 1, trk: 2, bulk: 18, maxOps: 50, trackPct: 75, keepOpen: 12, deep: 60, mass: 15, huge: 3, churn: 40}
	profWatchChain  = profile{hot: 300, ins: 4, del: 2, w: 18, wp: 14, tw: 2, beg: 16, tins: 26, tdel: 14, tdlp: 2, com: 18, cmo: 3, ntf: 3, abt: 3, frk: 1, bulk: 18, maxOps: 60, trackPct: 97, keepOpen: 30, filled: 60, rounds: 8, deep: 60, mass: 15, huge: 4}

	profWatchLocal = profile{ins: 14, del: 4, w: 14, wp: 24, beg: 14, tins: 20, tdel: 12, tdlp: 3, com: 14, cmo: 3, ntf: 3, abt: 3, frk: 1, trk: 1, bulk: 18, maxOps: 60, trackPct: 95, keepOpen: 20, filled: 50, remote: true, deep: 60, mass: 10}

	profWatchSame = profile{ins: 8, del: 8, dlp: 3, w: 14, wp: 14, beg: 14, tins: 22, tdel: 14, tdlp: 3, com: 16, cmo: 4, ntf: 3, abt: 3, frk: 6, tcl: 8, bulk: 18, maxOps: 60, trackPct: 90, keepOpen: 15, filled: 50, same: true, deep: 60, mass: 10}

	profWatchOwn = profile{hot: 300, ins: 8, del: 3, w: 2, wp: 2, tw: 20, twp: 20, beg: 10, tins: 30, tdel: 18, tdlp: 3, com: 10, cmo: 4, ntf: 3, abt: 2, cln: 2, swt: 1, frk: 1, trk: 1, bulk: 18, maxOps: 60, trackPct: 97, keepOpen: 40, filled: 50, own: true, deep: 60, mass: 15, huge: 4, churn: 40}

	profValues  = profile{ins: 30, del: 12, dlp: 2, beg: 6, tins: 25, tdel: 10, tdlp: 2, com: 6, cmo: 2, abt: 2, q: 6, frk: 2, bulk: 12, maxOps: 40}
	profShare   = profile{ins: 40, del: 25, dlp: 5, beg: 6, tins: 18, tdel: 10, tdlp: 3, com: 8, cmo: 2, abt: 1, frk: 4, tcl: 2, bulk: 25, maxOps: 40, filled: 70, mass: 5}
	profReclaim = profile{ins: 30, del: 20, dlp: 4, beg: 8, tins: 25, tdel: 16, tdlp: 4, com: 8, cmo: 3, ntf: 2, abt: 2, cln: 2, swt: 2, trk: 1, q: 4, frk: 2, tcl: 1, bulk: 25, maxOps: 50, trackPct: 40, filled: 30}
	profAlias   = profile{hot: 100, ins: 30, del: 12, dlp: 3, q: 14, tq: 4, beg: 5, tins: 18, tdel: 8, tdlp: 2, com: 4, cmo: 1, abt: 1, cln: 1, frk: 2, bulk: 8, maxOps: 40, mass: 10}
	profRetain  = profile{ins: 24, del: 14, dlp: 3, q: 12, tq: 8, beg: 6, tins: 22, tdel: 12, tdlp: 2, com: 5, cmo: 2, abt: 1, cln: 1, swt: 1, frk: 3, bulk: 10, maxOps: 50, keepOpen: 20, filled: 60, mass: 5}
	profApart   = profile{hot: 100, ins: 20, del: 10, dlp: 2, nw: 7, w: 8, wp: 8, tw: 2, twp: 2, beg: 8, tins: 22, tdel: 12, tdlp: 2, com: 8, cmo: 3, ntf: 3, abt: 2, cln: 1, swt: 8, frk: 10, tcl: 1, bulk: 12, maxOps: 60, trackPct: 85, keepOpen: 50, filled: 85}
	profConc    = profile{ins: 26, del: 12, dlp: 3, beg: 10, tins: 26, tdel: 12, tdlp: 2, com: 9, cmo: 2, ntf: 2, abt: 3, frk: 2, bulk: 15, maxOps: 60, trackPct: 70, noLong: true}
	profHist    = profile{ins: 40, del: 18, dlp: 5, beg: 5, tins: 16, tdel: 8, tdlp: 3, com: 5, cmo: 1, abt: 1, frk: 2, bulk: 20, maxOps: 50, filled: 50}
	profIter    = profile{ins: 26, del: 12, dlp: 3, it: 14, st: 24, beg: 6, tins: 18, tdel: 9, tdlp: 2, com: 5, cmo: 3, abt: 2, cln: 1, frk: 3, trk: 1, bulk: 15, maxOps: 70, trackPct: 25, keepOpen: 20, filled: 75, mass: 10, churn: 50}
)

// universe produces related keys for one case.
type universe struct {
	r     *rng
	alpha []byte
	stems [][]byte
	pool  [][]byte
}

var alphabets = [][]byte{
	{'a', 'b'},
	{'a', 'b', 'c', 'd', 'e', 'f', 'g'},
	{0x00, 0x01},
	{0x00, 0xff},
	{0xfe, 0xff},
	{'#', '$', '%'},
	{0x00, '$', 0xff, 'a'},
	{'$'},
	{0x7f, 0x80, 0x81},
	nil, // all bytes
}

func (u *universe) b() byte {
	if u.alpha == nil || u.r.pct(4) {
		return byte(u.r.next())
	}
	return u.r.pickB(u.alpha)
}

func (u *universe) short(max int) []byte {
	n := u.r.n(max + 1)
	out := make([]byte, n)
	for i := range out {
		out[i] = u.b()
	}
	return out
}

func cat(a ...[]byte) []byte {
	var out []byte
	for _, x := range a {
		out = append(out, x...)
	}
	return out
}

func newUniverse(r *rng, noLong bool) *universe {
	u := &universe{r: r, alpha: alphabets[r.n(len(alphabets))]}
	ns := 1 + r.n(3)
	for i := 0; i < ns; i++ {
		var l int
		switch x := r.n(100); {
		case x < 22:
			l = r.n(4)
		case x < 40:
			l = 4 + r.n(4)
		case x < 72:
			l = 8 + r.n(5) // around the stored prefix limit
		case x < 90:
			l = 18 + r.n(6)
		case x < 98 || noLong:
			l = 24 + r.n(24)
		default:
			l = r.pick(255, 256, 257, 300, 1000)
		}
		s := make([]byte, l)
		if i > 0 && r.pct(60) {
			// diverge from an earlier stem at some position
			prev := u.stems[r.n(len(u.stems))]
			copy(s, prev)
			at := 0
			if len(prev) < l {
				at = len(prev)
			}
			if l > 0 {
				cut := r.n(l)
				if cut < at || r.pct(70) {
					at = cut
				}
			}
			for j := at; j < l; j++ {
				s[j] = u.b()
			}
		} else {
			same := r.pct(30)
			c := u.b()
			for j := range s {
				if same {
					s[j] = c
				} else {
					s[j] = u.b()
				}
			}
		}
		u.stems = append(u.stems, s)
	}
	n := 2 + r.n(22)
	if r.pct(15) {
		n = 2 + r.n(4)
	}
	for i := 0; i < n; i++ {
		u.pool = append(u.pool, u.fresh())
	}
	return u
}

// fresh builds a key related to the stems and to the keys made so far.
func (u *universe) fresh() []byte {
	r := u.r
	stem := u.stems[r.n(len(u.stems))]
	var old []byte
	if len(u.pool) > 0 {
		old = u.pool[r.n(len(u.pool))]
	}
	switch x := r.n(100); {
	case x < 14:
		return u.short(4)
	case x < 44:
		return cat(stem, u.short(3))
	case x < 54:
		return cat(stem[:r.n(len(stem)+1)])
	case x < 62:
		return cat(stem[:r.n(len(stem)+1)], u.short(3))
	case x < 76:
		return cat(old, u.short(3))
	case x < 84:
		return cat(old[:r.n(len(old)+1)])
	case x < 93:
		if len(old) == 0 {
			return u.short(2)
		}
		k := cat(old)
		k[r.n(len(k))] = u.b()
		return k
	case x < 97:
		return cat(old, stem)
	case x < 98:
		return nil
	default:
		return u.short(8)
	}
}

func (u *universe) key() []byte {
	if u.r.pct(88) {
		return u.pool[u.r.n(len(u.pool))]
	}
	return u.fresh()
}

// query is a key biased to the neighbourhood of stored keys.
func (u *universe) query() []byte {
	r := u.r
	k := cat(u.pool[r.n(len(u.pool))])
	switch x := r.n(100); {
	case x < 34:
		return k
	case x < 50:
		return k[:r.n(len(k)+1)]
	case x < 62:
		return cat(k, u.short(3))
	case x < 74:
		if len(k) > 0 {
			k[len(k)-1] += byte(r.pick(1, 255))
		}
		return k
	case x < 86:
		if len(k) > 0 {
			k[r.n(len(k))] += byte(r.pick(1, 255, 2, 128))
		}
		return k
	default:
		return u.fresh()
	}
}

func (u *universe) bulk(del bool, inTxn bool) op {
	r := u.r
	o := op{O: opBins, K: u.pool[r.n(len(u.pool))]}
	if r.pct(40) {
		o.K = u.stems[r.n(len(u.stems))]
	}
	if len(o.K) > 60 {
		o.K = o.K[:r.n(60)]
	}
	if r.pct(15) {
		o.K = nil
	}
	o.K = cat(o.K)
	o.N = r.pick(2, 3, 4, 5, 6, 11, 12, 13, 14, 15, 16, 17, 18, 20, 36, 37, 38, 40, 46, 47, 48, 49, 50, 52, 60, 100, 200, 255, 256)
	o.A = r.pick(0, 1, 0x20, '$', 'a', 0x80, 0xf0, r.n(256))
	o.B = r.pick(1, 1, 255, 3, 5, 7, 37, 101)
	if r.pct(35) {
		o.S = u.short(3)
	} else if r.pct(15) {
		o.S = cat(u.stems[r.n(len(u.stems))])
		if len(o.S) > 40 {
			o.S = o.S[:40]
		}
	}
	if del {
		o.O = opBdel
	}
	if inTxn {
		o.X = 1
	}
	return o
}

// large is a family that makes the tree deep (a chain of keys that prefix each
// other) or, rarely, big.
func (u *universe) large(p *profile) (op, bool) {
	r := u.r
	big := r.n(100000) < p.mass
	deep := p.deep > 0 && r.n(100000) < p.deep
	if !big && !deep && !r.pct(2) {
		return op{}, false
	}
	o := op{O: opBins, X: r.n(2), K: cat(u.pool[r.n(len(u.pool))])}
	if len(o.K) > 60 {
		o.K = o.K[:r.n(60)]
	}
	if deep || !big || r.pct(30) {
		o.Q = famChain
		o.N = 8 + r.n(40)
		o.S = cat([]byte{u.b()}, u.short(2))
		if r.pct(15) {
			o.S = cat(o.S, u.stems[0][:min(len(u.stems[0]), 14)])
		}
		if deep {
			o.N = r.pick(300, 400, 700, 1500)
			o.S = o.S[:1]
		} else if big {
			o.N = r.pick(300, 1000, 2000)
			o.S = o.S[:1]
		}
		if r.pct(50) {
			// branches at every level, before or behind the rest of the chain
			o.Q = famComb
			o.A = int(u.b())
			if r.pct(50) {
				o.A = r.pick(0, 255)
			}
		}
		if o.Q == famComb {
			// some iterators take quadratic time on these
			o.N = min(o.N, max(60, p.deepMax))
		} else if deep && p.deepMax > 0 {
			o.N = min(o.N, p.deepMax)
		}
	} else {
		o.Q = famCounter
		o.N = r.pick(300, 300, 1000, 1000, 3000, 3000, 9000, 9000, 9000, 20000, 70000)
		o.A = r.pick(0, 0, 1, 250, 0xff00, r.n(1<<20))
		o.B = r.pick(1, 1, 3, 255, 257)
		o.S = u.short(1)
	}
	for i := 0; i < 6; i++ {
		one := o
		one.N = 1
		if n := r.n(o.N); o.Q == famCounter {
			one.A += n * o.B
			u.pool = append(u.pool, []byte(one.bulkKeys()[0]))
		} else {
			u.pool = append(u.pool, cat(o.K, bytes.Repeat(o.S, n+1)))
			if o.Q == famComb {
				u.pool = append(u.pool, cat(o.K, bytes.Repeat(o.S, n), []byte{byte(o.A)}))
			}
		}
	}
	return o, true
}

// genHistory builds a history according to the profile.
func genHistory(r *rng, p *profile) []op {
	u := newUniverse(r, p.noLong)
	var ops []op
	n := 1 + r.n(10)
	switch x := r.n(100); {
	case x < 45:
	case x < 85:
		n = 8 + r.n(p.maxOps/2)
	default:
		n = p.maxOps/2 + r.n(p.maxOps)
	}
	total := p.ins + p.del + p.dlp + p.beg + p.tins + p.tdel + p.tdlp + p.trk + p.com + p.cmo + p.ntf + p.abt + p.cln + p.swt + p.frk + p.tcl + p.nw + p.q + p.tq + p.w + p.wp + p.tw + p.twp + p.it + p.st
	open := false
	var bulks []op
	useBulk := r.pct(p.bulk)
	addBulk := func() {
		if len(bulks) > 0 && r.pct(65) {
			// shrink (or refill) an existing family down to around a threshold
			o := bulks[r.n(len(bulks))]
			d := o
			d.K, d.S = cat(o.K), cat(o.S)
			keep := r.pick(0, 1, 2, 3, 4, 5, 11, 12, 13, 15, 16, 17, 36, 37, 38, 47, 48, 49)
			if r.pct(70) {
				d.O = opBdel
				if keep < o.N {
					if r.pct(50) {
						d.N = o.N - keep
					} else {
						d.A = o.A + keep*o.B
						d.N = o.N - keep
					}
				}
			} else {
				d.O = opBins
				d.N = r.n(o.N + 1)
			}
			d.X = 0
			if open && r.pct(60) {
				d.X = 1
			}
			ops = append(ops, d)
			return
		}
		o := u.bulk(false, open && r.pct(60))
		bulks = append(bulks, o)
		ops = append(ops, o)
		// the members of the family become keys of the case
		ks := o.bulkKeys()
		for i := 0; i < 4; i++ {
			u.pool = append(u.pool, []byte(ks[r.n(len(ks))]))
		}
	}
	begin := func() {
		o := op{O: opBeg}
		if r.pct(p.trackPct) {
			o.N = 1
		}
		ops = append(ops, o)
		open = true
	}
	if useBulk && r.pct(70) {
		if p.beg > 0 && r.pct(40) {
			begin()
		}
		addBulk()
	}
	if f, ok := u.large(p); ok {
		ops = append(ops, f)
	}
	if r.n(100000) < p.churn {
		ops = append(ops, op{O: opChurn, K: cat(u.key()), N: r.pick(300, 3000, 20000, 20000)})
	}
	if r.pct(p.filled) {
		for i := 2 + r.n(9); i > 0; i-- {
			ops = append(ops, op{O: opIns, K: cat(u.key())})
		}
		for i := r.n(3); p.nw > 0 && i >= 0; i-- {
			// two unrelated trees to begin with
			ops = append(ops, op{O: opWatch, K: cat(u.key())}, op{O: opWpre, K: cat(u.query())})
			if i == 0 {
				ops = append(ops, op{O: opNew})
			}
			ops = append(ops, op{O: opIns, K: cat(u.key())})
		}
	}
	if r.n(100000) < p.hot {
		o := op{O: opHot, K: cat(u.key()), A: r.n(4), N: r.pick(18, 40, 70, 140, 270, 300, 600)}
		if r.pct(p.trackPct) {
			o.X = 1
		}
		if p.w+p.wp+p.tw+p.twp > 0 && o.A == 2 && o.N > 140 {
			o.N = 40
		}
		ops = append(ops, o)
	}
	for i := 0; i < n; i++ {
		if useBulk && r.pct(8) {
			addBulk()
			continue
		}
		x := r.n(total)
		take := func(w int) bool {
			if x < w {
				x = 1 << 30
				return true
			}
			x -= w
			return false
		}
		switch {
		case take(p.ins):
			ops = append(ops, op{O: opIns, K: cat(u.key())})
		case take(p.del):
			k := u.key()
			if r.pct(20) {
				k = u.query()
			}
			ops = append(ops, op{O: opDel, K: cat(k)})
		case take(p.dlp):
			ops = append(ops, op{O: opDlp, K: cat(u.query())})
		case take(p.beg):
			begin()
		case take(p.tins):
			if !open {
				begin()
			}
			ops = append(ops, op{O: opTins, K: cat(u.key())})
		case take(p.tdel):
			if !open {
				begin()
			}
			k := u.key()
			if r.pct(20) {
				k = u.query()
			}
			ops = append(ops, op{O: opTdel, K: cat(k)})
		case take(p.tdlp):
			if !open {
				begin()
			}
			ops = append(ops, op{O: opTdlp, K: cat(u.query())})
		case take(p.trk):
			ops = append(ops, op{O: opTrk, N: r.n(2)})
		case take(p.com):
			ops = append(ops, op{O: opCom})
			if !r.pct(p.keepOpen) {
				ops = append(ops, op{O: opAbt})
				open = false
			}
		case take(p.cmo):
			ops = append(ops, op{O: opCmo})
			if p.ntf > 0 && r.pct(60) {
				ops = append(ops, op{O: opNtf})
			}
			if !r.pct(p.keepOpen) {
				ops = append(ops, op{O: opAbt})
				open = false
			}
		case take(p.ntf):
			ops = append(ops, op{O: opNtf})
		case take(p.abt):
			ops = append(ops, op{O: opAbt})
			open = false
		case take(p.cln):
			if !open {
				begin()
			}
			ops = append(ops, op{O: opCln})
		case take(p.swt):
			ops = append(ops, op{O: opSwt, N: r.n(4)})
		case take(p.frk):
			ops = append(ops, op{O: opFrk, N: r.n(6)})
		case take(p.tcl):
			ops = append(ops, op{O: opTcl})
		case take(p.nw):
			ops = append(ops, op{O: opNew})
		case take(p.q):
			ops = append(ops, op{O: opQuery, K: cat(u.query())})
		case take(p.tq):
			ops = append(ops, op{O: opTq, K: cat(u.query())})
		case take(p.w):
			ops = append(ops, op{O: opWatch, K: cat(u.query())})
		case take(p.wp):
			ops = append(ops, op{O: opWpre, K: cat(u.query()), N: r.n(2)})
		case take(p.tw):
			ops = append(ops, op{O: opTw, K: cat(u.query())})
		case take(p.twp):
			ops = append(ops, op{O: opTwp, K: cat(u.query()), N: r.n(2)})
		case take(p.it):
			ops = append(ops, op{O: opIter, N: r.n(numIterKinds), K: cat(u.query())})
		case take(p.st):
			ops = append(ops, op{O: opStep, N: r.n(8), A: r.pick(0, 0, 0, 1, 3, 10)})
		}
	}
	// occasionally one very long key
	if !p.noLong && r.pct(1) && r.pct(40) {
		l := r.pick(300, 1000, 5000, 70000)
		k := make([]byte, l)
		for i := range k {
			k[i] = u.b()
		}
		o := op{O: opIns, K: k}
		at := r.n(len(ops) + 1)
		ops = append(ops[:at:at], append([]op{o}, ops[at:]...)...)
		k2 := cat(k)
		k2[r.n(len(k2))] ^= 1
		ops = append(ops, op{O: opIns, K: k2}, op{O: opDel, K: cat(k)})
	}
	return ops
}

func genCase(p *property, seed uint64, idx uint64) *testCase {
	r := caseRng(seed, p.id, idx)
	if p.gen != nil {
		return p.gen(r, p)
	}
	return &testCase{Ops: genHistory(r, &p.prof), Perm: r.next()}
}

// genWatch builds histories in rounds: watches are taken on the current tree,
// before or during a transaction that mostly writes close to the watched keys.
// Half of the cases are unstructured histories of the profile instead.
func genWatch(r *rng, p *property) *testCase {
	if r.pct(40) {
		return &testCase{Ops: genHistory(r, &p.prof), Perm: r.next()}
	}
	u := newUniverse(r, true)
	var ops []op
	add := func(o op) { ops = append(ops, o) }
	// contents
	if r.pct(35) {
		o := u.bulk(false, false)
		add(op{O: opBeg})
		o.X = 1
		add(o)
		add(op{O: opCom})
		add(op{O: opAbt})
		ks := o.bulkKeys()
		for i := 0; i < 6; i++ {
			u.pool = append(u.pool, []byte(ks[r.n(len(ks))]))
		}
		if r.pct(50) {
			// come close to a threshold from above
			d := o
			d.O, d.X = opBdel, 0
			if keep := r.pick(1, 2, 3, 4, 5, 12, 13, 14, 37, 38, 39, 48, 49); keep < d.N {
				d.A += keep * d.B
				d.N -= keep
				d.X = 1
				add(op{O: opBeg})
				add(d)
				add(op{O: opCom})
				add(op{O: opAbt})
			}
		}
	}
	for i, n := 0, r.n(14); i < n; i++ {
		if r.pct(85) {
			add(op{O: opIns, K: cat(u.key())})
		} else {
			add(op{O: opDel, K: cat(u.key())})
		}
	}
	mass, useMass := u.large(&p.prof)
	huge := r.n(100000) < p.prof.huge
	if huge {
		// one transaction that touches very many nodes before the watched ones
		useMass = true
		mass = op{O: opBins, Q: famCounter, N: r.pick(20000, 70000, 120000), K: cat(u.pool[r.n(len(u.pool))]), A: r.n(256), B: r.pick(1, 1, 3)}
		if len(mass.K) > 60 {
			mass.K = mass.K[:r.n(60)]
		}
	}
	mass.X = 1
	if useMass && (r.pct(50) || mass.Q >= famChain && r.pct(50)) {
		useMass = huge
		mass.X = 0
		add(mass)
		mass.X = 1
	}
	var watched [][]byte
	watch := func(inTxn bool) {
		k := cat(u.query())
		watched = append(watched, k)
		x := r.n(p.prof.w + p.prof.wp + p.prof.tw + p.prof.twp)
		switch {
		case x < p.prof.w:
			add(op{O: opWatch, K: k})
		case x < p.prof.w+p.prof.wp:
			add(op{O: opWpre, K: k, N: r.n(2)})
		case inTxn && x < p.prof.w+p.prof.wp+p.prof.tw:
			add(op{O: opTw, K: k})
		case inTxn:
			add(op{O: opTwp, K: k, N: r.n(2)})
		case p.prof.w > 0:
			add(op{O: opWatch, K: k})
		}
	}
	target := func() []byte {
		if len(watched) == 0 || r.pct(35) {
			return cat(u.key())
		}
		k := cat(watched[r.n(len(watched))])
		if p.prof.remote && r.pct(75) {
			return cat(k[:r.n(len(k)/2+1)], u.short(3))
		}
		switch x := r.n(100); {
		case x < 45:
		case x < 70:
			k = cat(k, u.short(3))
		case x < 80:
			k = k[:r.n(len(k)+1)]
		case len(k) > 0:
			k[r.n(len(k))] = u.b()
		}
		if r.pct(30) {
			u.pool = append(u.pool, cat(k))
		}
		return k
	}
	rounds := 1 + r.n(4)
	if p.prof.rounds > 0 {
		rounds = 2 + r.n(p.prof.rounds)
	}
	for i := 0; i < rounds; i++ {
		if i == 0 || p.prof.rounds == 0 || r.pct(30) {
			for j, n := 0, r.n(6); j < n || huge && j < 3; j++ {
				watch(false)
			}
		}
		if r.pct(12) {
			// an abandoned or untracked transaction comes first
			add(op{O: opBeg, N: r.n(2)})
			for j, n := 0, 1+r.n(3); j < n; j++ {
				add(op{O: opTins, K: target()})
			}
			add(op{O: opAbt})
			for j, n := 0, r.n(3); j < n; j++ {
				watch(false)
			}
		}
		if p.prof.same {
			for j, n := 0, r.n(4); j < n; j++ {
				missing := op{O: opDel, K: cat(target(), u.short(2))}
				if r.pct(30) {
					missing.O = opDlp
				}
				switch r.n(6) {
				case 0, 1:
					add(op{O: opTcl})
				case 2, 3:
					add(missing)
				default:
					add(op{O: opBeg, N: r.n(2)})
					if r.pct(60) {
						missing.O = map[string]string{opDel: opTdel, opDlp: opTdlp}[missing.O]
						add(missing)
					}
					add(op{O: r.pickS(opCom, opCmo)})
					add(op{O: opAbt})
				}
				if r.pct(30) {
					watch(false)
				}
				if r.pct(30) {
					add(op{O: opFrk, N: r.n(4)})
				}
			}
		}
		b := op{O: opBeg}
		if r.pct(p.prof.trackPct) {
			b.N = 1
		}
		add(b)
		if useMass && (huge && i == 0 || !huge && r.pct(50)) {
			add(mass)
			if r.pct(50) {
				mass.O = opBdel
			}
		}
		n := 1 + r.n(3)
		if r.pct(15) {
			n += r.n(8)
		}
		if p.prof.own {
			n += r.n(6)
		}
		for j := 0; j < n; j++ {
			if p.prof.own && r.pct(50) {
				watch(true)
			}
			switch x := r.n(100); {
			case x < 55:
				add(op{O: opTins, K: target()})
			case x < 88:
				add(op{O: opTdel, K: target()})
			case x < 96:
				add(op{O: opTdlp, K: target()})
			default:
				add(op{O: opTrk, N: r.n(2)})
			}
			if r.pct(15) {
				watch(true)
			}
			if r.pct(4) {
				// another transaction, begun and finished meanwhile
				add(op{O: opBeg, N: r.pick(0, 1, 1, 1)})
				for k, n := 0, r.n(4); k < n; k++ {
					add(op{O: r.pickS(opTins, opTins, opTdel, opTdlp), K: target()})
				}
				add(op{O: r.pickS(opCom, opCom, opCmo)})
				add(op{O: opAbt})
				if r.pct(50) {
					add(op{O: opFrk, N: 1})
				}
			}
		}
		if r.pct(25) {
			add(op{O: opCmo})
			if r.pct(30) {
				watch(true)
			}
			if r.pct(75) {
				add(op{O: opNtf})
			}
		} else {
			add(op{O: opCom})
		}
		if !r.pct(p.prof.keepOpen) {
			add(op{O: opAbt})
		}
	}
	return &testCase{Ops: ops, Perm: r.next()}
}
