package main

import (
	"fmt"
	"hash/fnv"
	"io"
	"sort"
	"strconv"
	"strings"

	adaptive "github.com/absolutelightning/go-immutable-adaptive-radix"
)

func newTree() *tree { return adaptive.NewRadixTree[int]() }

type kv struct {
	k string
	v int
}

// limitFor bounds a scan so that a cyclic traversal ends in a mismatch, not a hang.
func limitFor(m *model) int { return 2*len(m.m) + 64 }

func fmtKVs(a []kv) string {
	var b strings.Builder
	b.WriteByte('[')
	for i, e := range a {
		if i >= 40 {
			fmt.Fprintf(&b, " ...%d total", len(a))
			break
		}
		if i > 0 {
			b.WriteByte(' ')
		}
		k := e.k
		if len(k) > 60 {
			k = k[:60] + "..."
		}
		fmt.Fprintf(&b, "%q=%d", k, e.v)
	}
	b.WriteByte(']')
	return b.String()
}

func sameKVs(a, b []kv) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func expectKVs(what string, got, want []kv) {
	if !sameKVs(got, want) {
		failf("%s: got %s want %s", what, fmtKVs(got), fmtKVs(want))
	}
}

// ---- model answers -------------------------------------------------------

func (m *model) scan(prefix string) []kv {
	ks := m.keys()
	i := sort.SearchStrings(ks, prefix)
	var out []kv
	for ; i < len(ks) && strings.HasPrefix(ks[i], prefix); i++ {
		out = append(out, kv{ks[i], m.m[ks[i]]})
	}
	return out
}

func reversed(a []kv) []kv {
	out := make([]kv, len(a))
	for i, e := range a {
		out[len(a)-1-i] = e
	}
	return out
}

func (m *model) lowerBound(b string) []kv {
	ks := m.keys()
	var out []kv
	for i := sort.SearchStrings(ks, b); i < len(ks); i++ {
		out = append(out, kv{ks[i], m.m[ks[i]]})
	}
	return out
}

func (m *model) reverseLowerBound(b string) []kv {
	ks := m.keys()
	i := sort.SearchStrings(ks, b)
	if i < len(ks) && ks[i] == b {
		i++
	}
	var out []kv
	for i--; i >= 0; i-- {
		out = append(out, kv{ks[i], m.m[ks[i]]})
	}
	return out
}

func (m *model) path(q string) []kv {
	var out []kv
	if len(m.m) < len(q) {
		for _, k := range m.keys() {
			if strings.HasPrefix(q, k) {
				out = append(out, kv{k, m.m[k]})
			}
		}
		return out
	}
	for i := 0; i <= len(q); i++ {
		if v, ok := m.m[q[:i]]; ok {
			out = append(out, kv{q[:i], v})
		}
	}
	return out
}

// ---- tree answers --------------------------------------------------------

func fwdScan(root node, limit int, seek func(it *adaptive.Iterator[int])) []kv {
	it := root.Iterator()
	if seek != nil {
		seek(it)
	}
	return drainFwd(it, limit)
}

func drainFwd(it *adaptive.Iterator[int], limit int) []kv {
	var out []kv
	for len(out) < limit {
		k, v, ok := it.Next()
		if !ok {
			break
		}
		out = append(out, kv{string(k), v})
	}
	return out
}

func revScan(root node, limit int, seek func(it *adaptive.ReverseIterator[int])) []kv {
	it := root.ReverseIterator()
	if seek != nil {
		seek(it)
	}
	var out []kv
	for len(out) < limit {
		k, v, ok := it.Previous()
		if !ok {
			break
		}
		out = append(out, kv{string(k), v})
	}
	return out
}

func lbScan(root node, limit int, b string) []kv {
	it := root.LowerBoundIterator()
	it.SeekLowerBound([]byte(b))
	var out []kv
	for len(out) < limit {
		k, v, ok := it.Next()
		if !ok {
			break
		}
		out = append(out, kv{string(k), v})
	}
	return out
}

func rlbScan(root node, limit int, b string) []kv {
	return revScan(root, limit, func(it *adaptive.ReverseIterator[int]) { it.SeekReverseLowerBound([]byte(b)) })
}

func pathScan(root node, limit int, q string) []kv {
	return drainPath(root.PathIterator([]byte(q)), limit)
}

func drainPath(it *adaptive.PathIterator[int], limit int) []kv {
	var out []kv
	for len(out) < limit {
		k, v, ok := it.Next()
		if !ok {
			break
		}
		out = append(out, kv{string(k), v})
	}
	return out
}

// leafEntry reads the entry behind a Minimum/Maximum leaf through its iterator.
func leafEntry(l *adaptive.NodeLeaf[int]) []kv {
	if l == nil {
		return nil
	}
	it := l.Iterator()
	it.SeekPrefix(nil)
	return drainFwd(it, 4)
}

// ---- digests -------------------------------------------------------------

// digest is a set of independent fingerprints of everything a tree answers.
type digest struct {
	name []string
	arg  []string
	sum  []uint64
	text []string // only for small trees, for readable reports
}

func (d *digest) add(name, text string) { d.addArg(name, "", text) }

func (d *digest) addArg(name, arg, text string) {
	h := fnv.New64a()
	io.WriteString(h, text)
	d.name = append(d.name, name)
	d.arg = append(d.arg, arg)
	d.sum = append(d.sum, h.Sum64())
	if len(text) > 300 {
		text = text[:300] + "..."
	}
	d.text = append(d.text, text)
}

func (d *digest) diff(o *digest) string {
	for i := range d.sum {
		if d.sum[i] != o.sum[i] {
			return fmt.Sprintf("%s(%q): was %s now %s", d.name[i], d.arg[i], d.text[i], o.text[i])
		}
	}
	return ""
}

func fullKVs(a []kv) string {
	b := make([]byte, 0, 32*len(a))
	for _, e := range a {
		b = strconv.AppendQuote(b, e.k)
		b = append(b, '=')
		b = strconv.AppendInt(b, int64(e.v), 10)
		b = append(b, ' ')
	}
	return string(b)
}

// treeDigest queries t with every kind of read over the probe keys. n is an
// upper bound used only to limit runaway scans. About scans probes, selected by
// offset, are used for the queries that take an argument other than Get.
func treeDigest(t *tree, probes []string, n int, scans, offset int) *digest {
	d := &digest{}
	limit := 2*n + 64
	var b strings.Builder
	d.add("Len", fmt.Sprint(t.Len()))
	for _, p := range probes {
		v, ok := t.Get([]byte(p))
		fmt.Fprintf(&b, "%q:%v:%v ", p, v, ok)
	}
	d.add("Get", b.String())
	d.add("iteration", fullKVs(fwdScan(t.Root(), limit, func(it *adaptive.Iterator[int]) { it.SeekPrefix(nil) })))
	d.add("unseeked iteration", fullKVs(fwdScan(t.Root(), limit, nil)))
	d.add("reverse iteration", fullKVs(revScan(t.Root(), limit, nil)))
	b.Reset()
	t.Walk(func(k []byte, v int) bool {
		fmt.Fprintf(&b, "%q=%d ", k, v)
		limit--
		return limit < 0
	})
	limit = 2*n + 64
	d.add("Walk", b.String())
	mn, mx := t.Minimum(), t.Maximum()
	d.add("Minimum/Maximum", fmt.Sprint(fullKVs(leafEntry(mn)), fullKVs(leafEntry(mx))))
	if len(probes) > scans {
		step := len(probes) / scans
		var sub []string
		for i := offset % step; i < len(probes); i += step {
			sub = append(sub, probes[i])
		}
		probes = sub
	}
	for i, p := range probes {
		k, v, ok := t.LongestPrefix([]byte(p))
		d.addArg("LongestPrefix", p, fmt.Sprintf("%q %v %v", k, v, ok))
		d.addArg("lower bound", p, firstKVs(lbScan(t.Root(), limit, p)))
		d.addArg("reverse lower bound", p, firstKVs(rlbScan(t.Root(), limit, p)))
		if n <= 100 || i%8 == 0 { // a path walk takes time quadratic in the width
			d.addArg("path", p, fullKVs(drainPath(t.GetPathIterator([]byte(p)), limit)))
		}
		d.addArg("prefix", p, fullKVs(fwdScan(t.Root(), limit, func(it *adaptive.Iterator[int]) { it.SeekPrefix([]byte(p)) })))
		d.addArg("reverse prefix", p, fullKVs(revScan(t.Root(), limit, func(it *adaptive.ReverseIterator[int]) { it.SeekPrefix([]byte(p)) })))
	}
	return d
}

func firstKVs(a []kv) string { return fullKVs(a) }

// lightDigest is the cheap version used after every operation.
func lightDigest(t *tree, probes []string, n int) *digest {
	d := &digest{}
	d.add("Len", fmt.Sprint(t.Len()))
	d.add("iteration", fullKVs(fwdScan(t.Root(), 2*n+64, func(it *adaptive.Iterator[int]) { it.SeekPrefix(nil) })))
	var b strings.Builder
	for _, p := range probes {
		v, ok := t.Get([]byte(p))
		fmt.Fprintf(&b, "%q:%v:%v ", p, v, ok)
	}
	d.add("Get", b.String())
	return d
}

// probesOf derives the deterministic list of interesting keys of a case.
func probesOf(c *testCase, max int) []string {
	seen := map[string]bool{}
	var base []string
	add := func(k string) {
		if !seen[k] {
			seen[k] = true
			base = append(base, k)
		}
	}
	add("")
	all := append(append([]op(nil), c.Ops...), c.Ops2...)
	for _, o := range all {
		switch o.O {
		case opBins, opBdel:
			ks := o.bulkKeys()
			for i, k := range ks {
				if len(ks) <= 24 || i%(len(ks)/16) == 0 {
					add(k)
				}
			}
			add(string(o.K))
		case opIns, opDel, opDlp, opTins, opTdel, opTdlp, opQuery, opTq, opWatch, opWpre, opTw, opTwp, opIter:
			add(string(o.K))
		}
	}
	n := len(base)
	for i := 0; i < n; i++ {
		k := base[i]
		if len(k) > 200 {
			continue
		}
		add(k + "\x00")
		add(k + "$")
		if len(k) > 0 {
			add(k[:len(k)-1])
			l := k[len(k)-1]
			add(k[:len(k)-1] + string([]byte{l + 1}))
			add(k[:len(k)-1] + string([]byte{l - 1}))
			h := len(k) / 2
			add(k[:h])
			add(k[:h] + string([]byte{k[h] ^ 1}) + k[h+1:])
			add(k + k[len(k)-1:])
		}
	}
	if len(base) > max {
		// keep the literal keys first, then an even selection of derived ones
		if n > max {
			n = max
		}
		rest := base[n:]
		out := base[:n:n]
		room := max - n
		if room > 0 {
			step := float64(len(rest)) / float64(room)
			for i := 0; i < room; i++ {
				out = append(out, rest[int(float64(i)*step)])
			}
		}
		return out
	}
	return base
}
