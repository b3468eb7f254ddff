package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	adaptive "github.com/absolutelightning/go-immutable-adaptive-radix"
)

type tree = adaptive.RadixTree[int]
type txn = adaptive.Txn[int]
type node = adaptive.Node[int]

// Operation kinds. Every operation is applicable in every state (it is skipped
// when its precondition does not hold), so any sub-sequence of a case is a case.
const (
	opIns   = "ins"  // tree-level Insert(K) on the current tree
	opDel   = "del"  // tree-level Delete(K)
	opDlp   = "dlp"  // tree-level DeletePrefix(K)
	opBins  = "bins" // bulk insert of a family of N keys (in the open transaction if X=1)
	opBdel  = "bdel" // bulk delete of the same family
	opBeg   = "beg"  // open a transaction on the current tree (N=1: tracking)
	opTins  = "tins" // Txn.Insert(K)
	opTdel  = "tdel" // Txn.Delete(K)
	opTdlp  = "tdlp" // Txn.DeletePrefix(K)
	opTrk   = "trk"  // TrackMutate(N==1)
	opCom   = "com"  // Commit
	opCmo   = "cmo"  // CommitOnly
	opNtf   = "ntf"  // Notify (only when the last write has been committed)
	opAbt   = "abt"  // abandon the current transaction
	opCln   = "cln"  // Clone the current transaction and switch to the clone
	opSwt   = "swt"  // switch to open transaction N
	opFrk   = "frk"  // make retained tree N (counted back from the newest) current
	opTcl   = "tcl"  // RadixTree.Clone of the current tree
	opNew   = "new"  // a new empty tree, unrelated to the others, becomes current
	opQuery = "q"    // property-specific query with argument K
	opTq    = "tq"   // property-specific query on the open transaction
	opWatch = "w"    // GetWatch(K) on the current tree
	opWpre  = "wp"   // SeekPrefixWatch(K) (N=1: through the reverse iterator)
	opTw    = "tw"   // Txn.GetWatch(K)
	opTwp   = "twp"  // SeekPrefixWatch(K) through the root of the open transaction (N=1: reverse)
	opIter  = "it"   // open iterator of kind N with argument K on the current tree
	opChurn = "chn"  // a transaction that writes and deletes K over and over, without net effect
	opHot   = "hot"  // N writes of K in a row, A says how
	opStep  = "st"   // advance open iterator N by A steps
)

// hexKey marshals as a hex string so that replay files stay readable and exact.
type hexKey []byte

func (h hexKey) MarshalJSON() ([]byte, error) { return json.Marshal(hex.EncodeToString(h)) }
func (h *hexKey) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	d, err := hex.DecodeString(s)
	*h = d
	return err
}

type op struct {
	O string `json:"o"`
	K hexKey `json:"k,omitempty"`
	S hexKey `json:"s,omitempty"`
	N int    `json:"n,omitempty"`
	A int    `json:"a,omitempty"`
	B int    `json:"b,omitempty"`
	X int    `json:"x,omitempty"`
	Q int    `json:"q,omitempty"` // kind of bulk family: fan, counter or chain
}

// Kinds of bulk families.
const (
	famFan     = 0 // K + byte(A+i*B) + S
	famCounter = 1 // K + three bytes of A+i*B + S
	famChain   = 2 // K + S repeated i+1 times
	famComb    = 3 // K + S repeated i times + byte A
)

func (o op) String() string {
	var b strings.Builder
	b.WriteString(o.O)
	switch o.O {
	case opBins, opBdel:
		switch o.Q {
		case famCounter:
			fmt.Fprintf(&b, "(%q+uint24(%d+i*%d)+%q, i<%d, txn=%d)", []byte(o.K), o.A, o.B, []byte(o.S), o.N, o.X)
			return b.String()
		case famChain:
			fmt.Fprintf(&b, "(%q+%q repeated 1 to %d times, txn=%d)", []byte(o.K), []byte(o.S), o.N, o.X)
			return b.String()
		}
		if o.Q == famComb {
			fmt.Fprintf(&b, "(%q+%q repeated 0 to %d times+%q, txn=%d)", []byte(o.K), []byte(o.S), o.N-1, []byte{byte(o.A)}, o.X)
			return b.String()
		}
		fmt.Fprintf(&b, "(%q+byte(%d+i*%d)+%q, i<%d, txn=%d)", []byte(o.K), o.A, o.B, []byte(o.S), o.N, o.X)
	case opCom, opCmo, opNtf, opAbt, opCln, opTcl, opNew:
	case opBeg:
		fmt.Fprintf(&b, "(track=%d)", o.N)
	case opTrk, opSwt, opFrk:
		fmt.Fprintf(&b, "(%d)", o.N)
	case opIter:
		fmt.Fprintf(&b, "(kind=%d,%q)", o.N, []byte(o.K))
	case opChurn:
		fmt.Fprintf(&b, "(%q,x%d)", []byte(o.K), o.N)
	case opHot:
		fmt.Fprintf(&b, "(%q,x%d,kind=%d,track=%d)", []byte(o.K), o.N, o.A, o.X)
	case opStep:
		fmt.Fprintf(&b, "(%d,x%d)", o.N, o.A)
	case opWpre, opTwp:
		fmt.Fprintf(&b, "(%q,rev=%d)", []byte(o.K), o.N)
	default:
		k := []byte(o.K)
		if len(k) > 80 {
			fmt.Fprintf(&b, "(%q...len=%d)", k[:40], len(k))
		} else {
			fmt.Fprintf(&b, "(%q)", k)
		}
	}
	return b.String()
}

func (o op) bulkKeys() []string {
	n := o.N
	if o.Q == famFan && n > 256 {
		n = 256
	}
	out := make([]string, 0, n)
	switch o.Q {
	case famCounter:
		for i := 0; i < n; i++ {
			c := o.A + i*o.B
			out = append(out, string(cat(o.K, []byte{byte(c >> 16), byte(c >> 8), byte(c)}, o.S)))
		}
		return out
	case famComb:
		long := cat(o.K)
		for i := 0; i < n; i++ {
			out = append(out, string(cat(long, []byte{byte(o.A)})))
			long = cat(long, o.S)
		}
		return out
	case famChain:
		long := cat(o.K)
		for i := 0; i < n; i++ {
			long = cat(long, o.S)
			out = append(out, string(long))
		}
		return out
	}
	for i := 0; i < n; i++ {
		k := make([]byte, 0, len(o.K)+1+len(o.S))
		k = append(k, o.K...)
		k = append(k, byte(o.A+i*o.B))
		k = append(k, o.S...)
		out = append(out, string(k))
	}
	return out
}

// testCase is one generated input: a history plus auxiliary data of the property.
type testCase struct {
	Ops []op `json:"ops"`
	// Ops2 is the second history (C19) or the continuation.
	Ops2 []op `json:"ops2,omitempty"`
	// Perm seeds the alternative construction order of C19 and buffer shapes of C17.
	Perm uint64 `json:"perm,omitempty"`
}

func (c *testCase) describe(max int) string {
	var parts []string
	add := func(ops []op) {
		for i, o := range ops {
			if len(parts) >= max {
				parts = append(parts, fmt.Sprintf("... (%d more)", len(ops)-i))
				return
			}
			parts = append(parts, o.String())
		}
	}
	add(c.Ops)
	if len(c.Ops2) > 0 {
		parts = append(parts, "||")
		max += max
		add(c.Ops2)
	}
	return strings.Join(parts, "; ")
}

func (c *testCase) clone() *testCase {
	n := &testCase{Perm: c.Perm}
	n.Ops = append([]op(nil), c.Ops...)
	n.Ops2 = append([]op(nil), c.Ops2...)
	return n
}

// model is the reference map. It is copied on write when shared.
type model struct {
	m      map[string]int
	shared bool
	sorted []string
}

func newModel() *model { return &model{m: map[string]int{}} }

func (m *model) fork() *model {
	n := make(map[string]int, len(m.m))
	for k, v := range m.m {
		n[k] = v
	}
	return &model{m: n, sorted: m.sorted}
}

func (m *model) put(k string, v int) {
	if _, ok := m.m[k]; !ok {
		m.sorted = nil
	}
	m.m[k] = v
}

func (m *model) del(k string) {
	if _, ok := m.m[k]; ok {
		m.sorted = nil
		delete(m.m, k)
	}
}

func (m *model) delPrefix(p string) []string {
	var gone []string
	for k := range m.m {
		if strings.HasPrefix(k, p) {
			gone = append(gone, k)
		}
	}
	sort.Strings(gone)
	for _, k := range gone {
		m.del(k)
	}
	return gone
}

func (m *model) keys() []string {
	if m.sorted == nil {
		m.sorted = make([]string, 0, len(m.m))
		for k := range m.m {
			m.sorted = append(m.sorted, k)
		}
		sort.Strings(m.sorted)
	}
	return m.sorted
}

func (m *model) equal(o *model) bool {
	if len(m.m) != len(o.m) {
		return false
	}
	for k, v := range m.m {
		if w, ok := o.m[k]; !ok || w != v {
			return false
		}
	}
	return true
}
