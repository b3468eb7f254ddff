From 49afe527b193ce9b2ef9f22c49f03e812fbc614b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:07 +0000
Subject: [PATCH 01/13] fix: count children in 16 bits so a full node of 256
 does not overflow

The child count was a uint8. Adding the 256th child wrapped it to zero,
so the node looked empty and its entries were lost on the next delete.
---
 node.go      | 4 ++--
 node_16.go   | 6 +++---
 node_256.go  | 6 +++---
 node_4.go    | 6 +++---
 node_48.go   | 6 +++---
 node_leaf.go | 4 ++--
 txn.go       | 2 +-
 7 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/node.go b/node.go
index b62b386..552f89c 100644
--- a/node.go
+++ b/node.go
@@ -9,8 +9,8 @@ type Node[T any] interface {
 	getPartialLen() uint32
 	setPartialLen(uint32)
 	getArtNodeType() nodeType
-	getNumChildren() uint8
-	setNumChildren(uint8)
+	getNumChildren() uint16
+	setNumChildren(uint16)
 	getPartial() []byte
 	setPartial([]byte)
 	isLeaf() bool
diff --git a/node_16.go b/node_16.go
index b230a54..b9d8fc8 100644
--- a/node_16.go
+++ b/node_16.go
@@ -12,7 +12,7 @@ import (
 type Node16[T any] struct {
 	id          uint64
 	partialLen  uint32
-	numChildren uint8
+	numChildren uint16
 	partial     []byte
 	keys        [16]byte
 	children    [16]Node[T]
@@ -40,11 +40,11 @@ func (n *Node16[T]) getArtNodeType() nodeType {
 	return node16
 }
 
-func (n *Node16[T]) getNumChildren() uint8 {
+func (n *Node16[T]) getNumChildren() uint16 {
 	return n.numChildren
 }
 
-func (n *Node16[T]) setNumChildren(numChildren uint8) {
+func (n *Node16[T]) setNumChildren(numChildren uint16) {
 	n.numChildren = numChildren
 }
 
diff --git a/node_256.go b/node_256.go
index 5ad5db3..f465bbd 100644
--- a/node_256.go
+++ b/node_256.go
@@ -10,7 +10,7 @@ import (
 type Node256[T any] struct {
 	id          uint64
 	partialLen  uint32
-	numChildren uint8
+	numChildren uint16
 	partial     []byte
 	children    [256]Node[T]
 	mutateCh    atomic.Pointer[chan struct{}]
@@ -45,11 +45,11 @@ func (n *Node256[T]) getArtNodeType() nodeType {
 	return node256
 }
 
-func (n *Node256[T]) getNumChildren() uint8 {
+func (n *Node256[T]) getNumChildren() uint16 {
 	return n.numChildren
 }
 
-func (n *Node256[T]) setNumChildren(numChildren uint8) {
+func (n *Node256[T]) setNumChildren(numChildren uint16) {
 	n.numChildren = numChildren
 }
 
diff --git a/node_4.go b/node_4.go
index a5f818c..024a51b 100644
--- a/node_4.go
+++ b/node_4.go
@@ -12,7 +12,7 @@ import (
 type Node4[T any] struct {
 	id          uint64
 	partialLen  uint32
-	numChildren uint8
+	numChildren uint16
 	partial     []byte
 	keys        [4]byte
 	children    [4]Node[T]
@@ -40,11 +40,11 @@ func (n *Node4[T]) getArtNodeType() nodeType {
 	return node4
 }
 
-func (n *Node4[T]) getNumChildren() uint8 {
+func (n *Node4[T]) getNumChildren() uint16 {
 	return n.numChildren
 }
 
-func (n *Node4[T]) setNumChildren(numChildren uint8) {
+func (n *Node4[T]) setNumChildren(numChildren uint16) {
 	n.numChildren = numChildren
 }
 
diff --git a/node_48.go b/node_48.go
index 5a6949c..1e3af26 100644
--- a/node_48.go
+++ b/node_48.go
@@ -11,7 +11,7 @@ import (
 type Node48[T any] struct {
 	id          uint64
 	partialLen  uint32
-	numChildren uint8
+	numChildren uint16
 	partial     []byte
 	keys        [256]byte
 	children    [48]Node[T]
@@ -39,11 +39,11 @@ func (n *Node48[T]) getArtNodeType() nodeType {
 	return node48
 }
 
-func (n *Node48[T]) getNumChildren() uint8 {
+func (n *Node48[T]) getNumChildren() uint16 {
 	return n.numChildren
 }
 
-func (n *Node48[T]) setNumChildren(numChildren uint8) {
+func (n *Node48[T]) setNumChildren(numChildren uint16) {
 	n.numChildren = numChildren
 }
 
diff --git a/node_leaf.go b/node_leaf.go
index 0039e6d..346b7e3 100644
--- a/node_leaf.go
+++ b/node_leaf.go
@@ -36,11 +36,11 @@ func (n *NodeLeaf[T]) getArtNodeType() nodeType {
 	return leafType
 }
 
-func (n *NodeLeaf[T]) getNumChildren() uint8 {
+func (n *NodeLeaf[T]) getNumChildren() uint16 {
 	return 0
 }
 
-func (n *NodeLeaf[T]) setNumChildren(numChildren uint8) {
+func (n *NodeLeaf[T]) setNumChildren(numChildren uint16) {
 	// no-op
 }
 
diff --git a/txn.go b/txn.go
index ad6c6be..401598f 100644
--- a/txn.go
+++ b/txn.go
@@ -511,7 +511,7 @@ func (t *Txn[T]) deletePrefix(node Node[T], key []byte, depth int) (Node[T], int
 	for itr := slow; itr < len(node.getChildren()); itr++ {
 		node.setChild(itr, nil)
 	}
-	node.setNumChildren(uint8(numCh))
+	node.setNumChildren(uint16(numCh))
 
 	return node, numDel
 }
-- 
2.43.0


From f99421a1bd0f4c88a1f46f762fce3142db17fdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:15 +0000
Subject: [PATCH 02/13] fix: clear the freed slot when a child is removed from
 a small node

After shifting the children down, the loop that clears the tail started
one slot too late. The last child stayed referenced twice, so walks
visited it twice. The cleared slots no longer notify watchers of a child
that was only moved.
---
 helpers.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/helpers.go b/helpers.go
index 9cb0cd5..35ac063 100644
--- a/helpers.go
+++ b/helpers.go
@@ -385,11 +385,8 @@ func (t *Txn[T]) removeChild4(n Node[T], c byte) Node[T] {
 		n.setChild(slow, children[itr])
 		slow += 1
 	}
-	for ; itr < len(n.getChildren()); itr++ {
-		if n.getChild(itr) != nil {
-			t.trackChannel(n.getChild(itr))
-		}
-		n.setChild(itr, nil)
+	for ; slow < len(n.getChildren()); slow++ {
+		n.setChild(slow, nil)
 	}
 
 	n.setNumChildren(n.getNumChildren() - 1)
@@ -436,11 +433,8 @@ func (t *Txn[T]) removeChild16(n Node[T], c byte) Node[T] {
 		n.setChild(slow, children[itr])
 		slow += 1
 	}
-	for ; itr < len(n.getChildren()); itr++ {
-		if n.getChild(itr) != nil {
-			t.trackChannel(n.getChild(itr))
-		}
-		n.setChild(itr, nil)
+	for ; slow < len(n.getChildren()); slow++ {
+		n.setChild(slow, nil)
 	}
 	n.setNumChildren(n.getNumChildren() - 1)
 
-- 
2.43.0


From b712b84e89dcf9613bff2847b1a1bee2c71317b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:23 +0000
Subject: [PATCH 03/13] fix: leave the tree alone when the deleted key is
 absent

Deleting a key with no matching child returned a nil node, which removed
the whole subtree the search had reached. A key shorter than a compressed
prefix indexed past its end. Leaves that did not match were also recorded
as modified.
---
 txn.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/txn.go b/txn.go
index 401598f..3656193 100644
--- a/txn.go
+++ b/txn.go
@@ -293,13 +293,6 @@ func (t *Txn[T]) recursiveDelete(node Node[T], key []byte, depth int) (Node[T],
 		return nil, nil, false
 	}
 
-	if node.isLeaf() {
-		t.trackChannel(node)
-		if leafMatches(node.getKey(), key) == 0 {
-			return nil, node, true
-		}
-	}
-
 	// Handle hitting a leaf node
 	if node.getNodeLeaf() != nil {
 		nodeL := node.getNodeLeaf()
@@ -323,10 +316,14 @@ func (t *Txn[T]) recursiveDelete(node Node[T], key []byte, depth int) (Node[T],
 		depth += int(node.getPartialLen())
 	}
 
+	if depth >= len(key) {
+		return node, nil, false
+	}
+
 	// Find child node
 	child, idx := t.findChild(node, key[depth])
 	if child == nil {
-		return nil, nil, false
+		return node, nil, false
 	}
 
 	// Recurse
-- 
2.43.0


From 67da24a93144a023d7f2e82ff5841f0171d2b53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:07 +0000
Subject: [PATCH 04/13] fix: store keys as given instead of appending a
 terminator byte

A '$' was appended to every key. Keys with bytes below '$' sorted wrongly,
keys ending in '$' were confused with others, the append could write into
the caller's buffer, and keys returned to the caller could be extended over
the terminator. A key that ends inside the tree is now stored in the leaf of
the node it ends at, which also makes Insert report the old value for it.

The two bound seeks relied on the terminator. They now descend by comparing
the full compressed prefix and the ordered children of every node kind.
---
 helpers.go              |  41 ++++++-
 iterator.go             |  11 +-
 lower_bound_iterator.go | 265 ++++++----------------------------------
 node.go                 |   1 -
 node_16.go              |  13 --
 node_256.go             |   9 --
 node_4.go               |  13 --
 node_48.go              |   9 --
 node_leaf.go            |   4 -
 reverse_iterator.go     | 248 +++++++------------------------------
 txn.go                  |  39 +++---
 11 files changed, 139 insertions(+), 514 deletions(-)

diff --git a/helpers.go b/helpers.go
index 35ac063..93fd85c 100644
--- a/helpers.go
+++ b/helpers.go
@@ -342,16 +342,16 @@ func findChild[T any](n Node[T], c byte) (Node[T], int) {
 	return nil, 0
 }
 
+// getTreeKey returns a private copy of the given key. The copy has no spare
+// capacity.
 func getTreeKey(key []byte) []byte {
-	return append(key, '$')
+	treeKey := make([]byte, len(key))
+	copy(treeKey, key)
+	return treeKey
 }
 
 func getKey(key []byte) []byte {
-	keyLen := len(key)
-	if keyLen == 0 {
-		return key
-	}
-	return key[:keyLen-1]
+	return key
 }
 
 func (t *Txn[T]) removeChild(n Node[T], c byte) Node[T] {
@@ -517,3 +517,32 @@ func hasPrefix(key []byte, prefix []byte) bool {
 	}
 	return bytes.HasPrefix(key, prefix)
 }
+
+// fullPartial returns the whole compressed prefix of an inner node at the given
+// depth. Only the first maxPrefixLen bytes are stored in the node itself.
+func fullPartial[T any](n Node[T], depth int) []byte {
+	partialLen := int(n.getPartialLen())
+	if partialLen <= maxPrefixLen {
+		return n.getPartial()[:partialLen]
+	}
+	return minimum(n).key[depth : depth+partialLen]
+}
+
+// orderedChildren returns the children of a node together with their key bytes
+// in ascending order.
+func orderedChildren[T any](n Node[T]) ([]byte, []Node[T]) {
+	switch n.getArtNodeType() {
+	case node4, node16:
+		nCh := int(n.getNumChildren())
+		return n.getKeys()[:nCh], n.getChildren()[:nCh]
+	}
+	var keys []byte
+	var children []Node[T]
+	for c := 0; c < 256; c++ {
+		if child, _ := findChild(n, byte(c)); child != nil {
+			keys = append(keys, byte(c))
+			children = append(children, child)
+		}
+	}
+	return keys, children
+}
diff --git a/iterator.go b/iterator.go
index d88db14..73e1373 100644
--- a/iterator.go
+++ b/iterator.go
@@ -7,12 +7,11 @@ package adaptive
 // down to a specified path. This will iterate over the same values that
 // the Node.WalkPath method will.
 type Iterator[T any] struct {
-	path         []byte
-	node         Node[T]
-	stack        []Node[T]
-	depth        int
-	pos          Node[T]
-	seenMismatch bool
+	path  []byte
+	node  Node[T]
+	stack []Node[T]
+	depth int
+	pos   Node[T]
 }
 
 // Front returns the current node that has been iterated to.
diff --git a/lower_bound_iterator.go b/lower_bound_iterator.go
index c8b8e97..47004a1 100644
--- a/lower_bound_iterator.go
+++ b/lower_bound_iterator.go
@@ -11,12 +11,11 @@ import (
 // down to a specified path. This will iterate over the same values that
 // the Node.WalkPath method will.
 type LowerBoundIterator[T any] struct {
-	path         []byte
-	node         Node[T]
-	stack        []Node[T]
-	depth        int
-	pos          Node[T]
-	seenMismatch bool
+	path  []byte
+	node  Node[T]
+	stack []Node[T]
+	depth int
+	pos   Node[T]
 }
 
 // Front returns the current node that has been iterated to.
@@ -97,262 +96,66 @@ func (i *LowerBoundIterator[T]) Next() ([]byte, T, bool) {
 	return nil, zero, false
 }
 
-func (i *LowerBoundIterator[T]) recurseMin(n Node[T]) Node[T] {
-	// Traverse to the minimum child
-	if n.isLeaf() {
-		return n
-	}
-	nCh := n.getNumChildren()
-	if nCh > 1 {
-		// Add all the other edges to the stack (the min node will be added as
-		// we recurse)
-		var allCh []Node[T]
-		for itr := nCh - 1; itr >= 1; itr-- {
-			allCh = append(allCh, n.getChild(int(itr)))
-		}
-		i.stack = append(allCh, i.stack...)
-	}
-	if nCh > 0 {
-		return i.recurseMin(n.getChild(0))
-	}
-	// Shouldn't be possible
-	return nil
-}
-
+// SeekLowerBound is used to seek the iterator to the smallest key that is
+// greater or equal to the given key.
 func (i *LowerBoundIterator[T]) SeekLowerBound(prefixKey []byte) {
 	node := i.node
 
 	i.stack = []Node[T]{}
 
-	if len(prefixKey) == 0 {
-		i.stack = []Node[T]{node}
-		return
-	}
-
 	prefix := getTreeKey(prefixKey)
 
-	found := func(n Node[T]) {
-		nL := n.getNodeLeaf()
-		if nL == nil {
-			i.stack = append(
-				i.stack,
-				n,
-			)
-			return
-		}
-		if bytes.Compare(nL.key, i.path) >= 0 {
-			i.stack = append(
-				i.stack,
-				n,
-			)
-			return
-		}
-	}
-
-	findMin := func(n Node[T]) {
-		if n != nil {
-			found(n)
-			return
-		}
-		n = i.recurseMin(n)
-	}
-
 	i.path = prefix
 
 	depth := 0
-	i.node = node
-	i.seenMismatch = false
-
-	var parent Node[T]
 
-	for {
+	for node != nil {
 
-		// Check if the node matches the prefix
-
-		if node == nil {
-			if parent != nil && parent.getNodeLeaf() != nil {
-				i.stack = append(i.stack, parent.getNodeLeaf())
+		if node.isLeaf() {
+			if bytes.Compare(minimum[T](node).key, prefix) >= 0 {
+				i.stack = append(i.stack, node)
 			}
 			return
 		}
 
-		var prefixCmp int
-		if !node.isLeaf() {
-			if int(node.getPartialLen()) < len(prefix) {
-				prefixCmp = bytes.Compare(node.getPartial()[:node.getPartialLen()], prefix[depth:min(len(prefix), depth+int(node.getPartialLen()))])
-			} else {
-				prefixCmp = bytes.Compare(node.getPartial()[:node.getPartialLen()], prefix[depth:])
-			}
-		}
-
-		if prefixCmp > 0 && !i.seenMismatch {
-			// Prefix is larger, that means the lower bound is greater than the search
-			// and from now on we need to follow the minimum path to the smallest
-			// leaf under this subtree.
-			nL := node.getNodeLeaf()
-			if nL != nil {
-				if bytes.Compare(nL.key, i.path) >= 0 {
-					findMin(node)
-				}
-			} else {
-				findMin(node)
-			}
-			if parent != nil && parent.getNodeLeaf() != nil {
-				if bytes.Compare(parent.getNodeLeaf().getKey(), i.path) >= 0 {
-					i.stack = append(i.stack, parent.getNodeLeaf())
-				}
-				return
-			}
-			return
-		}
+		// Compare the node's prefix with the same-length part of the search key
+		partial := fullPartial[T](node, depth)
+		rest := prefix[depth:]
+		cmpLen := min(len(partial), len(rest))
+		prefixCmp := bytes.Compare(partial[:cmpLen], rest[:cmpLen])
 
-		if prefixCmp < 0 && !i.seenMismatch {
+		if prefixCmp < 0 {
 			// Prefix is smaller than search prefix, that means there is no lower
-			// bound
-			i.node = nil
-			if parent != nil && parent.getNodeLeaf() != nil {
-				if bytes.Compare(parent.getNodeLeaf().getKey(), i.path) >= 0 {
-					i.stack = append(i.stack, parent.getNodeLeaf())
-				}
-			}
-			return
-		}
-
-		if node.isLeaf() && node.getNodeLeaf() != nil && bytes.Compare(node.getNodeLeaf().getKey(), prefix) >= 0 {
-			found(node)
-			if parent != nil && parent.getNodeLeaf() != nil {
-				if bytes.Compare(parent.getNodeLeaf().getKey(), i.path) >= 0 {
-					i.stack = append(i.stack, parent.getNodeLeaf())
-				}
-			}
+			// bound under this node
 			return
 		}
 
-		// Determine the child index to proceed based on the next byte of the prefix
-		// If the node has a prefix, compare it with the prefix
-		if node.getArtNodeType() != leafType {
-			mismatchIdx := prefixMismatch[T](node, prefix, len(prefix), depth)
-			if mismatchIdx < int(node.getPartialLen()) && !i.seenMismatch {
-				// If there's a mismatch, set the node to nil to break the loop
-				node = nil
-				return
-			}
-			if mismatchIdx > 0 {
-				i.seenMismatch = true
-			}
-			depth += int(node.getPartialLen())
-		}
-
-		if depth >= len(prefix) {
-			nL := node.getNodeLeaf()
-			if nL != nil {
-				if bytes.Compare(nL.getKey(), i.path) >= 0 {
-					i.stack = append(i.stack, node)
-				}
-			} else {
-				i.stack = append(i.stack, node)
-			}
-			if parent != nil && parent.getNodeLeaf() != nil {
-				if bytes.Compare(parent.getNodeLeaf().getKey(), i.path) >= 0 {
-					i.stack = append(i.stack, parent.getNodeLeaf())
-				}
-			}
+		if prefixCmp > 0 || len(rest) <= len(partial) {
+			// Prefix is larger, or the search key ends here. Either way every key
+			// under this node is a part of the result.
+			i.stack = append(i.stack, node)
 			return
 		}
 
-		idx := node.getLowerBoundCh(prefix[depth])
+		depth += len(partial)
 
-		if idx == -1 && !i.seenMismatch {
-			return
-		}
-
-		if i.seenMismatch && idx != -1 {
-			idx = 0
-		}
-
-		if idx == -1 {
-			if node.getNodeLeaf() != nil {
-				if bytes.Compare(node.getNodeLeaf().getKey(), i.path) >= 0 {
-					i.stack = append(i.stack, node)
-				}
-			} else {
-				for itr := int(node.getNumChildren()) - 1; itr >= idx+1; itr-- {
-					nCh := node.getChild(itr)
-					nChL := nCh.getNodeLeaf()
-					if nChL == nil {
-						i.stack = append(i.stack, node.getChild(itr))
-					} else {
-						if bytes.Compare(nChL.key, i.path) >= 0 {
-							i.stack = append(i.stack, node.getChild(itr))
-						}
-					}
-				}
+		// All larger children are a part of the result, the smallest one has to
+		// end up on the top of the stack.
+		keys, children := orderedChildren[T](node)
+		node = nil
+		for itr := len(children) - 1; itr >= 0; itr-- {
+			if keys[itr] < prefix[depth] {
+				break
 			}
-			if parent.getNodeLeaf() != nil && bytes.Compare(parent.getNodeLeaf().getKey(), i.path) >= 0 {
-				i.stack = append(i.stack, parent.getNodeLeaf())
+			if keys[itr] == prefix[depth] {
+				node = children[itr]
+				break
 			}
-			node = nil
-			return
+			i.stack = append(i.stack, children[itr])
 		}
 
-		if i.seenMismatch && parent != nil && parent.getNodeLeaf() != nil {
-			nL := node.getNodeLeaf()
-			addedNode := false
-			if nL != nil {
-				if bytes.Compare(nL.getKey(), i.path) >= 0 {
-					i.stack = append(i.stack, node)
-					addedNode = true
-				}
-			}
-			if !addedNode {
-				for itr := int(node.getNumChildren()) - 1; itr >= 0; itr-- {
-					if node.getChild(itr) != nil {
-						nCh := node.getChild(itr)
-						nChL := nCh.getNodeLeaf()
-						if nChL == nil {
-							i.stack = append(i.stack, node.getChild(itr))
-						} else {
-							if bytes.Compare(nChL.key, i.path) >= 0 {
-								i.stack = append(i.stack, node.getChild(itr))
-							}
-						}
-					}
-				}
-			}
-			if bytes.Compare(parent.getNodeLeaf().getKey(), i.path) >= 0 {
-				i.stack = append(i.stack, parent.getNodeLeaf())
-			}
-			return
-		}
-
-		for itr := int(node.getNumChildren()) - 1; itr >= idx+1; itr-- {
-			if node.getChild(itr) != nil {
-				nCh := node.getChild(itr)
-				nChL := nCh.getNodeLeaf()
-				if nChL == nil {
-					i.stack = append(i.stack, node.getChild(itr))
-				} else {
-					if bytes.Compare(nChL.key, i.path) >= 0 {
-						i.stack = append(i.stack, node.getChild(itr))
-					}
-				}
-			}
-		}
-
-		if idx >= 0 && node.getKeyAtIdx(idx) != prefix[depth] {
-			i.seenMismatch = true
-		}
-
-		if idx == -1 {
-			return
-		}
-
-		parent = node
 		// Move to the next level in the tree
-		node = node.getChild(idx)
-
 		depth++
-
 	}
 
 }
diff --git a/node.go b/node.go
index 552f89c..e7941ec 100644
--- a/node.go
+++ b/node.go
@@ -30,7 +30,6 @@ type Node[T any] interface {
 	getChildren() []Node[T]
 	getKeys() []byte
 	getMutateCh() chan struct{}
-	getLowerBoundCh(byte) int
 	getNodeLeaf() *NodeLeaf[T]
 	setNodeLeaf(*NodeLeaf[T])
 
diff --git a/node_16.go b/node_16.go
index b9d8fc8..e06e0c5 100644
--- a/node_16.go
+++ b/node_16.go
@@ -5,7 +5,6 @@ package adaptive
 
 import (
 	"bytes"
-	"sort"
 	"sync/atomic"
 )
 
@@ -172,18 +171,6 @@ func (n *Node16[T]) setValue(T) {
 func (n *Node16[T]) setKey(key []byte) {
 }
 
-func (n *Node16[T]) getLowerBoundCh(c byte) int {
-	nCh := int(n.getNumChildren())
-	idx := sort.Search(nCh, func(i int) bool {
-		return n.keys[i] >= c
-	})
-	// we want lower bound behavior so return even if it's not an exact match
-	if idx < nCh {
-		return idx
-	}
-	return -1
-}
-
 func (n *Node16[T]) ReverseIterator() *ReverseIterator[T] {
 	return &ReverseIterator[T]{
 		i: &Iterator[T]{
diff --git a/node_256.go b/node_256.go
index f465bbd..f33178c 100644
--- a/node_256.go
+++ b/node_256.go
@@ -171,15 +171,6 @@ func (n *Node256[T]) setValue(T) {
 func (n *Node256[T]) setKey(key []byte) {
 }
 
-func (n *Node256[T]) getLowerBoundCh(c byte) int {
-	for i := int(c); i < 256; i++ {
-		if n.getChild(i) != nil {
-			return i
-		}
-	}
-	return -1
-}
-
 func (n *Node256[T]) ReverseIterator() *ReverseIterator[T] {
 	return &ReverseIterator[T]{
 		i: &Iterator[T]{
diff --git a/node_4.go b/node_4.go
index 024a51b..c9d3430 100644
--- a/node_4.go
+++ b/node_4.go
@@ -5,7 +5,6 @@ package adaptive
 
 import (
 	"bytes"
-	"sort"
 	"sync/atomic"
 )
 
@@ -172,18 +171,6 @@ func (n *Node4[T]) setValue(T) {
 func (n *Node4[T]) setKey(key []byte) {
 }
 
-func (n *Node4[T]) getLowerBoundCh(c byte) int {
-	nCh := int(n.getNumChildren())
-	idx := sort.Search(nCh, func(i int) bool {
-		return n.keys[i] >= c
-	})
-	// we want lower bound behavior so return even if it's not an exact match
-	if idx < nCh {
-		return idx
-	}
-	return -1
-}
-
 func (n *Node4[T]) ReverseIterator() *ReverseIterator[T] {
 	nodeT := Node[T](n)
 	return &ReverseIterator[T]{
diff --git a/node_48.go b/node_48.go
index 1e3af26..1d81499 100644
--- a/node_48.go
+++ b/node_48.go
@@ -180,15 +180,6 @@ func (n *Node48[T]) setValue(T) {
 func (n *Node48[T]) setKey(key []byte) {
 }
 
-func (n *Node48[T]) getLowerBoundCh(c byte) int {
-	for i := int(c); i < 256; i++ {
-		if n.getChild(int(n.keys[i])-1) != nil {
-			return int(n.keys[i] - 1)
-		}
-	}
-	return -1
-}
-
 func (n *Node48[T]) ReverseIterator() *ReverseIterator[T] {
 	nodeT := Node[T](n)
 	return &ReverseIterator[T]{
diff --git a/node_leaf.go b/node_leaf.go
index 346b7e3..fd8b11a 100644
--- a/node_leaf.go
+++ b/node_leaf.go
@@ -171,10 +171,6 @@ func (n *NodeLeaf[T]) getMutateCh() chan struct{} {
 	return *n.mutateCh.Load()
 }
 
-func (n *NodeLeaf[T]) getLowerBoundCh(c byte) int {
-	return -1
-}
-
 func (n *NodeLeaf[T]) ReverseIterator() *ReverseIterator[T] {
 	return &ReverseIterator[T]{
 		i: &Iterator[T]{
diff --git a/reverse_iterator.go b/reverse_iterator.go
index a0708cb..6c5cd91 100644
--- a/reverse_iterator.go
+++ b/reverse_iterator.go
@@ -8,16 +8,6 @@ import (
 // in reverse in-order
 type ReverseIterator[T any] struct {
 	i *Iterator[T]
-
-	// expandedParents stores the set of parent nodes whose relevant children have
-	// already been pushed into the stack. This can happen during seek or during
-	// iteration.
-	//
-	// Unlike forward iteration we need to recurse into children before we can
-	// output the value stored in an internal leaf since all children are greater.
-	// We use this to track whether we have already ensured all the children are
-	// in the stack.
-	expandedParents map[Node[T]]struct{}
 }
 
 // SeekPrefixWatch is used to seek the iterator to a given prefix
@@ -42,143 +32,72 @@ func (ri *ReverseIterator[T]) SeekReverseLowerBound(key []byte) {
 	// node should both be nil to prevent the iterator from assuming it is just
 	// iterating the whole tree from the root node. Either way this needs to end
 	// up as nil so just set it here.
-	ri.i.seenMismatch = false
 	ri.i.stack = make([]Node[T], 0)
 	n := ri.i.node
 	ri.i.node = nil
+	ri.i.path = nil
 	prefix := getTreeKey(key)
-	ri.i.path = prefix
 	depth := 0
 
-	if ri.expandedParents == nil {
-		ri.expandedParents = make(map[Node[T]]struct{})
-	}
-
-	found := func(n Node[T]) {
-		ri.i.stack = append(
-			ri.i.stack,
-			n,
-		)
-	}
-
-	for {
-		if n == nil {
-			break
+	for n != nil {
+		if n.isLeaf() {
+			if bytes.Compare(minimum[T](n).key, prefix) <= 0 {
+				ri.i.stack = append(ri.i.stack, n)
+			}
+			return
 		}
+
 		// Compare current prefix with the search key's same-length prefix.
-		var prefixCmp int
-		if int(n.getPartialLen()) < len(prefix) {
-			prefixCmp = bytes.Compare(n.getPartial()[:n.getPartialLen()], prefix[depth:depth+int(n.getPartialLen())])
-		} else {
-			prefixCmp = bytes.Compare(n.getPartial()[:n.getPartialLen()], prefix[depth:])
-		}
+		partial := fullPartial[T](n, depth)
+		rest := prefix[depth:]
+		cmpLen := min(len(partial), len(rest))
+		prefixCmp := bytes.Compare(partial[:cmpLen], rest[:cmpLen])
 
 		if prefixCmp < 0 {
 			// Prefix is smaller than search prefix, that means there is no exact
 			// match for the search key. But we are looking in reverse, so the reverse
 			// lower bound will be the largest leaf under this subtree, since it is
 			// the value that would come right before the current search key if it
-			// were in the tree. So we need to follow the maximum path in this subtree
-			// to find it. Note that this is exactly what the iterator will already do
-			// if it finds a node in the stack that has _not_ been marked as expanded
-			// so in this one case we don't call `found` and instead let the iterator
-			// do the expansion and recursion through all the children.
+			// were in the tree. The iterator follows the maximum path itself.
 			ri.i.stack = append(ri.i.stack, n)
 			return
 		}
 
-		if prefixCmp > 0 && !ri.i.seenMismatch {
-			// Prefix is larger than search prefix, or there is no prefix but we've
-			// also exhausted the search key. Either way, that means there is no
-			// reverse lower bound since nothing comes before our current search
-			// prefix.
-			if n.getNodeLeaf() != nil {
-				ri.i.stack = append(ri.i.stack, n.getNodeLeaf())
-			}
+		if prefixCmp > 0 || len(rest) < len(partial) {
+			// Prefix is larger than search prefix, or we've exhausted the search
+			// key. Either way, that means there is no reverse lower bound under
+			// this node.
 			return
 		}
 
-		// If this is a leaf, something needs to happen! Note that if it's a leaf
-		// and prefixCmp was zero (which it must be to get here) then the leaf value
-		// is either an exact match for the search, or it's lower. It can't be
-		// greater.
-		if n.isLeaf() {
-
-			nL := n.getNodeLeaf()
-			// Firstly, if it's an exact match, we're done!
-			if bytes.Equal(getKey(nL.getKey()), key) {
-				found(n)
-				return
-			}
+		// Consume the search prefix.
+		depth += len(partial)
 
-			// It's not so this node's leaf value must be lower and could still be a
-			// valid contender for reverse lower bound.
-
-			// If it has no children then we are also done.
-			if bytes.Compare(getKey(nL.getKey()), key) <= 0 {
-				// This leaf is the lower bound.
-				found(n)
-				return
-			}
-		}
-
-		// Consume the search prefix. Note that this is safe because if n.prefix is
-		// longer than the search slice prefixCmp would have been > 0 above and the
-		// method would have already returned.
-		// Determine the child index to proceed based on the next byte of the prefix
-		if n.getPartialLen() > 0 {
-			// If the node has a prefix, compare it with the prefix
-			mismatchIdx := prefixMismatch[T](n, prefix, len(prefix), depth)
-			if mismatchIdx < int(n.getPartialLen()) && !ri.i.seenMismatch {
-				// If there's a mismatch, set the node to nil to break the loop
-				if n.getNodeLeaf() != nil {
-					ri.i.stack = append(ri.i.stack, n.getNodeLeaf())
-				}
-				n = nil
-				return
-			}
-			if mismatchIdx > 0 {
-				ri.i.seenMismatch = true
-			}
-			depth += int(n.getPartialLen())
+		// The node's own key is lower or equal, and lower than all its children.
+		if n.getNodeLeaf() != nil {
+			ri.i.stack = append(ri.i.stack, n.getNodeLeaf())
 		}
 
 		if depth >= len(prefix) {
-			ri.i.stack = append(ri.i.stack, n)
 			return
 		}
 
-		if n.getNodeLeaf() != nil {
-			ri.i.stack = append(ri.i.stack, n)
-		}
-
-		idx := n.getLowerBoundCh(prefix[depth])
-
-		if idx == -1 || depth == len(prefix)-1 {
-			idx = int(n.getNumChildren()) - 1
-		}
-
-		if idx >= 0 && n.getKeyAtIdx(idx) != prefix[depth] {
-			ri.i.seenMismatch = true
-		}
-
-		if ri.i.seenMismatch {
-			idx = int(n.getNumChildren()) - 1
-		}
-
-		for itr := 0; itr < idx; itr++ {
-			if n.getChild(itr) != nil {
-				ri.i.stack = append(ri.i.stack, n.getChild(itr))
+		// All smaller children are a part of the result, the largest one has to
+		// end up on the top of the stack.
+		keys, children := orderedChildren[T](n)
+		n = nil
+		for itr := 0; itr < len(children); itr++ {
+			if keys[itr] > prefix[depth] {
+				break
 			}
-		}
-
-		if idx == -1 {
-			break
+			if keys[itr] == prefix[depth] {
+				n = children[itr]
+				break
+			}
+			ri.i.stack = append(ri.i.stack, children[itr])
 		}
 
 		// Move to the next level in the tree
-		ri.expandedParents[n] = struct{}{}
-		n = n.getChild(idx)
 		depth++
 	}
 
@@ -188,10 +107,6 @@ func (ri *ReverseIterator[T]) SeekReverseLowerBound(key []byte) {
 func (ri *ReverseIterator[T]) Previous() ([]byte, T, bool) {
 	var zero T
 
-	if ri.expandedParents == nil {
-		ri.expandedParents = make(map[Node[T]]struct{})
-	}
-
 	if ri.i.stack == nil && ri.i.node != nil {
 		ri.i.stack = []Node[T]{ri.i.node}
 	}
@@ -205,94 +120,21 @@ func (ri *ReverseIterator[T]) Previous() ([]byte, T, bool) {
 			return nil, zero, false
 		}
 
-		switch node.(type) {
-		case *NodeLeaf[T]:
-			leafCh := node.(*NodeLeaf[T])
-			if bytes.Compare(getKey(leafCh.key), getKey(ri.i.path)) <= 0 {
+		if leafCh, ok := node.(*NodeLeaf[T]); ok {
+			if hasPrefix(getKey(leafCh.key), ri.i.path) {
 				return getKey(leafCh.key), leafCh.value, true
 			}
 			continue
-		case *Node4[T]:
-			n4 := node.(*Node4[T])
-			if n4.leaf != nil {
-				if bytes.Compare(n4.leaf.key, ri.i.path) <= 0 || len(ri.i.path) == 0 {
-					ri.i.stack = append(ri.i.stack, n4.leaf)
-				}
-			}
-			_, ok := ri.expandedParents[node]
-			if ok {
-				continue
-			}
-			for itr := 0; itr < int(n4.numChildren); itr++ {
-				ri.i.stack = append(ri.i.stack, n4.children[itr])
-			}
-			if n4.leaf != nil && hasPrefix(getKey(n4.leaf.key), ri.i.path) {
-				return getKey(n4.leaf.key), n4.leaf.value, true
-			}
-		case *Node16[T]:
-			n16 := node.(*Node16[T])
-			if n16.leaf != nil {
-				if bytes.Compare(n16.leaf.key, ri.i.path) <= 0 || len(ri.i.path) == 0 {
-					ri.i.stack = append(ri.i.stack, n16.leaf)
-				}
-			}
-			_, ok := ri.expandedParents[node]
-			if ok {
-				continue
-			}
-			for itr := 0; itr < int(n16.numChildren); itr++ {
-				ri.i.stack = append(ri.i.stack, n16.children[itr])
-			}
-			if n16.leaf != nil && hasPrefix(getKey(n16.leaf.key), ri.i.path) {
-				return getKey(n16.leaf.key), n16.leaf.value, true
-			}
-		case *Node48[T]:
-			n48 := node.(*Node48[T])
-			if n48.leaf != nil {
-				if bytes.Compare(n48.leaf.key, ri.i.path) <= 0 || len(ri.i.path) == 0 {
-					ri.i.stack = append(ri.i.stack, n48.leaf)
-				}
-			}
-			_, ok := ri.expandedParents[node]
-			if ok {
-				continue
-			}
-			for itr := 0; itr < 256; itr++ {
-				idx := n48.keys[itr]
-				if idx == 0 {
-					continue
-				}
-				nodeCh := n48.children[idx-1]
-				if nodeCh == nil {
-					continue
-				}
-				ri.i.stack = append(ri.i.stack, nodeCh)
-			}
-			if n48.leaf != nil && hasPrefix(getKey(n48.leaf.key), ri.i.path) {
-				return getKey(n48.leaf.key), n48.leaf.value, true
-			}
-		case *Node256[T]:
-			n256 := node.(*Node256[T])
-			if n256.leaf != nil {
-				if bytes.Compare(n256.leaf.key, ri.i.path) <= 0 || len(ri.i.path) == 0 {
-					ri.i.stack = append(ri.i.stack, n256.leaf)
-				}
-			}
-			_, ok := ri.expandedParents[node]
-			if ok {
-				continue
-			}
-			for itr := 0; itr < 256; itr++ {
-				nodeCh := n256.children[itr]
-				if nodeCh == nil {
-					continue
-				}
-				ri.i.stack = append(ri.i.stack, nodeCh)
-			}
-			if n256.leaf != nil && hasPrefix(getKey(n256.leaf.key), ri.i.path) {
-				return getKey(n256.leaf.key), n256.leaf.value, true
-			}
 		}
+
+		// Unlike forward iteration we need to recurse into children before we can
+		// output the value stored in an internal leaf since all children are
+		// greater.
+		if node.getNodeLeaf() != nil {
+			ri.i.stack = append(ri.i.stack, node.getNodeLeaf())
+		}
+		_, children := orderedChildren[T](node)
+		ri.i.stack = append(ri.i.stack, children...)
 	}
 	return nil, zero, false
 }
diff --git a/txn.go b/txn.go
index 3656193..566419b 100644
--- a/txn.go
+++ b/txn.go
@@ -163,11 +163,13 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 	}
 
 	if node.getNodeLeaf() != nil && leafMatches(node.getNodeLeaf().getKey(), key) == 0 {
+		*old = 1
+		oldVal := node.getNodeLeaf().getValue()
 		newLeaf := t.writeNode(node.getNodeLeaf(), true)
 		newLeaf.setValue(value)
 		node = t.writeNode(node, true)
 		node.setNodeLeaf(newLeaf.(*NodeLeaf[T]))
-		return node, zero, true
+		return node, oldVal, true
 	}
 
 	// Check if given node has a prefix
@@ -190,24 +192,15 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 			}
 
 			newLeaf := t.makeLeaf(key, value)
-			newLeafL := newLeaf.getNodeLeaf()
-			nL := node.getNodeLeaf()
-			if nL != nil && nL.getKeyLen() != 0 {
-				if bytes.HasPrefix(getKey(nL.getKey()), getKey(newLeafL.getKey())) {
-					t.trackChannel(node)
-					node = t.writeNode(node, false)
-					newNode := t.allocNode(node4)
-					newNode.setNodeLeaf(newLeaf.(*NodeLeaf[T]))
-					newNode = t.addChild(newNode, key[depth], node)
-					return newNode, zero, true
-				}
-			}
 			t.trackChannel(node)
 			node = t.writeNode(node, false)
 			if depth < len(key) {
 				// No child, node goes within us
 				node = t.addChild(node, key[depth], newLeaf)
 				// newNode was created
+			} else {
+				// The key ends here
+				node.setNodeLeaf(newLeaf.getNodeLeaf())
 			}
 			return node, zero, true
 		}
@@ -236,10 +229,21 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 		newLeaf := t.makeLeaf(key, value)
 		if depth+prefixDiff < len(key) {
 			newNode = t.addChild(newNode, key[depth+prefixDiff], newLeaf)
+		} else {
+			newNode.setNodeLeaf(newLeaf.getNodeLeaf())
 		}
 		return newNode, zero, true
 	}
 
+	if depth >= len(key) {
+		// The key ends here
+		newLeaf := t.makeLeaf(key, value)
+		t.trackChannel(node)
+		node = t.writeNode(node, false)
+		node.setNodeLeaf(newLeaf.getNodeLeaf())
+		return node, zero, true
+	}
+
 	// Find a child to recurse to
 	child, idx := t.findChild(node, key[depth])
 	if child != nil {
@@ -253,12 +257,9 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 	}
 
 	newLeaf := t.makeLeaf(key, value)
-	if depth < len(key) {
-		t.trackChannel(node)
-		node = t.writeNode(node, false)
-		return t.addChild(node, key[depth], newLeaf), zero, true
-	}
-	return node, zero, false
+	t.trackChannel(node)
+	node = t.writeNode(node, false)
+	return t.addChild(node, key[depth], newLeaf), zero, true
 }
 
 func (t *Txn[T]) Delete(key []byte) (T, bool) {
-- 
2.43.0


From 91579860461cd9ac9d47d5e460203580ff9a2349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:03 +0000
Subject: [PATCH 05/13] fix: an empty tree holds no placeholder entry

The root of an empty tree carried an empty leaf. Iteration, Minimum,
Maximum and LongestPrefix reported it as an entry with the empty key.
LongestPrefix also accepted the leaf of the root, and ignored keys ending
at the last node, without comparing them; every node on the path is now
compared once when it is reached.
---
 helpers.go |  5 +++++
 tree.go    | 25 +++++--------------------
 txn.go     | 18 ++++--------------
 3 files changed, 14 insertions(+), 34 deletions(-)

diff --git a/helpers.go b/helpers.go
index 93fd85c..ec0c368 100644
--- a/helpers.go
+++ b/helpers.go
@@ -265,6 +265,11 @@ func maximum[T any](node Node[T]) *NodeLeaf[T] {
 		return node.getNodeLeaf()
 	}
 
+	// The root of an empty tree
+	if node.getNumChildren() == 0 {
+		return nil
+	}
+
 	var idx int
 	switch node.getArtNodeType() {
 	case node4:
diff --git a/tree.go b/tree.go
index b844df6..349b4cf 100644
--- a/tree.go
+++ b/tree.go
@@ -34,12 +34,8 @@ type WalkFn[T any] func(k []byte, v T) bool
 
 func NewRadixTree[T any]() *RadixTree[T] {
 	rt := &RadixTree[T]{size: 0, maxNodeId: 0}
-	rt.root = &Node4[T]{
-		leaf: &NodeLeaf[T]{},
-	}
+	rt.root = &Node4[T]{}
 	rt.root.setId(rt.maxNodeId)
-	rt.root.getNodeLeaf().setId(rt.maxNodeId + 1)
-	rt.maxNodeId++
 	return rt
 }
 
@@ -94,11 +90,12 @@ func (t *RadixTree[T]) LongestPrefix(k []byte) ([]byte, T, bool) {
 
 	n := t.root
 	last = nil
-	if n.getNodeLeaf() != nil {
-		last = n.getNodeLeaf()
-	}
 	for {
 
+		if n.getNodeLeaf() != nil && bytes.HasPrefix(getKey(key), getKey(n.getNodeLeaf().getKey())) {
+			last = n.getNodeLeaf()
+		}
+
 		// Bail if the prefix does not match
 		if n.getPartialLen() > 0 {
 			prefixLen := checkPrefix(n.getPartial(), int(n.getPartialLen()), key, depth)
@@ -112,18 +109,6 @@ func (t *RadixTree[T]) LongestPrefix(k []byte) ([]byte, T, bool) {
 			break
 		}
 
-		if n.getNodeLeaf() != nil && bytes.HasPrefix(getKey(key), getKey(n.getNodeLeaf().getKey())) {
-			last = n.getNodeLeaf()
-		}
-
-		for _, ch := range n.getChildren() {
-			if ch != nil {
-				if ch.getNodeLeaf() != nil && bytes.HasPrefix(getKey(key), getKey(ch.getNodeLeaf().getKey())) {
-					last = ch.getNodeLeaf()
-				}
-			}
-		}
-
 		// Recursively search
 		child, _ = t.findChild(n, key[depth])
 		if child == nil {
diff --git a/txn.go b/txn.go
index 566419b..8eb55d2 100644
--- a/txn.go
+++ b/txn.go
@@ -267,13 +267,8 @@ func (t *Txn[T]) Delete(key []byte) (T, bool) {
 	newRoot, l, _ := t.recursiveDelete(t.tree.root, getTreeKey(key), 0)
 
 	if newRoot == nil {
-		t.tree.root = &Node4[T]{
-			leaf: &NodeLeaf[T]{
-				id: t.tree.maxNodeId + 1,
-			},
-			id: t.tree.maxNodeId,
-		}
-		t.tree.maxNodeId += 2
+		t.tree.root = t.allocNode(node4)
+		t.tree.root.setPartialLen(0)
 	} else {
 		t.tree.root = newRoot
 	}
@@ -418,13 +413,8 @@ func (t *Txn[T]) DeletePrefix(prefix []byte) bool {
 	key := getTreeKey(prefix)
 	newRoot, numDeletions := t.deletePrefix(t.tree.root, key, 0)
 	if newRoot == nil {
-		t.tree.root = &Node4[T]{
-			leaf: &NodeLeaf[T]{
-				id: t.tree.maxNodeId + 1,
-			},
-			id: t.tree.maxNodeId,
-		}
-		t.tree.maxNodeId += 2
+		t.tree.root = t.allocNode(node4)
+		t.tree.root.setPartialLen(0)
 	} else {
 		t.tree.root = newRoot
 	}
-- 
2.43.0


From 3508e1d82e36c78d657529151485db1134cc38ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:10 +0000
Subject: [PATCH 06/13] fix: walk every entry in key order and pass its value

Walk skipped keys stored in inner nodes, passed the zero value and followed
the slot order of 48-way nodes. DFS only looked at the first slots of 48-way
and 256-way nodes.
---
 tree.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tree.go b/tree.go
index 349b4cf..d2de2f3 100644
--- a/tree.go
+++ b/tree.go
@@ -367,12 +367,13 @@ func (t *RadixTree[T]) DFSPrintTree() {
 // recursively. Returns true if the walk should be aborted
 func recursiveWalk[T any](n Node[T], fn WalkFn[T]) bool {
 	// Visit the leaf values if any
-	if n.isLeaf() && n.getNodeLeaf() != nil && fn(getKey(n.getNodeLeaf().getKey()), n.getValue()) {
+	if n.getNodeLeaf() != nil && fn(getKey(n.getNodeLeaf().getKey()), n.getNodeLeaf().getValue()) {
 		return true
 	}
 
 	// Recurse on the children
-	for _, e := range n.getChildren() {
+	_, children := orderedChildren(n)
+	for _, e := range children {
 		if e != nil {
 			if recursiveWalk(e, fn) {
 				return true
@@ -391,8 +392,7 @@ func (t *RadixTree[T]) DFSNode(n Node[T], fn DfsFn[T]) {
 	fn(n)
 
 	// Recurse on the children
-	for itr := 0; itr < int(n.getNumChildren()); itr++ {
-		e := n.getChild(itr)
+	for _, e := range n.getChildren() {
 		if e != nil {
 			t.DFSNode(e, fn)
 		}
-- 
2.43.0


From e73b62570fd2ae87ff12794886023fba11f47428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:16 +0000
Subject: [PATCH 07/13] fix: yield the empty key from path and leaf iterators

Empty keys and empty paths were rejected outright, although the empty key
is a valid key and a prefix of every path.
---
 node_leaf.go | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/node_leaf.go b/node_leaf.go
index fd8b11a..c12391d 100644
--- a/node_leaf.go
+++ b/node_leaf.go
@@ -82,13 +82,6 @@ func (n *NodeLeaf[T]) setPartial(partial []byte) {
 }
 
 func (l *NodeLeaf[T]) prefixContainsMatch(key []byte) bool {
-	if len(key) == 0 || len(l.key) == 0 {
-		return false
-	}
-	if key == nil {
-		return false
-	}
-
 	return bytes.HasPrefix(getKey(key), getKey(l.key))
 }
 
@@ -108,9 +101,6 @@ func (n *NodeLeaf[T]) PathIterator(path []byte) *PathIterator[T] {
 }
 
 func (n *NodeLeaf[T]) matchPrefix(prefix []byte) bool {
-	if len(n.key) == 0 {
-		return false
-	}
 	return bytes.HasPrefix(n.key, prefix)
 }
 
-- 
2.43.0


From 466d1cb4280b0901d0ca6dc07494da8d2a0beeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:23 +0000
Subject: [PATCH 08/13] fix: iterate the whole tree when no seek was made, and
 copy the seek prefix

Next on a fresh iterator returned nothing, unlike the reverse iterator.
SeekPrefix kept the caller's slice and filtered by its later contents.
---
 iterator.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/iterator.go b/iterator.go
index 73e1373..0ce4737 100644
--- a/iterator.go
+++ b/iterator.go
@@ -26,6 +26,11 @@ func (i *Iterator[T]) Path() string {
 func (i *Iterator[T]) Next() ([]byte, T, bool) {
 	var zero T
 
+	// Without a seek, iterate over everything
+	if i.stack == nil && i.node != nil {
+		i.stack = []Node[T]{i.node}
+	}
+
 	// Iterate through the stack until it's empty
 	for len(i.stack) > 0 {
 		node := i.stack[len(i.stack)-1]
@@ -105,7 +110,7 @@ func (i *Iterator[T]) SeekPrefixWatch(prefix []byte) (watch <-chan struct{}) {
 func (i *Iterator[T]) SeekPrefix(prefix []byte) Node[T] {
 	node := i.node
 
-	i.path = prefix
+	i.path = getTreeKey(prefix)
 
 	i.stack = nil
 	depth := 0
-- 
2.43.0


From 8f0695e3e500bc11efd16fa26297d52d05d786ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:30 +0000
Subject: [PATCH 09/13] fix: remove exactly the subtree under the prefix in
 DeletePrefix

The search visited every node of the tree, never consumed the compressed
prefixes, kept leaves of inner nodes it had counted as deleted, and
rearranged child slots without their key bytes. It now descends along the
prefix and removes the one subtree it reaches, like Delete does.
---
 txn.go | 97 ++++++++++++++++++++++++++--------------------------------
 1 file changed, 44 insertions(+), 53 deletions(-)

diff --git a/txn.go b/txn.go
index 8eb55d2..e9cd0d6 100644
--- a/txn.go
+++ b/txn.go
@@ -430,80 +430,71 @@ func (t *Txn[T]) DeletePrefix(prefix []byte) bool {
 }
 
 func (t *Txn[T]) deletePrefix(node Node[T], key []byte, depth int) (Node[T], int) {
-	// Get terminated
-	if node == nil {
-		return nil, 0
-	}
 	// Handle hitting a leaf node
 	if isLeaf[T](node) {
-		nL := node.getNodeLeaf()
-		if nL != nil && bytes.HasPrefix(getKey(nL.getKey()), getKey(key)) {
-			t.trackChannel(node)
-			t.trackChannel(nL)
-			return nil, 1
+		if bytes.HasPrefix(getKey(node.getNodeLeaf().getKey()), getKey(key)) {
+			return nil, t.trackSubtree(node)
 		}
 		return node, 0
 	}
 
 	// Bail if the prefix does not match
 	if node.getPartialLen() > 0 {
-		prefixLen := checkPrefix(node.getPartial(), int(node.getPartialLen()), key, depth)
-		if prefixLen < min(maxPrefixLen, len(getKey(key))) {
-			depth += prefixLen
+		prefixDiff := prefixMismatch[T](node, key, len(key), depth)
+		if prefixDiff < int(node.getPartialLen()) && depth+prefixDiff < len(key) {
+			return node, 0
 		}
+		depth += int(node.getPartialLen())
 	}
 
-	numDel := 0
-
-	if node.getNodeLeaf() != nil {
-		if bytes.HasPrefix(getKey(node.getNodeLeaf().getKey()), getKey(key)) {
-			t.trackChannel(node.getNodeLeaf())
-			numDel++
+	// Everything below matches once the prefix is used up
+	if depth >= len(key) {
+		if node.getNumChildren() == 0 {
+			// The root of an empty tree
+			return node, 0
 		}
+		return nil, t.trackSubtree(node)
 	}
 
-	// Recurse on the children
-	var newChIndxMap = make(map[int]Node[T])
-	for idx, ch := range node.getChildren() {
-		if ch != nil {
-			newCh, del := t.deletePrefix(ch, key, depth+1)
-			newChIndxMap[idx] = newCh
-			numDel += del
-			if del > 0 && t.trackMutate {
-				t.trackChannel(ch)
-			}
-		}
+	// Recurse on the child
+	child, idx := t.findChild(node, key[depth])
+	if child == nil {
+		return node, 0
+	}
+	newChild, numDel := t.deletePrefix(child, key, depth+1)
+	if numDel == 0 {
+		return node, 0
 	}
 
-	slow := 0
-	numCh := 0
-
-	node = t.writeNode(node, true)
-
-	for itr := 0; itr < int(node.getNumChildren()); itr++ {
-		newCh, ok := newChIndxMap[itr]
-		if ok {
-			if newCh == nil {
-				continue
-			} else {
-				numCh++
-				node.setChild(slow, newCh)
-				slow++
-			}
-		} else {
-			numCh++
-			node.setChild(slow, node.getChild(itr))
-			slow++
-		}
+	t.trackChannel(node)
+	node = t.writeNode(node, false)
+	node.setChild(idx, newChild)
+	if newChild == nil {
+		node = t.removeChild(node, key[depth])
 	}
-	for itr := slow; itr < len(node.getChildren()); itr++ {
-		node.setChild(itr, nil)
+	if node.getNumChildren() == 0 && node.getNodeLeaf() == nil {
+		return nil, numDel
 	}
-	node.setNumChildren(uint16(numCh))
-
 	return node, numDel
 }
 
+// trackSubtree tracks the channels of all nodes and leaves under the given node
+// and returns the number of leaves.
+func (t *Txn[T]) trackSubtree(node Node[T]) int {
+	numLeaves := 0
+	t.trackChannel(node)
+	if node.getNodeLeaf() != nil {
+		t.trackChannel(node.getNodeLeaf())
+		numLeaves++
+	}
+	for _, ch := range node.getChildren() {
+		if ch != nil {
+			numLeaves += t.trackSubtree(ch)
+		}
+	}
+	return numLeaves
+}
+
 func (t *Txn[T]) makeLeaf(key []byte, value T) Node[T] {
 	// Allocate memory for the leaf node
 	l := t.allocNode(leafType)
-- 
2.43.0


From 3bacd54c4168b252b8bc50797854f9471090463d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:36 +0000
Subject: [PATCH 10/13] fix: stop writing in place to nodes shared by Clone or
 CommitOnly

The transaction kept treating its earlier nodes as its own after they had
been shared, so later writes changed the clone or the committed tree.
---
 txn.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/txn.go b/txn.go
index e9cd0d6..6fcbaef 100644
--- a/txn.go
+++ b/txn.go
@@ -56,6 +56,7 @@ func (t *RadixTree[T]) Txn() *Txn[T] {
 // does not track any nodes and has TrackMutate turned off. The cloned transaction will contain any uncommitted writes in the original transaction but further mutations to either will be independent and result in different radix trees on Commit. A cloned transaction may be passed to another goroutine and mutated there independently however each transaction may only be mutated in a single thread.
 func (t *Txn[T]) Clone() *Txn[T] {
 	// reset the writable node cache to avoid leaking future writes into the clone
+	t.oldMaxNodeId = t.tree.maxNodeId
 	newTree := &RadixTree[T]{
 		t.tree.root.clone(true),
 		t.size,
@@ -387,6 +388,8 @@ func (t *Txn[T]) CommitOnly() *RadixTree[T] {
 		t.size,
 		t.tree.maxNodeId,
 	}
+	// The nodes are shared with the returned tree from now on
+	t.oldMaxNodeId = t.tree.maxNodeId
 	return nt
 
 }
-- 
2.43.0


From 4747d40246273b1f59dbd899cefd65f0246ebf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:22 +0000
Subject: [PATCH 11/13] fix: keep the leaf of a node when the node is resized

Growing and shrinking a node counted its own entry as changed, which fired
watches on entries nobody had touched.
---
 helpers.go | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/helpers.go b/helpers.go
index ec0c368..dbe11da 100644
--- a/helpers.go
+++ b/helpers.go
@@ -79,8 +79,7 @@ func (t *Txn[T]) addChild4(n Node[T], c byte, child Node[T]) Node[T] {
 		newNode := t.allocNode(node16)
 		// Copy the child pointers and the key map
 		if n.getNodeLeaf() != nil {
-			nL := t.writeNode(n.getNodeLeaf(), true)
-			newNode.setNodeLeaf(nL.(*NodeLeaf[T]))
+			newNode.setNodeLeaf(n.getNodeLeaf())
 		}
 		copy(newNode.getChildren()[:], n.getChildren()[:n.getNumChildren()])
 		copy(newNode.getKeys()[:], n.getKeys()[:n.getNumChildren()])
@@ -108,8 +107,7 @@ func (t *Txn[T]) addChild16(n Node[T], c byte, child Node[T]) Node[T] {
 	} else {
 		newNode := t.allocNode(node48)
 		if n.getNodeLeaf() != nil {
-			nL := t.writeNode(n.getNodeLeaf(), true)
-			newNode.setNodeLeaf(nL.(*NodeLeaf[T]))
+			newNode.setNodeLeaf(n.getNodeLeaf())
 		}
 		// Copy the child pointers and populate the key map
 		copy(newNode.getChildren()[:], n.getChildren()[:n.getNumChildren()])
@@ -135,8 +133,7 @@ func (t *Txn[T]) addChild48(n Node[T], c byte, child Node[T]) Node[T] {
 	} else {
 		newNode := t.allocNode(node256)
 		if n.getNodeLeaf() != nil {
-			nL := t.writeNode(n.getNodeLeaf(), true)
-			newNode.setNodeLeaf(nL.(*NodeLeaf[T]))
+			newNode.setNodeLeaf(n.getNodeLeaf())
 		}
 		for i := 0; i < 256; i++ {
 			if n.getKeyAtIdx(i) != 0 {
@@ -451,10 +448,8 @@ func (t *Txn[T]) removeChild16(n Node[T], c byte) Node[T] {
 		copy(n4.keys[:], n.getKeys()[:4])
 		copy(n4.children[:], n.getChildren()[:4])
 		if n.getNodeLeaf() != nil {
-			nL := t.writeNode(n.getNodeLeaf(), true)
-			newNode.setNodeLeaf(nL.(*NodeLeaf[T]))
+			newNode.setNodeLeaf(n.getNodeLeaf())
 		}
-		newNode.setNodeLeaf(n.getNodeLeaf())
 		return newNode
 	}
 	return n
@@ -472,8 +467,7 @@ func (t *Txn[T]) removeChild48(n Node[T], c uint8) Node[T] {
 		t.trackChannel(n)
 		t.copyHeader(newNode, n)
 		if n.getNodeLeaf() != nil {
-			nL := t.writeNode(n.getNodeLeaf(), true)
-			newNode.setNodeLeaf(nL.(*NodeLeaf[T]))
+			newNode.setNodeLeaf(n.getNodeLeaf())
 		}
 		child := 0
 		for i := 0; i < 256; i++ {
@@ -500,8 +494,7 @@ func (t *Txn[T]) removeChild256(n Node[T], c uint8) Node[T] {
 		t.copyHeader(newNode, n)
 		t.trackChannel(n)
 		if n.getNodeLeaf() != nil {
-			nL := t.writeNode(n.getNodeLeaf(), true)
-			newNode.setNodeLeaf(nL.(*NodeLeaf[T]))
+			newNode.setNodeLeaf(n.getNodeLeaf())
 		}
 		pos := 0
 		for i := 0; i < 256; i++ {
-- 
2.43.0


From 908a7fe01d02c854427203bf1887f93173bf0892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:28 +0000
Subject: [PATCH 12/13] fix: watch the node an insert would change for an
 absent key

Only the stored part of a compressed prefix was compared, so the search went
past the node that an insert splits and returned a channel below it.
---
 tree.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tree.go b/tree.go
index d2de2f3..4f2dc28 100644
--- a/tree.go
+++ b/tree.go
@@ -247,12 +247,14 @@ func (t *RadixTree[T]) iterativeSearchWithWatch(key []byte) (T, bool, <-chan str
 			if leafMatches(nL.getKey(), key) == 0 {
 				return nL.getValue(), true, nL.getMutateCh()
 			}
+			return zero, false, n.getMutateCh()
 		}
 
-		// Bail if the prefix does not match
+		// Bail if the prefix does not match. The whole prefix is compared so that
+		// the channel returned is the one of the node an insert would change.
 		if n.getPartialLen() > 0 {
-			prefixLen := checkPrefix(n.getPartial(), int(n.getPartialLen()), key, depth)
-			if prefixLen != min(maxPrefixLen, int(n.getPartialLen())) {
+			prefixLen := prefixMismatch[T](n, key, len(key), depth)
+			if prefixLen < int(n.getPartialLen()) {
 				if n.getNodeLeaf() != nil {
 					if leafMatches(n.getNodeLeaf().getKey(), key) == 0 {
 						return n.getNodeLeaf().getValue(), true, n.getNodeLeaf().getMutateCh()
-- 
2.43.0


From c777fc408b716e6ce174cd2710c0e52100ccb765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:34 +0000
Subject: [PATCH 13/13] fix: close exactly the channels of the nodes a tracked
 transaction changes

Tracking swapped the channels of nodes that still belong to older trees, so
watches taken later on those trees were never closed, and touching an inner
node fired the watch of the entry stored in it. Now a node of an older tree
keeps its channel, its copy gets a new one, and an entry is only tracked when
it is updated or deleted.
---
 txn.go | 38 +++++++++++++++-----------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/txn.go b/txn.go
index 6fcbaef..91c4960 100644
--- a/txn.go
+++ b/txn.go
@@ -24,9 +24,6 @@ type Txn[T any] struct {
 func (t *Txn[T]) writeNode(n Node[T], trackCh bool) Node[T] {
 	if trackCh {
 		t.trackChannel(n)
-		if n.getNodeLeaf() != nil {
-			t.trackChannel(n.getNodeLeaf())
-		}
 	}
 	if n.getId() > t.oldMaxNodeId {
 		return n
@@ -115,6 +112,7 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 		if len(key) == len(nodeKey) && bytes.Equal(nodeKey, key) {
 			*old = 1
 			oldVal := nodeLeafStored.getValue()
+			t.trackChannel(nodeLeafStored)
 			node = t.writeNode(node, true)
 			newLeaf := t.allocNode(leafType)
 			newLeaf.setKey(key)
@@ -129,8 +127,7 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 
 		nodeLeaf := node.getNodeLeaf()
 
-		t.trackChannel(node)
-		node = t.writeNode(node, false)
+		node = t.writeNode(node, true)
 
 		// Determine longest prefix
 		longestPrefix := longestCommonPrefix[T](newLeaf2L, nodeLeaf, depth)
@@ -140,7 +137,6 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 
 		if bytes.HasPrefix(getKey(nodeLeaf.getKey()), getKey(newLeaf2L.getKey())) {
 
-			t.trackChannel(nodeLeaf)
 			newNode.setNodeLeaf(newLeaf2L)
 			newNode = t.addChild(newNode, nodeLeaf.getKey()[depth+longestPrefix], node)
 
@@ -184,8 +180,7 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 				if child != nil {
 					newChild, val, mutatedSubTree := t.recursiveInsert(child, key, value, depth+1, old)
 					if mutatedSubTree || newChild != child {
-						t.trackChannel(node)
-						node = t.writeNode(node, false)
+						node = t.writeNode(node, true)
 						node.setChild(idx, newChild)
 					}
 					return node, val, mutatedSubTree
@@ -193,8 +188,7 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 			}
 
 			newLeaf := t.makeLeaf(key, value)
-			t.trackChannel(node)
-			node = t.writeNode(node, false)
+			node = t.writeNode(node, true)
 			if depth < len(key) {
 				// No child, node goes within us
 				node = t.addChild(node, key[depth], newLeaf)
@@ -210,8 +204,7 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 		newNode := t.allocNode(node4)
 		newNode.setPartialLen(uint32(prefixDiff))
 		copy(newNode.getPartial()[:], node.getPartial()[:min(maxPrefixLen, prefixDiff)])
-		t.trackChannel(node)
-		node = t.writeNode(node, false)
+		node = t.writeNode(node, true)
 
 		// Adjust the prefix of the old node
 		if node.getPartialLen() <= maxPrefixLen {
@@ -239,8 +232,7 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 	if depth >= len(key) {
 		// The key ends here
 		newLeaf := t.makeLeaf(key, value)
-		t.trackChannel(node)
-		node = t.writeNode(node, false)
+		node = t.writeNode(node, true)
 		node.setNodeLeaf(newLeaf.getNodeLeaf())
 		return node, zero, true
 	}
@@ -250,16 +242,14 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 	if child != nil {
 		newChild, val, mutatedSubtree := t.recursiveInsert(child, key, value, depth+1, old)
 		if mutatedSubtree || newChild != child {
-			t.trackChannel(node)
-			node = t.writeNode(node, false)
+			node = t.writeNode(node, true)
 			node.setChild(idx, newChild)
 		}
 		return node, val, mutatedSubtree
 	}
 
 	newLeaf := t.makeLeaf(key, value)
-	t.trackChannel(node)
-	node = t.writeNode(node, false)
+	node = t.writeNode(node, true)
 	return t.addChild(node, key[depth], newLeaf), zero, true
 }
 
@@ -294,6 +284,7 @@ func (t *Txn[T]) recursiveDelete(node Node[T], key []byte, depth int) (Node[T],
 	if node.getNodeLeaf() != nil {
 		nodeL := node.getNodeLeaf()
 		if leafMatches(nodeL.getKey(), key) == 0 {
+			t.trackChannel(nodeL)
 			node = t.writeNode(node, true)
 			node.setNodeLeaf(nil)
 			if node.getNumChildren() > 0 {
@@ -327,8 +318,7 @@ func (t *Txn[T]) recursiveDelete(node Node[T], key []byte, depth int) (Node[T],
 	newChild, val, mutate := t.recursiveDelete(child, key, depth+1)
 
 	if newChild != child || val != nil {
-		t.trackChannel(node)
-		node = t.writeNode(node, false)
+		node = t.writeNode(node, true)
 		node.setChild(idx, newChild)
 		if newChild == nil {
 			node = t.removeChild(node, key[depth])
@@ -469,8 +459,7 @@ func (t *Txn[T]) deletePrefix(node Node[T], key []byte, depth int) (Node[T], int
 		return node, 0
 	}
 
-	t.trackChannel(node)
-	node = t.writeNode(node, false)
+	node = t.writeNode(node, true)
 	node.setChild(idx, newChild)
 	if newChild == nil {
 		node = t.removeChild(node, key[depth])
@@ -567,7 +556,10 @@ func (t *Txn[T]) trackChannel(node Node[T]) {
 		t.trackChnSlice = make([]chan struct{}, 0)
 	}
 	t.trackChnSlice = append(t.trackChnSlice, ch)
-	node.setMutateCh(make(chan struct{}))
+	// A node of an older tree keeps its channel, only its copy gets a new one
+	if node.getId() > t.oldMaxNodeId {
+		node.setMutateCh(make(chan struct{}))
+	}
 }
 
 // isClosed returns true if the given channel is closed.
-- 
2.43.0

