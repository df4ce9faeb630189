From b5451100fd1e237da64ed87b88db85ed973e5cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:57 +0000
Subject: [PATCH 01/20] fix: rewrite SeekLowerBound so it works for every tree
 shape

The seek panicked for compressed paths longer than maxPrefixLen and on
48-way nodes, walked the slots of 48-way and 256-way nodes as if they
were in key order, and skipped or repeated keys once it had passed a
shared prefix. It now compares the whole compressed path at each level
and pushes the larger siblings in key order.
---
 helpers.go              |  42 +++++++
 lower_bound_iterator.go | 258 ++++------------------------------------
 2 files changed, 67 insertions(+), 233 deletions(-)

diff --git a/helpers.go b/helpers.go
index 9cb0cd5..210c533 100644
--- a/helpers.go
+++ b/helpers.go
@@ -342,6 +342,48 @@ func findChild[T any](n Node[T], c byte) (Node[T], int) {
 	return nil, 0
 }
 
+// childrenInRange returns the children of n whose edge byte lies between lo and
+// hi (both inclusive), in ascending order of that byte.
+func childrenInRange[T any](n Node[T], lo, hi int) []Node[T] {
+	var children []Node[T]
+	switch n.getArtNodeType() {
+	case node4, node16:
+		for i := 0; i < int(n.getNumChildren()); i++ {
+			if c := int(n.getKeyAtIdx(i)); c >= lo && c <= hi {
+				children = append(children, n.getChild(i))
+			}
+		}
+	case node48:
+		for c := lo; c <= hi; c++ {
+			if idx := n.getKeyAtIdx(c); idx != 0 {
+				children = append(children, n.getChild(int(idx)-1))
+			}
+		}
+	case node256:
+		for c := lo; c <= hi; c++ {
+			if ch := n.getChild(c); ch != nil {
+				children = append(children, ch)
+			}
+		}
+	}
+	return children
+}
+
+// fullPartial returns the complete compressed path of a node that starts at the
+// given depth. The node itself stores at most maxPrefixLen bytes of it, the rest
+// has to be read from a leaf below the node.
+func fullPartial[T any](n Node[T], depth int) []byte {
+	partialLen := int(n.getPartialLen())
+	if partialLen <= maxPrefixLen {
+		return n.getPartial()[:partialLen]
+	}
+	l := minimum[T](n)
+	if l == nil {
+		return nil
+	}
+	return l.key[depth : depth+partialLen]
+}
+
 func getTreeKey(key []byte) []byte {
 	return append(key, '$')
 }
diff --git a/lower_bound_iterator.go b/lower_bound_iterator.go
index c8b8e97..86f1a6d 100644
--- a/lower_bound_iterator.go
+++ b/lower_bound_iterator.go
@@ -97,262 +97,54 @@ func (i *LowerBoundIterator[T]) Next() ([]byte, T, bool) {
 	return nil, zero, false
 }
 
-func (i *LowerBoundIterator[T]) recurseMin(n Node[T]) Node[T] {
-	// Traverse to the minimum child
-	if n.isLeaf() {
-		return n
-	}
-	nCh := n.getNumChildren()
-	if nCh > 1 {
-		// Add all the other edges to the stack (the min node will be added as
-		// we recurse)
-		var allCh []Node[T]
-		for itr := nCh - 1; itr >= 1; itr-- {
-			allCh = append(allCh, n.getChild(int(itr)))
-		}
-		i.stack = append(allCh, i.stack...)
-	}
-	if nCh > 0 {
-		return i.recurseMin(n.getChild(0))
-	}
-	// Shouldn't be possible
-	return nil
-}
-
+// SeekLowerBound is used to seek the iterator to the smallest key that is
+// greater or equal to the given key. The stack is set up so that the children
+// that sort after the search key are visited in ascending order.
 func (i *LowerBoundIterator[T]) SeekLowerBound(prefixKey []byte) {
 	node := i.node
 
 	i.stack = []Node[T]{}
-
-	if len(prefixKey) == 0 {
-		i.stack = []Node[T]{node}
-		return
-	}
-
-	prefix := getTreeKey(prefixKey)
-
-	found := func(n Node[T]) {
-		nL := n.getNodeLeaf()
-		if nL == nil {
-			i.stack = append(
-				i.stack,
-				n,
-			)
-			return
-		}
-		if bytes.Compare(nL.key, i.path) >= 0 {
-			i.stack = append(
-				i.stack,
-				n,
-			)
-			return
-		}
-	}
-
-	findMin := func(n Node[T]) {
-		if n != nil {
-			found(n)
-			return
-		}
-		n = i.recurseMin(n)
-	}
-
-	i.path = prefix
+	i.path = append([]byte{}, prefixKey...)
 
 	depth := 0
-	i.node = node
-	i.seenMismatch = false
-
-	var parent Node[T]
 
-	for {
-
-		// Check if the node matches the prefix
-
-		if node == nil {
-			if parent != nil && parent.getNodeLeaf() != nil {
-				i.stack = append(i.stack, parent.getNodeLeaf())
-			}
-			return
-		}
-
-		var prefixCmp int
-		if !node.isLeaf() {
-			if int(node.getPartialLen()) < len(prefix) {
-				prefixCmp = bytes.Compare(node.getPartial()[:node.getPartialLen()], prefix[depth:min(len(prefix), depth+int(node.getPartialLen()))])
-			} else {
-				prefixCmp = bytes.Compare(node.getPartial()[:node.getPartialLen()], prefix[depth:])
-			}
-		}
-
-		if prefixCmp > 0 && !i.seenMismatch {
-			// Prefix is larger, that means the lower bound is greater than the search
-			// and from now on we need to follow the minimum path to the smallest
-			// leaf under this subtree.
+	for node != nil {
+		if node.isLeaf() {
 			nL := node.getNodeLeaf()
-			if nL != nil {
-				if bytes.Compare(nL.key, i.path) >= 0 {
-					findMin(node)
-				}
-			} else {
-				findMin(node)
-			}
-			if parent != nil && parent.getNodeLeaf() != nil {
-				if bytes.Compare(parent.getNodeLeaf().getKey(), i.path) >= 0 {
-					i.stack = append(i.stack, parent.getNodeLeaf())
-				}
-				return
-			}
-			return
-		}
-
-		if prefixCmp < 0 && !i.seenMismatch {
-			// Prefix is smaller than search prefix, that means there is no lower
-			// bound
-			i.node = nil
-			if parent != nil && parent.getNodeLeaf() != nil {
-				if bytes.Compare(parent.getNodeLeaf().getKey(), i.path) >= 0 {
-					i.stack = append(i.stack, parent.getNodeLeaf())
-				}
-			}
-			return
-		}
-
-		if node.isLeaf() && node.getNodeLeaf() != nil && bytes.Compare(node.getNodeLeaf().getKey(), prefix) >= 0 {
-			found(node)
-			if parent != nil && parent.getNodeLeaf() != nil {
-				if bytes.Compare(parent.getNodeLeaf().getKey(), i.path) >= 0 {
-					i.stack = append(i.stack, parent.getNodeLeaf())
-				}
-			}
-			return
-		}
-
-		// Determine the child index to proceed based on the next byte of the prefix
-		// If the node has a prefix, compare it with the prefix
-		if node.getArtNodeType() != leafType {
-			mismatchIdx := prefixMismatch[T](node, prefix, len(prefix), depth)
-			if mismatchIdx < int(node.getPartialLen()) && !i.seenMismatch {
-				// If there's a mismatch, set the node to nil to break the loop
-				node = nil
-				return
-			}
-			if mismatchIdx > 0 {
-				i.seenMismatch = true
-			}
-			depth += int(node.getPartialLen())
-		}
-
-		if depth >= len(prefix) {
-			nL := node.getNodeLeaf()
-			if nL != nil {
-				if bytes.Compare(nL.getKey(), i.path) >= 0 {
-					i.stack = append(i.stack, node)
-				}
-			} else {
+			if nL == nil || bytes.Compare(getKey(nL.getKey()), i.path) >= 0 {
 				i.stack = append(i.stack, node)
 			}
-			if parent != nil && parent.getNodeLeaf() != nil {
-				if bytes.Compare(parent.getNodeLeaf().getKey(), i.path) >= 0 {
-					i.stack = append(i.stack, parent.getNodeLeaf())
-				}
-			}
 			return
 		}
 
-		idx := node.getLowerBoundCh(prefix[depth])
-
-		if idx == -1 && !i.seenMismatch {
-			return
-		}
-
-		if i.seenMismatch && idx != -1 {
-			idx = 0
-		}
+		// Compare the compressed path of the node with the search key.
+		partial := fullPartial[T](node, depth)
+		search := i.path[depth:]
+		common := min(len(partial), len(search))
+		cmp := bytes.Compare(partial[:common], search[:common])
 
-		if idx == -1 {
-			if node.getNodeLeaf() != nil {
-				if bytes.Compare(node.getNodeLeaf().getKey(), i.path) >= 0 {
-					i.stack = append(i.stack, node)
-				}
-			} else {
-				for itr := int(node.getNumChildren()) - 1; itr >= idx+1; itr-- {
-					nCh := node.getChild(itr)
-					nChL := nCh.getNodeLeaf()
-					if nChL == nil {
-						i.stack = append(i.stack, node.getChild(itr))
-					} else {
-						if bytes.Compare(nChL.key, i.path) >= 0 {
-							i.stack = append(i.stack, node.getChild(itr))
-						}
-					}
-				}
-			}
-			if parent.getNodeLeaf() != nil && bytes.Compare(parent.getNodeLeaf().getKey(), i.path) >= 0 {
-				i.stack = append(i.stack, parent.getNodeLeaf())
-			}
-			node = nil
+		if cmp < 0 {
+			// Everything below this node sorts before the search key.
 			return
 		}
 
-		if i.seenMismatch && parent != nil && parent.getNodeLeaf() != nil {
-			nL := node.getNodeLeaf()
-			addedNode := false
-			if nL != nil {
-				if bytes.Compare(nL.getKey(), i.path) >= 0 {
-					i.stack = append(i.stack, node)
-					addedNode = true
-				}
-			}
-			if !addedNode {
-				for itr := int(node.getNumChildren()) - 1; itr >= 0; itr-- {
-					if node.getChild(itr) != nil {
-						nCh := node.getChild(itr)
-						nChL := nCh.getNodeLeaf()
-						if nChL == nil {
-							i.stack = append(i.stack, node.getChild(itr))
-						} else {
-							if bytes.Compare(nChL.key, i.path) >= 0 {
-								i.stack = append(i.stack, node.getChild(itr))
-							}
-						}
-					}
-				}
-			}
-			if bytes.Compare(parent.getNodeLeaf().getKey(), i.path) >= 0 {
-				i.stack = append(i.stack, parent.getNodeLeaf())
-			}
+		if cmp > 0 || len(search) <= len(partial) {
+			// Everything below this node sorts at or after the search key.
+			i.stack = append(i.stack, node)
 			return
 		}
 
-		for itr := int(node.getNumChildren()) - 1; itr >= idx+1; itr-- {
-			if node.getChild(itr) != nil {
-				nCh := node.getChild(itr)
-				nChL := nCh.getNodeLeaf()
-				if nChL == nil {
-					i.stack = append(i.stack, node.getChild(itr))
-				} else {
-					if bytes.Compare(nChL.key, i.path) >= 0 {
-						i.stack = append(i.stack, node.getChild(itr))
-					}
-				}
-			}
-		}
-
-		if idx >= 0 && node.getKeyAtIdx(idx) != prefix[depth] {
-			i.seenMismatch = true
-		}
-
-		if idx == -1 {
-			return
+		// The search key continues below this node, so the leaf of the node is a
+		// proper prefix of it and sorts before it.
+		depth += len(partial)
+		c := int(i.path[depth])
+		larger := childrenInRange[T](node, c+1, 255)
+		for itr := len(larger) - 1; itr >= 0; itr-- {
+			i.stack = append(i.stack, larger[itr])
 		}
 
-		parent = node
 		// Move to the next level in the tree
-		node = node.getChild(idx)
-
+		node, _ = findChild[T](node, i.path[depth])
 		depth++
-
 	}
-
 }
-- 
2.43.0


From 80a58cbe47787f1e231494ad088442fd5926ab2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:37 +0000
Subject: [PATCH 02/20] fix: rewrite reverse iteration so it works for every
 tree shape

SeekReverseLowerBound read past the search key, treated the slots of
48-way nodes as sorted, and skipped the leaf held by an internal node.
Previous ordered that leaf after the children of its node, and ignored
a prefix set with SeekPrefix.
---
 reverse_iterator.go | 257 +++++++-------------------------------------
 1 file changed, 40 insertions(+), 217 deletions(-)

diff --git a/reverse_iterator.go b/reverse_iterator.go
index a0708cb..ec111fa 100644
--- a/reverse_iterator.go
+++ b/reverse_iterator.go
@@ -8,16 +8,6 @@ import (
 // in reverse in-order
 type ReverseIterator[T any] struct {
 	i *Iterator[T]
-
-	// expandedParents stores the set of parent nodes whose relevant children have
-	// already been pushed into the stack. This can happen during seek or during
-	// iteration.
-	//
-	// Unlike forward iteration we need to recurse into children before we can
-	// output the value stored in an internal leaf since all children are greater.
-	// We use this to track whether we have already ensured all the children are
-	// in the stack.
-	expandedParents map[Node[T]]struct{}
 }
 
 // SeekPrefixWatch is used to seek the iterator to a given prefix
@@ -38,160 +28,69 @@ func (ri *ReverseIterator[T]) SeekPrefix(prefix []byte) {
 func (ri *ReverseIterator[T]) SeekReverseLowerBound(key []byte) {
 	// ri.i.node starts off in the common case as pointing to the root node of the
 	// tree. By the time we return we have either found a lower bound and setup
-	// the stack to traverse all larger keys, or we have not and the stack and
-	// node should both be nil to prevent the iterator from assuming it is just
-	// iterating the whole tree from the root node. Either way this needs to end
-	// up as nil so just set it here.
-	ri.i.seenMismatch = false
+	// the stack to traverse all smaller keys, or we have not and the stack should
+	// be empty and the node nil to prevent the iterator from assuming it is just
+	// iterating the whole tree from the root node.
 	ri.i.stack = make([]Node[T], 0)
+	ri.i.path = nil
 	n := ri.i.node
 	ri.i.node = nil
-	prefix := getTreeKey(key)
-	ri.i.path = prefix
+	search := getTreeKey(key)
 	depth := 0
 
-	if ri.expandedParents == nil {
-		ri.expandedParents = make(map[Node[T]]struct{})
-	}
-
-	found := func(n Node[T]) {
-		ri.i.stack = append(
-			ri.i.stack,
-			n,
-		)
-	}
-
-	for {
-		if n == nil {
-			break
-		}
-		// Compare current prefix with the search key's same-length prefix.
-		var prefixCmp int
-		if int(n.getPartialLen()) < len(prefix) {
-			prefixCmp = bytes.Compare(n.getPartial()[:n.getPartialLen()], prefix[depth:depth+int(n.getPartialLen())])
-		} else {
-			prefixCmp = bytes.Compare(n.getPartial()[:n.getPartialLen()], prefix[depth:])
-		}
-
-		if prefixCmp < 0 {
-			// Prefix is smaller than search prefix, that means there is no exact
-			// match for the search key. But we are looking in reverse, so the reverse
-			// lower bound will be the largest leaf under this subtree, since it is
-			// the value that would come right before the current search key if it
-			// were in the tree. So we need to follow the maximum path in this subtree
-			// to find it. Note that this is exactly what the iterator will already do
-			// if it finds a node in the stack that has _not_ been marked as expanded
-			// so in this one case we don't call `found` and instead let the iterator
-			// do the expansion and recursion through all the children.
-			ri.i.stack = append(ri.i.stack, n)
-			return
-		}
-
-		if prefixCmp > 0 && !ri.i.seenMismatch {
-			// Prefix is larger than search prefix, or there is no prefix but we've
-			// also exhausted the search key. Either way, that means there is no
-			// reverse lower bound since nothing comes before our current search
-			// prefix.
-			if n.getNodeLeaf() != nil {
-				ri.i.stack = append(ri.i.stack, n.getNodeLeaf())
-			}
-			return
-		}
-
-		// If this is a leaf, something needs to happen! Note that if it's a leaf
-		// and prefixCmp was zero (which it must be to get here) then the leaf value
-		// is either an exact match for the search, or it's lower. It can't be
-		// greater.
+	for n != nil {
 		if n.isLeaf() {
-
+			// The leaf is the lower bound or there is none below this node.
 			nL := n.getNodeLeaf()
-			// Firstly, if it's an exact match, we're done!
-			if bytes.Equal(getKey(nL.getKey()), key) {
-				found(n)
-				return
-			}
-
-			// It's not so this node's leaf value must be lower and could still be a
-			// valid contender for reverse lower bound.
-
-			// If it has no children then we are also done.
-			if bytes.Compare(getKey(nL.getKey()), key) <= 0 {
-				// This leaf is the lower bound.
-				found(n)
-				return
+			if nL == nil || bytes.Compare(getKey(nL.getKey()), key) <= 0 {
+				ri.i.stack = append(ri.i.stack, n)
 			}
+			return
 		}
 
-		// Consume the search prefix. Note that this is safe because if n.prefix is
-		// longer than the search slice prefixCmp would have been > 0 above and the
-		// method would have already returned.
-		// Determine the child index to proceed based on the next byte of the prefix
-		if n.getPartialLen() > 0 {
-			// If the node has a prefix, compare it with the prefix
-			mismatchIdx := prefixMismatch[T](n, prefix, len(prefix), depth)
-			if mismatchIdx < int(n.getPartialLen()) && !ri.i.seenMismatch {
-				// If there's a mismatch, set the node to nil to break the loop
-				if n.getNodeLeaf() != nil {
-					ri.i.stack = append(ri.i.stack, n.getNodeLeaf())
-				}
-				n = nil
-				return
-			}
-			if mismatchIdx > 0 {
-				ri.i.seenMismatch = true
-			}
-			depth += int(n.getPartialLen())
-		}
+		// Compare current prefix with the search key's same-length prefix.
+		partial := fullPartial[T](n, depth)
+		rest := search[depth:]
+		common := min(len(partial), len(rest))
+		prefixCmp := bytes.Compare(partial[:common], rest[:common])
 
-		if depth >= len(prefix) {
+		if prefixCmp < 0 {
+			// Prefix is smaller than search prefix, that means everything below this
+			// node sorts before the search key. The iterator expands the node and
+			// follows the maximum path.
 			ri.i.stack = append(ri.i.stack, n)
 			return
 		}
 
-		if n.getNodeLeaf() != nil {
-			ri.i.stack = append(ri.i.stack, n)
-		}
-
-		idx := n.getLowerBoundCh(prefix[depth])
-
-		if idx == -1 || depth == len(prefix)-1 {
-			idx = int(n.getNumChildren()) - 1
+		if prefixCmp > 0 || len(rest) < len(partial) {
+			// Prefix is larger than search prefix, or we've exhausted the search key.
+			// Either way, everything below this node sorts after the search key.
+			return
 		}
 
-		if idx >= 0 && n.getKeyAtIdx(idx) != prefix[depth] {
-			ri.i.seenMismatch = true
+		// Consume the search prefix. The leaf of the node is a prefix of the search
+		// key, so it sorts before or is equal to it, and before all the children.
+		depth += len(partial)
+		if n.getNodeLeaf() != nil {
+			ri.i.stack = append(ri.i.stack, n.getNodeLeaf())
 		}
 
-		if ri.i.seenMismatch {
-			idx = int(n.getNumChildren()) - 1
+		if depth >= len(search) {
+			return
 		}
 
-		for itr := 0; itr < idx; itr++ {
-			if n.getChild(itr) != nil {
-				ri.i.stack = append(ri.i.stack, n.getChild(itr))
-			}
-		}
-
-		if idx == -1 {
-			break
-		}
+		ri.i.stack = append(ri.i.stack, childrenInRange[T](n, 0, int(search[depth])-1)...)
 
 		// Move to the next level in the tree
-		ri.expandedParents[n] = struct{}{}
-		n = n.getChild(idx)
+		n, _ = findChild[T](n, search[depth])
 		depth++
 	}
-
 }
 
 // Previous returns the previous node in reverse order
 func (ri *ReverseIterator[T]) Previous() ([]byte, T, bool) {
 	var zero T
 
-	if ri.expandedParents == nil {
-		ri.expandedParents = make(map[Node[T]]struct{})
-	}
-
 	if ri.i.stack == nil && ri.i.node != nil {
 		ri.i.stack = []Node[T]{ri.i.node}
 	}
@@ -205,94 +104,18 @@ func (ri *ReverseIterator[T]) Previous() ([]byte, T, bool) {
 			return nil, zero, false
 		}
 
-		switch node.(type) {
-		case *NodeLeaf[T]:
-			leafCh := node.(*NodeLeaf[T])
-			if bytes.Compare(getKey(leafCh.key), getKey(ri.i.path)) <= 0 {
+		if leafCh, ok := node.(*NodeLeaf[T]); ok {
+			if hasPrefix(getKey(leafCh.key), ri.i.path) {
 				return getKey(leafCh.key), leafCh.value, true
 			}
 			continue
-		case *Node4[T]:
-			n4 := node.(*Node4[T])
-			if n4.leaf != nil {
-				if bytes.Compare(n4.leaf.key, ri.i.path) <= 0 || len(ri.i.path) == 0 {
-					ri.i.stack = append(ri.i.stack, n4.leaf)
-				}
-			}
-			_, ok := ri.expandedParents[node]
-			if ok {
-				continue
-			}
-			for itr := 0; itr < int(n4.numChildren); itr++ {
-				ri.i.stack = append(ri.i.stack, n4.children[itr])
-			}
-			if n4.leaf != nil && hasPrefix(getKey(n4.leaf.key), ri.i.path) {
-				return getKey(n4.leaf.key), n4.leaf.value, true
-			}
-		case *Node16[T]:
-			n16 := node.(*Node16[T])
-			if n16.leaf != nil {
-				if bytes.Compare(n16.leaf.key, ri.i.path) <= 0 || len(ri.i.path) == 0 {
-					ri.i.stack = append(ri.i.stack, n16.leaf)
-				}
-			}
-			_, ok := ri.expandedParents[node]
-			if ok {
-				continue
-			}
-			for itr := 0; itr < int(n16.numChildren); itr++ {
-				ri.i.stack = append(ri.i.stack, n16.children[itr])
-			}
-			if n16.leaf != nil && hasPrefix(getKey(n16.leaf.key), ri.i.path) {
-				return getKey(n16.leaf.key), n16.leaf.value, true
-			}
-		case *Node48[T]:
-			n48 := node.(*Node48[T])
-			if n48.leaf != nil {
-				if bytes.Compare(n48.leaf.key, ri.i.path) <= 0 || len(ri.i.path) == 0 {
-					ri.i.stack = append(ri.i.stack, n48.leaf)
-				}
-			}
-			_, ok := ri.expandedParents[node]
-			if ok {
-				continue
-			}
-			for itr := 0; itr < 256; itr++ {
-				idx := n48.keys[itr]
-				if idx == 0 {
-					continue
-				}
-				nodeCh := n48.children[idx-1]
-				if nodeCh == nil {
-					continue
-				}
-				ri.i.stack = append(ri.i.stack, nodeCh)
-			}
-			if n48.leaf != nil && hasPrefix(getKey(n48.leaf.key), ri.i.path) {
-				return getKey(n48.leaf.key), n48.leaf.value, true
-			}
-		case *Node256[T]:
-			n256 := node.(*Node256[T])
-			if n256.leaf != nil {
-				if bytes.Compare(n256.leaf.key, ri.i.path) <= 0 || len(ri.i.path) == 0 {
-					ri.i.stack = append(ri.i.stack, n256.leaf)
-				}
-			}
-			_, ok := ri.expandedParents[node]
-			if ok {
-				continue
-			}
-			for itr := 0; itr < 256; itr++ {
-				nodeCh := n256.children[itr]
-				if nodeCh == nil {
-					continue
-				}
-				ri.i.stack = append(ri.i.stack, nodeCh)
-			}
-			if n256.leaf != nil && hasPrefix(getKey(n256.leaf.key), ri.i.path) {
-				return getKey(n256.leaf.key), n256.leaf.value, true
-			}
 		}
+
+		// The leaf of an internal node sorts before all of its children.
+		if node.getNodeLeaf() != nil {
+			ri.i.stack = append(ri.i.stack, node.getNodeLeaf())
+		}
+		ri.i.stack = append(ri.i.stack, childrenInRange[T](node, 0, 255)...)
 	}
 	return nil, zero, false
 }
-- 
2.43.0


From 191e674924e0a4750dc48dbd10a9725d04d42b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:26 +0000
Subject: [PATCH 03/20] fix: iterate over the whole tree when no seek was done

Next on an iterator that was never positioned returned nothing, although
Previous on a reverse iterator walks everything in that case.
---
 iterator.go             | 5 +++++
 lower_bound_iterator.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/iterator.go b/iterator.go
index d88db14..870522c 100644
--- a/iterator.go
+++ b/iterator.go
@@ -27,6 +27,11 @@ func (i *Iterator[T]) Path() string {
 func (i *Iterator[T]) Next() ([]byte, T, bool) {
 	var zero T
 
+	// Initialize our stack if needed
+	if i.stack == nil && i.node != nil {
+		i.stack = []Node[T]{i.node}
+	}
+
 	// Iterate through the stack until it's empty
 	for len(i.stack) > 0 {
 		node := i.stack[len(i.stack)-1]
diff --git a/lower_bound_iterator.go b/lower_bound_iterator.go
index 86f1a6d..d843c3b 100644
--- a/lower_bound_iterator.go
+++ b/lower_bound_iterator.go
@@ -31,6 +31,11 @@ func (i *LowerBoundIterator[T]) Path() string {
 func (i *LowerBoundIterator[T]) Next() ([]byte, T, bool) {
 	var zero T
 
+	// Initialize our stack if needed
+	if i.stack == nil && i.node != nil {
+		i.stack = []Node[T]{i.node}
+	}
+
 	// Iterate through the stack until it's empty
 	for len(i.stack) > 0 {
 		node := i.stack[len(i.stack)-1]
-- 
2.43.0


From 6fcf437e86155df63a2966b3aa06d58412b7e0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:33 +0000
Subject: [PATCH 04/20] fix: report the old value when Insert updates the leaf
 of an internal node

Updating a key that is a prefix of other keys was reported as a new key,
so the previous value was not returned and Len was counted twice.
---
 txn.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/txn.go b/txn.go
index ad6c6be..4db8216 100644
--- a/txn.go
+++ b/txn.go
@@ -163,11 +163,13 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 	}
 
 	if node.getNodeLeaf() != nil && leafMatches(node.getNodeLeaf().getKey(), key) == 0 {
+		*old = 1
+		oldVal := node.getNodeLeaf().getValue()
 		newLeaf := t.writeNode(node.getNodeLeaf(), true)
 		newLeaf.setValue(value)
 		node = t.writeNode(node, true)
 		node.setNodeLeaf(newLeaf.(*NodeLeaf[T]))
-		return node, zero, true
+		return node, oldVal, true
 	}
 
 	// Check if given node has a prefix
-- 
2.43.0


From d472d452abe7b9daaff3c0f3cf1e85db86854a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:33 +0000
Subject: [PATCH 05/20] fix: leave the tree alone when Delete does not find the
 key

A lookup that ran out of children returned an empty subtree, which wiped
the subtree or the whole tree. A key that ended inside the tree made the
lookup read past its end, and the leaf that was compared was reported as
changed even when its key was a different one.
---
 txn.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/txn.go b/txn.go
index 4db8216..63d0195 100644
--- a/txn.go
+++ b/txn.go
@@ -295,13 +295,6 @@ func (t *Txn[T]) recursiveDelete(node Node[T], key []byte, depth int) (Node[T],
 		return nil, nil, false
 	}
 
-	if node.isLeaf() {
-		t.trackChannel(node)
-		if leafMatches(node.getKey(), key) == 0 {
-			return nil, node, true
-		}
-	}
-
 	// Handle hitting a leaf node
 	if node.getNodeLeaf() != nil {
 		nodeL := node.getNodeLeaf()
@@ -325,10 +318,14 @@ func (t *Txn[T]) recursiveDelete(node Node[T], key []byte, depth int) (Node[T],
 		depth += int(node.getPartialLen())
 	}
 
+	if depth >= len(key) {
+		return node, nil, false
+	}
+
 	// Find child node
 	child, idx := t.findChild(node, key[depth])
 	if child == nil {
-		return nil, nil, false
+		return node, nil, false
 	}
 
 	// Recurse
-- 
2.43.0


From 6e5e6c5071bc7a2f7e7c7e2efc9cf5a289459c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:54 +0000
Subject: [PATCH 06/20] fix: clear the vacated child slot when a 4-way or
 16-way node loses a child

The last child stayed behind in a slot past the end, where walks and
prefix deletes that look at all slots found it a second time.
---
 helpers.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/helpers.go b/helpers.go
index 210c533..200e620 100644
--- a/helpers.go
+++ b/helpers.go
@@ -427,10 +427,7 @@ func (t *Txn[T]) removeChild4(n Node[T], c byte) Node[T] {
 		n.setChild(slow, children[itr])
 		slow += 1
 	}
-	for ; itr < len(n.getChildren()); itr++ {
-		if n.getChild(itr) != nil {
-			t.trackChannel(n.getChild(itr))
-		}
+	for itr = slow; itr < len(n.getChildren()); itr++ {
 		n.setChild(itr, nil)
 	}
 
@@ -478,10 +475,7 @@ func (t *Txn[T]) removeChild16(n Node[T], c byte) Node[T] {
 		n.setChild(slow, children[itr])
 		slow += 1
 	}
-	for ; itr < len(n.getChildren()); itr++ {
-		if n.getChild(itr) != nil {
-			t.trackChannel(n.getChild(itr))
-		}
+	for itr = slow; itr < len(n.getChildren()); itr++ {
 		n.setChild(itr, nil)
 	}
 	n.setNumChildren(n.getNumChildren() - 1)
-- 
2.43.0


From e23cd684947e4a0870a6a806bf557430712a4488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:13 +0000
Subject: [PATCH 07/20] fix: make DeletePrefix remove exactly the keys with the
 prefix

It went on into subtrees whose path does not match the prefix, kept the
leaf of an internal node although it was counted as deleted, and lost
the order of the children of 48-way and 256-way nodes. It now follows
the prefix down to one node and drops that node.
---
 txn.go | 91 +++++++++++++++++++++++++++-------------------------------
 1 file changed, 43 insertions(+), 48 deletions(-)

diff --git a/txn.go b/txn.go
index 63d0195..84c0280 100644
--- a/txn.go
+++ b/txn.go
@@ -456,65 +456,60 @@ func (t *Txn[T]) deletePrefix(node Node[T], key []byte, depth int) (Node[T], int
 		return node, 0
 	}
 
-	// Bail if the prefix does not match
-	if node.getPartialLen() > 0 {
-		prefixLen := checkPrefix(node.getPartial(), int(node.getPartialLen()), key, depth)
-		if prefixLen < min(maxPrefixLen, len(getKey(key))) {
-			depth += prefixLen
-		}
+	// Compare the compressed path of the node with the rest of the prefix
+	search := getKey(key)
+	partialLen := int(node.getPartialLen())
+	matched := min(prefixMismatch[T](node, search, len(search), depth), partialLen)
+	if depth+matched >= len(search) {
+		// The prefix ends at this node, everything below it goes away
+		return nil, t.deleteSubtree(node)
+	}
+	if matched < partialLen {
+		return node, 0
 	}
+	depth += partialLen
 
-	numDel := 0
-
-	if node.getNodeLeaf() != nil {
-		if bytes.HasPrefix(getKey(node.getNodeLeaf().getKey()), getKey(key)) {
-			t.trackChannel(node.getNodeLeaf())
-			numDel++
-		}
+	// Find child node
+	child, idx := t.findChild(node, search[depth])
+	if child == nil {
+		return node, 0
 	}
 
-	// Recurse on the children
-	var newChIndxMap = make(map[int]Node[T])
-	for idx, ch := range node.getChildren() {
-		if ch != nil {
-			newCh, del := t.deletePrefix(ch, key, depth+1)
-			newChIndxMap[idx] = newCh
-			numDel += del
-			if del > 0 && t.trackMutate {
-				t.trackChannel(ch)
-			}
-		}
+	// Recurse
+	newChild, numDel := t.deletePrefix(child, key, depth+1)
+	if numDel == 0 {
+		return node, 0
 	}
 
-	slow := 0
-	numCh := 0
-
-	node = t.writeNode(node, true)
-
-	for itr := 0; itr < int(node.getNumChildren()); itr++ {
-		newCh, ok := newChIndxMap[itr]
-		if ok {
-			if newCh == nil {
-				continue
-			} else {
-				numCh++
-				node.setChild(slow, newCh)
-				slow++
-			}
-		} else {
-			numCh++
-			node.setChild(slow, node.getChild(itr))
-			slow++
-		}
+	t.trackChannel(node)
+	node = t.writeNode(node, false)
+	node.setChild(idx, newChild)
+	if newChild == nil {
+		node = t.removeChild(node, search[depth])
 	}
-	for itr := slow; itr < len(node.getChildren()); itr++ {
-		node.setChild(itr, nil)
+	if node.getNumChildren() == 0 && node.getNodeLeaf() == nil {
+		return nil, numDel
 	}
-	node.setNumChildren(uint8(numCh))
-
 	return node, numDel
 }
 
+// deleteSubtree tracks every node and leaf below the given node and returns the
+// number of leaves
+func (t *Txn[T]) deleteSubtree(node Node[T]) int {
+	numDel := 0
+	t.trackChannel(node)
+	if node.getNodeLeaf() != nil {
+		t.trackChannel(node.getNodeLeaf())
+		numDel++
+	}
+	for _, ch := range node.getChildren() {
+		if ch != nil {
+			numDel += t.deleteSubtree(ch)
+		}
+	}
+	return numDel
+}
+
 func (t *Txn[T]) makeLeaf(key []byte, value T) Node[T] {
 	// Allocate memory for the leaf node
 	l := t.allocNode(leafType)
-- 
2.43.0


From 5bb52b4b58d71fed7eb70633216a05a05d9c3e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:43 +0000
Subject: [PATCH 08/20] fix: make LongestPrefix return only prefixes of the key

The leaf of the root was returned without being compared, a leaf at the
very end of the key was missed, and leaves were treated as if they had a
compressed path.
---
 tree.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/tree.go b/tree.go
index b844df6..b3425d3 100644
--- a/tree.go
+++ b/tree.go
@@ -94,10 +94,14 @@ func (t *RadixTree[T]) LongestPrefix(k []byte) ([]byte, T, bool) {
 
 	n := t.root
 	last = nil
-	if n.getNodeLeaf() != nil {
-		last = n.getNodeLeaf()
-	}
 	for {
+		if n.getNodeLeaf() != nil && bytes.HasPrefix(getKey(key), getKey(n.getNodeLeaf().getKey())) {
+			last = n.getNodeLeaf()
+		}
+
+		if n.isLeaf() {
+			break
+		}
 
 		// Bail if the prefix does not match
 		if n.getPartialLen() > 0 {
@@ -112,10 +116,6 @@ func (t *RadixTree[T]) LongestPrefix(k []byte) ([]byte, T, bool) {
 			break
 		}
 
-		if n.getNodeLeaf() != nil && bytes.HasPrefix(getKey(key), getKey(n.getNodeLeaf().getKey())) {
-			last = n.getNodeLeaf()
-		}
-
 		for _, ch := range n.getChildren() {
 			if ch != nil {
 				if ch.getNodeLeaf() != nil && bytes.HasPrefix(getKey(key), getKey(ch.getNodeLeaf().getKey())) {
-- 
2.43.0


From 31d0edaa73ab246a92fe9af8d6ebde2d89056d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:00 +0000
Subject: [PATCH 09/20] fix: make Walk and DFS visit every key in order

Walk skipped keys that are a prefix of other keys, passed the zero value
to the callback, and visited 48-way nodes in slot order. DFS missed
children of 48-way and 256-way nodes that sit past the child count.
---
 tree.go | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/tree.go b/tree.go
index b3425d3..beee1bb 100644
--- a/tree.go
+++ b/tree.go
@@ -382,16 +382,14 @@ func (t *RadixTree[T]) DFSPrintTree() {
 // recursively. Returns true if the walk should be aborted
 func recursiveWalk[T any](n Node[T], fn WalkFn[T]) bool {
 	// Visit the leaf values if any
-	if n.isLeaf() && n.getNodeLeaf() != nil && fn(getKey(n.getNodeLeaf().getKey()), n.getValue()) {
+	if nL := n.getNodeLeaf(); nL != nil && fn(getKey(nL.getKey()), nL.getValue()) {
 		return true
 	}
 
 	// Recurse on the children
-	for _, e := range n.getChildren() {
-		if e != nil {
-			if recursiveWalk(e, fn) {
-				return true
-			}
+	for _, e := range childrenInRange[T](n, 0, 255) {
+		if recursiveWalk(e, fn) {
+			return true
 		}
 	}
 	return false
@@ -406,10 +404,7 @@ func (t *RadixTree[T]) DFSNode(n Node[T], fn DfsFn[T]) {
 	fn(n)
 
 	// Recurse on the children
-	for itr := 0; itr < int(n.getNumChildren()); itr++ {
-		e := n.getChild(itr)
-		if e != nil {
-			t.DFSNode(e, fn)
-		}
+	for _, e := range childrenInRange[T](n, 0, 255) {
+		t.DFSNode(e, fn)
 	}
 }
-- 
2.43.0


From db4d4c56fec6432f2ed7b38b48df968e5a635c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:06 +0000
Subject: [PATCH 10/20] fix: return nil from Maximum when a node holds nothing

Maximum subtracted one from an unsigned child count of zero and panicked.
---
 helpers.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/helpers.go b/helpers.go
index 200e620..4ab93c7 100644
--- a/helpers.go
+++ b/helpers.go
@@ -265,6 +265,10 @@ func maximum[T any](node Node[T]) *NodeLeaf[T] {
 		return node.getNodeLeaf()
 	}
 
+	if node.getNumChildren() == 0 {
+		return nil
+	}
+
 	var idx int
 	switch node.getArtNodeType() {
 	case node4:
-- 
2.43.0


From 5562b1bbdb6b08ebf5cd59b69fd9d907b2ae4bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:30 +0000
Subject: [PATCH 11/20] fix: count up to 256 children of a node

The counter was a single byte, so a full 256-way node counted zero
children and was taken for a leaf.
---
 node.go      | 4 ++--
 node_16.go   | 6 +++---
 node_256.go  | 6 +++---
 node_4.go    | 6 +++---
 node_48.go   | 6 +++---
 node_leaf.go | 4 ++--
 6 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/node.go b/node.go
index b62b386..552f89c 100644
--- a/node.go
+++ b/node.go
@@ -9,8 +9,8 @@ type Node[T any] interface {
 	getPartialLen() uint32
 	setPartialLen(uint32)
 	getArtNodeType() nodeType
-	getNumChildren() uint8
-	setNumChildren(uint8)
+	getNumChildren() uint16
+	setNumChildren(uint16)
 	getPartial() []byte
 	setPartial([]byte)
 	isLeaf() bool
diff --git a/node_16.go b/node_16.go
index b230a54..b9d8fc8 100644
--- a/node_16.go
+++ b/node_16.go
@@ -12,7 +12,7 @@ import (
 type Node16[T any] struct {
 	id          uint64
 	partialLen  uint32
-	numChildren uint8
+	numChildren uint16
 	partial     []byte
 	keys        [16]byte
 	children    [16]Node[T]
@@ -40,11 +40,11 @@ func (n *Node16[T]) getArtNodeType() nodeType {
 	return node16
 }
 
-func (n *Node16[T]) getNumChildren() uint8 {
+func (n *Node16[T]) getNumChildren() uint16 {
 	return n.numChildren
 }
 
-func (n *Node16[T]) setNumChildren(numChildren uint8) {
+func (n *Node16[T]) setNumChildren(numChildren uint16) {
 	n.numChildren = numChildren
 }
 
diff --git a/node_256.go b/node_256.go
index 5ad5db3..f465bbd 100644
--- a/node_256.go
+++ b/node_256.go
@@ -10,7 +10,7 @@ import (
 type Node256[T any] struct {
 	id          uint64
 	partialLen  uint32
-	numChildren uint8
+	numChildren uint16
 	partial     []byte
 	children    [256]Node[T]
 	mutateCh    atomic.Pointer[chan struct{}]
@@ -45,11 +45,11 @@ func (n *Node256[T]) getArtNodeType() nodeType {
 	return node256
 }
 
-func (n *Node256[T]) getNumChildren() uint8 {
+func (n *Node256[T]) getNumChildren() uint16 {
 	return n.numChildren
 }
 
-func (n *Node256[T]) setNumChildren(numChildren uint8) {
+func (n *Node256[T]) setNumChildren(numChildren uint16) {
 	n.numChildren = numChildren
 }
 
diff --git a/node_4.go b/node_4.go
index a5f818c..024a51b 100644
--- a/node_4.go
+++ b/node_4.go
@@ -12,7 +12,7 @@ import (
 type Node4[T any] struct {
 	id          uint64
 	partialLen  uint32
-	numChildren uint8
+	numChildren uint16
 	partial     []byte
 	keys        [4]byte
 	children    [4]Node[T]
@@ -40,11 +40,11 @@ func (n *Node4[T]) getArtNodeType() nodeType {
 	return node4
 }
 
-func (n *Node4[T]) getNumChildren() uint8 {
+func (n *Node4[T]) getNumChildren() uint16 {
 	return n.numChildren
 }
 
-func (n *Node4[T]) setNumChildren(numChildren uint8) {
+func (n *Node4[T]) setNumChildren(numChildren uint16) {
 	n.numChildren = numChildren
 }
 
diff --git a/node_48.go b/node_48.go
index 5a6949c..1e3af26 100644
--- a/node_48.go
+++ b/node_48.go
@@ -11,7 +11,7 @@ import (
 type Node48[T any] struct {
 	id          uint64
 	partialLen  uint32
-	numChildren uint8
+	numChildren uint16
 	partial     []byte
 	keys        [256]byte
 	children    [48]Node[T]
@@ -39,11 +39,11 @@ func (n *Node48[T]) getArtNodeType() nodeType {
 	return node48
 }
 
-func (n *Node48[T]) getNumChildren() uint8 {
+func (n *Node48[T]) getNumChildren() uint16 {
 	return n.numChildren
 }
 
-func (n *Node48[T]) setNumChildren(numChildren uint8) {
+func (n *Node48[T]) setNumChildren(numChildren uint16) {
 	n.numChildren = numChildren
 }
 
diff --git a/node_leaf.go b/node_leaf.go
index 0039e6d..346b7e3 100644
--- a/node_leaf.go
+++ b/node_leaf.go
@@ -36,11 +36,11 @@ func (n *NodeLeaf[T]) getArtNodeType() nodeType {
 	return leafType
 }
 
-func (n *NodeLeaf[T]) getNumChildren() uint8 {
+func (n *NodeLeaf[T]) getNumChildren() uint16 {
 	return 0
 }
 
-func (n *NodeLeaf[T]) setNumChildren(numChildren uint8) {
+func (n *NodeLeaf[T]) setNumChildren(numChildren uint16) {
 	// no-op
 }
 
-- 
2.43.0


From 03fc15dfe263f313b34b4648820254c80ccb5ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:36 +0000
Subject: [PATCH 12/20] fix: do not share or overwrite the caller's key buffer

Keys and prefixes were kept by reference, so reusing the buffer changed
stored keys, and the terminator byte was written into the spare capacity
of the caller's slice.
---
 helpers.go  | 5 ++++-
 iterator.go | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/helpers.go b/helpers.go
index 4ab93c7..956edbc 100644
--- a/helpers.go
+++ b/helpers.go
@@ -389,7 +389,10 @@ func fullPartial[T any](n Node[T], depth int) []byte {
 }
 
 func getTreeKey(key []byte) []byte {
-	return append(key, '$')
+	treeKey := make([]byte, len(key)+1)
+	copy(treeKey, key)
+	treeKey[len(key)] = '$'
+	return treeKey
 }
 
 func getKey(key []byte) []byte {
diff --git a/iterator.go b/iterator.go
index 870522c..85abde2 100644
--- a/iterator.go
+++ b/iterator.go
@@ -111,7 +111,7 @@ func (i *Iterator[T]) SeekPrefixWatch(prefix []byte) (watch <-chan struct{}) {
 func (i *Iterator[T]) SeekPrefix(prefix []byte) Node[T] {
 	node := i.node
 
-	i.path = prefix
+	i.path = append([]byte{}, prefix...)
 
 	i.stack = nil
 	depth := 0
-- 
2.43.0


From b3a36ed4f8b41f847e7079da8ebdcf53e24c460e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:54 +0000
Subject: [PATCH 13/20] fix: store keys without a terminator byte

The appended '$' sorted like any other byte and could also occur in a
key, so keys came out in the wrong order, keys containing it collided,
and the empty key could not be told apart from the placeholder leaf of
an empty tree. A key that ends at an internal node is now kept as the
leaf of that node, and an empty tree has no leaf at all.
---
 helpers.go   |  9 ++-------
 node_leaf.go | 10 ---------
 tree.go      | 14 +------------
 txn.go       | 57 ++++++++++++++++++++++++----------------------------
 4 files changed, 29 insertions(+), 61 deletions(-)

diff --git a/helpers.go b/helpers.go
index 956edbc..933c1b0 100644
--- a/helpers.go
+++ b/helpers.go
@@ -389,18 +389,13 @@ func fullPartial[T any](n Node[T], depth int) []byte {
 }
 
 func getTreeKey(key []byte) []byte {
-	treeKey := make([]byte, len(key)+1)
+	treeKey := make([]byte, len(key))
 	copy(treeKey, key)
-	treeKey[len(key)] = '$'
 	return treeKey
 }
 
 func getKey(key []byte) []byte {
-	keyLen := len(key)
-	if keyLen == 0 {
-		return key
-	}
-	return key[:keyLen-1]
+	return key
 }
 
 func (t *Txn[T]) removeChild(n Node[T], c byte) Node[T] {
diff --git a/node_leaf.go b/node_leaf.go
index 346b7e3..aad765d 100644
--- a/node_leaf.go
+++ b/node_leaf.go
@@ -82,13 +82,6 @@ func (n *NodeLeaf[T]) setPartial(partial []byte) {
 }
 
 func (l *NodeLeaf[T]) prefixContainsMatch(key []byte) bool {
-	if len(key) == 0 || len(l.key) == 0 {
-		return false
-	}
-	if key == nil {
-		return false
-	}
-
 	return bytes.HasPrefix(getKey(key), getKey(l.key))
 }
 
@@ -108,9 +101,6 @@ func (n *NodeLeaf[T]) PathIterator(path []byte) *PathIterator[T] {
 }
 
 func (n *NodeLeaf[T]) matchPrefix(prefix []byte) bool {
-	if len(n.key) == 0 {
-		return false
-	}
 	return bytes.HasPrefix(n.key, prefix)
 }
 
diff --git a/tree.go b/tree.go
index beee1bb..3235a4b 100644
--- a/tree.go
+++ b/tree.go
@@ -34,12 +34,8 @@ type WalkFn[T any] func(k []byte, v T) bool
 
 func NewRadixTree[T any]() *RadixTree[T] {
 	rt := &RadixTree[T]{size: 0, maxNodeId: 0}
-	rt.root = &Node4[T]{
-		leaf: &NodeLeaf[T]{},
-	}
+	rt.root = &Node4[T]{}
 	rt.root.setId(rt.maxNodeId)
-	rt.root.getNodeLeaf().setId(rt.maxNodeId + 1)
-	rt.maxNodeId++
 	return rt
 }
 
@@ -116,14 +112,6 @@ func (t *RadixTree[T]) LongestPrefix(k []byte) ([]byte, T, bool) {
 			break
 		}
 
-		for _, ch := range n.getChildren() {
-			if ch != nil {
-				if ch.getNodeLeaf() != nil && bytes.HasPrefix(getKey(key), getKey(ch.getNodeLeaf().getKey())) {
-					last = ch.getNodeLeaf()
-				}
-			}
-		}
-
 		// Recursively search
 		child, _ = t.findChild(n, key[depth])
 		if child == nil {
diff --git a/txn.go b/txn.go
index 84c0280..9677b13 100644
--- a/txn.go
+++ b/txn.go
@@ -192,24 +192,15 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 			}
 
 			newLeaf := t.makeLeaf(key, value)
-			newLeafL := newLeaf.getNodeLeaf()
-			nL := node.getNodeLeaf()
-			if nL != nil && nL.getKeyLen() != 0 {
-				if bytes.HasPrefix(getKey(nL.getKey()), getKey(newLeafL.getKey())) {
-					t.trackChannel(node)
-					node = t.writeNode(node, false)
-					newNode := t.allocNode(node4)
-					newNode.setNodeLeaf(newLeaf.(*NodeLeaf[T]))
-					newNode = t.addChild(newNode, key[depth], node)
-					return newNode, zero, true
-				}
-			}
 			t.trackChannel(node)
 			node = t.writeNode(node, false)
 			if depth < len(key) {
 				// No child, node goes within us
 				node = t.addChild(node, key[depth], newLeaf)
 				// newNode was created
+			} else {
+				// The key ends at this node
+				node.setNodeLeaf(newLeaf.getNodeLeaf())
 			}
 			return node, zero, true
 		}
@@ -238,29 +229,36 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 		newLeaf := t.makeLeaf(key, value)
 		if depth+prefixDiff < len(key) {
 			newNode = t.addChild(newNode, key[depth+prefixDiff], newLeaf)
+		} else {
+			// The key ends where the prefixes differ
+			newNode.setNodeLeaf(newLeaf.getNodeLeaf())
 		}
 		return newNode, zero, true
 	}
 
 	// Find a child to recurse to
-	child, idx := t.findChild(node, key[depth])
-	if child != nil {
-		newChild, val, mutatedSubtree := t.recursiveInsert(child, key, value, depth+1, old)
-		if mutatedSubtree || newChild != child {
-			t.trackChannel(node)
-			node = t.writeNode(node, false)
-			node.setChild(idx, newChild)
+	if depth < len(key) {
+		child, idx := t.findChild(node, key[depth])
+		if child != nil {
+			newChild, val, mutatedSubtree := t.recursiveInsert(child, key, value, depth+1, old)
+			if mutatedSubtree || newChild != child {
+				t.trackChannel(node)
+				node = t.writeNode(node, false)
+				node.setChild(idx, newChild)
+			}
+			return node, val, mutatedSubtree
 		}
-		return node, val, mutatedSubtree
 	}
 
 	newLeaf := t.makeLeaf(key, value)
+	t.trackChannel(node)
+	node = t.writeNode(node, false)
 	if depth < len(key) {
-		t.trackChannel(node)
-		node = t.writeNode(node, false)
 		return t.addChild(node, key[depth], newLeaf), zero, true
 	}
-	return node, zero, false
+	// The key ends at this node
+	node.setNodeLeaf(newLeaf.getNodeLeaf())
+	return node, zero, true
 }
 
 func (t *Txn[T]) Delete(key []byte) (T, bool) {
@@ -268,13 +266,10 @@ func (t *Txn[T]) Delete(key []byte) (T, bool) {
 	newRoot, l, _ := t.recursiveDelete(t.tree.root, getTreeKey(key), 0)
 
 	if newRoot == nil {
+		t.tree.maxNodeId++
 		t.tree.root = &Node4[T]{
-			leaf: &NodeLeaf[T]{
-				id: t.tree.maxNodeId + 1,
-			},
 			id: t.tree.maxNodeId,
 		}
-		t.tree.maxNodeId += 2
 	} else {
 		t.tree.root = newRoot
 	}
@@ -416,16 +411,16 @@ func (t *Txn[T]) LongestPrefix(prefix []byte) ([]byte, T, bool) {
 // DeletePrefix is used to delete an entire subtree that matches the prefix
 // This will delete all nodes under that prefix
 func (t *Txn[T]) DeletePrefix(prefix []byte) bool {
+	if t.tree.size == 0 {
+		return false
+	}
 	key := getTreeKey(prefix)
 	newRoot, numDeletions := t.deletePrefix(t.tree.root, key, 0)
 	if newRoot == nil {
+		t.tree.maxNodeId++
 		t.tree.root = &Node4[T]{
-			leaf: &NodeLeaf[T]{
-				id: t.tree.maxNodeId + 1,
-			},
 			id: t.tree.maxNodeId,
 		}
-		t.tree.maxNodeId += 2
 	} else {
 		t.tree.root = newRoot
 	}
-- 
2.43.0


From 0f5e0c0a21a40f9e7ff36a2e9388daac728d5f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:33 +0000
Subject: [PATCH 14/20] fix: copy shared nodes when a transaction is used after
 Commit or Clone

Further writes changed the nodes in place, so they showed up in the tree
that was already committed, or in the cloned transaction.
---
 txn.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/txn.go b/txn.go
index 9677b13..f2219b4 100644
--- a/txn.go
+++ b/txn.go
@@ -66,6 +66,8 @@ func (t *Txn[T]) Clone() *Txn[T] {
 		tree:         newTree,
 		oldMaxNodeId: t.tree.maxNodeId,
 	}
+	// The nodes are now shared with the clone, so further writes must copy them
+	t.oldMaxNodeId = t.tree.maxNodeId
 	return txn
 }
 
@@ -388,6 +390,8 @@ func (t *Txn[T]) CommitOnly() *RadixTree[T] {
 		t.size,
 		t.tree.maxNodeId,
 	}
+	// The nodes now belong to the returned tree, so further writes must copy them
+	t.oldMaxNodeId = t.tree.maxNodeId
 	return nt
 
 }
-- 
2.43.0


From 451ed4b061a73d05f50f1d4195d50d6c48b4682a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:54 +0000
Subject: [PATCH 15/20] fix: keep the watch channels of earlier trees in place

Tracking a change put a new channel on the node of the earlier tree. A
watch that was taken on that tree afterwards never fired, the same was
true after an abandoned transaction, and readers raced with the writer.
Only the copy made by the transaction gets a new channel now. Nodes and
leaves that did not change are no longer reported.
---
 txn.go | 39 ++++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/txn.go b/txn.go
index f2219b4..ef01541 100644
--- a/txn.go
+++ b/txn.go
@@ -22,19 +22,18 @@ type Txn[T any] struct {
 }
 
 func (t *Txn[T]) writeNode(n Node[T], trackCh bool) Node[T] {
+	if n.getId() <= t.oldMaxNodeId {
+		n = n.clone(true)
+		t.tree.maxNodeId++
+		n.setId(t.tree.maxNodeId)
+	}
 	if trackCh {
 		t.trackChannel(n)
 		if n.getNodeLeaf() != nil {
 			t.trackChannel(n.getNodeLeaf())
 		}
 	}
-	if n.getId() > t.oldMaxNodeId {
-		return n
-	}
-	nc := n.clone(!trackCh)
-	t.tree.maxNodeId++
-	nc.setId(t.tree.maxNodeId)
-	return nc
+	return n
 }
 
 // Txn starts a new transaction that can be used to mutate the tree
@@ -130,8 +129,8 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 
 		nodeLeaf := node.getNodeLeaf()
 
-		t.trackChannel(node)
 		node = t.writeNode(node, false)
+		t.trackChannel(node)
 
 		// Determine longest prefix
 		longestPrefix := longestCommonPrefix[T](newLeaf2L, nodeLeaf, depth)
@@ -141,7 +140,6 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 
 		if bytes.HasPrefix(getKey(nodeLeaf.getKey()), getKey(newLeaf2L.getKey())) {
 
-			t.trackChannel(nodeLeaf)
 			newNode.setNodeLeaf(newLeaf2L)
 			newNode = t.addChild(newNode, nodeLeaf.getKey()[depth+longestPrefix], node)
 
@@ -185,8 +183,8 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 				if child != nil {
 					newChild, val, mutatedSubTree := t.recursiveInsert(child, key, value, depth+1, old)
 					if mutatedSubTree || newChild != child {
-						t.trackChannel(node)
 						node = t.writeNode(node, false)
+						t.trackChannel(node)
 						node.setChild(idx, newChild)
 					}
 					return node, val, mutatedSubTree
@@ -194,8 +192,8 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 			}
 
 			newLeaf := t.makeLeaf(key, value)
-			t.trackChannel(node)
 			node = t.writeNode(node, false)
+			t.trackChannel(node)
 			if depth < len(key) {
 				// No child, node goes within us
 				node = t.addChild(node, key[depth], newLeaf)
@@ -211,8 +209,8 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 		newNode := t.allocNode(node4)
 		newNode.setPartialLen(uint32(prefixDiff))
 		copy(newNode.getPartial()[:], node.getPartial()[:min(maxPrefixLen, prefixDiff)])
-		t.trackChannel(node)
 		node = t.writeNode(node, false)
+		t.trackChannel(node)
 
 		// Adjust the prefix of the old node
 		if node.getPartialLen() <= maxPrefixLen {
@@ -244,8 +242,8 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 		if child != nil {
 			newChild, val, mutatedSubtree := t.recursiveInsert(child, key, value, depth+1, old)
 			if mutatedSubtree || newChild != child {
-				t.trackChannel(node)
 				node = t.writeNode(node, false)
+				t.trackChannel(node)
 				node.setChild(idx, newChild)
 			}
 			return node, val, mutatedSubtree
@@ -253,8 +251,8 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 	}
 
 	newLeaf := t.makeLeaf(key, value)
-	t.trackChannel(node)
 	node = t.writeNode(node, false)
+	t.trackChannel(node)
 	if depth < len(key) {
 		return t.addChild(node, key[depth], newLeaf), zero, true
 	}
@@ -276,7 +274,6 @@ func (t *Txn[T]) Delete(key []byte) (T, bool) {
 		t.tree.root = newRoot
 	}
 	if l != nil {
-		t.trackChannel(t.tree.root)
 		t.size--
 		t.tree.size--
 		old := l.getValue()
@@ -329,8 +326,8 @@ func (t *Txn[T]) recursiveDelete(node Node[T], key []byte, depth int) (Node[T],
 	newChild, val, mutate := t.recursiveDelete(child, key, depth+1)
 
 	if newChild != child || val != nil {
-		t.trackChannel(node)
 		node = t.writeNode(node, false)
+		t.trackChannel(node)
 		node.setChild(idx, newChild)
 		if newChild == nil {
 			node = t.removeChild(node, key[depth])
@@ -429,9 +426,6 @@ func (t *Txn[T]) DeletePrefix(prefix []byte) bool {
 		t.tree.root = newRoot
 	}
 	if numDeletions != 0 {
-		if t.trackMutate {
-			t.trackChannel(t.tree.root)
-		}
 		t.tree.size = t.tree.size - uint64(numDeletions)
 		t.size = t.tree.size
 		return true
@@ -480,8 +474,8 @@ func (t *Txn[T]) deletePrefix(node Node[T], key []byte, depth int) (Node[T], int
 		return node, 0
 	}
 
-	t.trackChannel(node)
 	node = t.writeNode(node, false)
+	t.trackChannel(node)
 	node.setChild(idx, newChild)
 	if newChild == nil {
 		node = t.removeChild(node, search[depth])
@@ -578,7 +572,10 @@ func (t *Txn[T]) trackChannel(node Node[T]) {
 		t.trackChnSlice = make([]chan struct{}, 0)
 	}
 	t.trackChnSlice = append(t.trackChnSlice, ch)
-	node.setMutateCh(make(chan struct{}))
+	// A node of an earlier tree keeps its channel, only a copy gets a new one
+	if node.getId() > t.oldMaxNodeId {
+		node.setMutateCh(make(chan struct{}))
+	}
 }
 
 // isClosed returns true if the given channel is closed.
-- 
2.43.0


From 5c7afc5a21af495ead96f6b6b8a301904d09da9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:02 +0000
Subject: [PATCH 16/20] fix: do not report the leaf of a node that only changes
 its size

When a node grew or shrank, the watch on the key stored at that node
fired although the key did not change.
---
 helpers.go | 29 +++++------------------------
 1 file changed, 5 insertions(+), 24 deletions(-)

diff --git a/helpers.go b/helpers.go
index 933c1b0..7afb292 100644
--- a/helpers.go
+++ b/helpers.go
@@ -78,10 +78,7 @@ func (t *Txn[T]) addChild4(n Node[T], c byte, child Node[T]) Node[T] {
 	} else {
 		newNode := t.allocNode(node16)
 		// Copy the child pointers and the key map
-		if n.getNodeLeaf() != nil {
-			nL := t.writeNode(n.getNodeLeaf(), true)
-			newNode.setNodeLeaf(nL.(*NodeLeaf[T]))
-		}
+		newNode.setNodeLeaf(n.getNodeLeaf())
 		copy(newNode.getChildren()[:], n.getChildren()[:n.getNumChildren()])
 		copy(newNode.getKeys()[:], n.getKeys()[:n.getNumChildren()])
 		t.copyHeader(newNode, n)
@@ -107,10 +104,7 @@ func (t *Txn[T]) addChild16(n Node[T], c byte, child Node[T]) Node[T] {
 		return n
 	} else {
 		newNode := t.allocNode(node48)
-		if n.getNodeLeaf() != nil {
-			nL := t.writeNode(n.getNodeLeaf(), true)
-			newNode.setNodeLeaf(nL.(*NodeLeaf[T]))
-		}
+		newNode.setNodeLeaf(n.getNodeLeaf())
 		// Copy the child pointers and populate the key map
 		copy(newNode.getChildren()[:], n.getChildren()[:n.getNumChildren()])
 		for i := 0; i < int(n.getNumChildren()); i++ {
@@ -134,10 +128,7 @@ func (t *Txn[T]) addChild48(n Node[T], c byte, child Node[T]) Node[T] {
 		return n
 	} else {
 		newNode := t.allocNode(node256)
-		if n.getNodeLeaf() != nil {
-			nL := t.writeNode(n.getNodeLeaf(), true)
-			newNode.setNodeLeaf(nL.(*NodeLeaf[T]))
-		}
+		newNode.setNodeLeaf(n.getNodeLeaf())
 		for i := 0; i < 256; i++ {
 			if n.getKeyAtIdx(i) != 0 {
 				newNode.setChild(i, n.getChild(int(n.getKeyAtIdx(i))-1))
@@ -489,10 +480,6 @@ func (t *Txn[T]) removeChild16(n Node[T], c byte) Node[T] {
 		t.copyHeader(newNode, n)
 		copy(n4.keys[:], n.getKeys()[:4])
 		copy(n4.children[:], n.getChildren()[:4])
-		if n.getNodeLeaf() != nil {
-			nL := t.writeNode(n.getNodeLeaf(), true)
-			newNode.setNodeLeaf(nL.(*NodeLeaf[T]))
-		}
 		newNode.setNodeLeaf(n.getNodeLeaf())
 		return newNode
 	}
@@ -510,10 +497,7 @@ func (t *Txn[T]) removeChild48(n Node[T], c uint8) Node[T] {
 		newNode := t.allocNode(node16)
 		t.trackChannel(n)
 		t.copyHeader(newNode, n)
-		if n.getNodeLeaf() != nil {
-			nL := t.writeNode(n.getNodeLeaf(), true)
-			newNode.setNodeLeaf(nL.(*NodeLeaf[T]))
-		}
+		newNode.setNodeLeaf(n.getNodeLeaf())
 		child := 0
 		for i := 0; i < 256; i++ {
 			pos = n.getKeyAtIdx(i)
@@ -538,10 +522,7 @@ func (t *Txn[T]) removeChild256(n Node[T], c uint8) Node[T] {
 		newNode := t.allocNode(node48)
 		t.copyHeader(newNode, n)
 		t.trackChannel(n)
-		if n.getNodeLeaf() != nil {
-			nL := t.writeNode(n.getNodeLeaf(), true)
-			newNode.setNodeLeaf(nL.(*NodeLeaf[T]))
-		}
+		newNode.setNodeLeaf(n.getNodeLeaf())
 		pos := 0
 		for i := 0; i < 256; i++ {
 			if n.getChild(i) != nil {
-- 
2.43.0


From c94818bd337722334a4c5b25e6459c7d0fc1e4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:19 +0000
Subject: [PATCH 17/20] fix: watch a missing key at the node where it would be
 inserted

Only the first bytes of a long compressed path were compared, so the
search went on below a path that does not match, and the watch did not
fire when the key was inserted.
---
 tree.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tree.go b/tree.go
index 3235a4b..ef2e2c6 100644
--- a/tree.go
+++ b/tree.go
@@ -254,8 +254,10 @@ func (t *RadixTree[T]) iterativeSearchWithWatch(key []byte) (T, bool, <-chan str
 
 		// Bail if the prefix does not match
 		if n.getPartialLen() > 0 {
-			prefixLen := checkPrefix(n.getPartial(), int(n.getPartialLen()), key, depth)
-			if prefixLen != min(maxPrefixLen, int(n.getPartialLen())) {
+			// The whole prefix has to match, otherwise the watch would be on a node
+			// that is not on the path of the key
+			prefixLen := prefixMismatch[T](n, key, len(key), depth)
+			if prefixLen < int(n.getPartialLen()) {
 				if n.getNodeLeaf() != nil {
 					if leafMatches(n.getNodeLeaf().getKey(), key) == 0 {
 						return n.getNodeLeaf().getValue(), true, n.getNodeLeaf().getMutateCh()
-- 
2.43.0


From f106de1daf7e02cc83dd2b197383d53e1270b18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:55:12 +0000
Subject: [PATCH 18/20] fix: give the root of an emptied transaction room for a
 compressed path

Delete and DeletePrefix put in a root without the buffer for the compressed
path when they remove the last key. If the same transaction went on inserting
and deleting, a later merge set the length of the path but could not store its
bytes, and the next lookup panicked.
---
 txn.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/txn.go b/txn.go
index ef01541..1378635 100644
--- a/txn.go
+++ b/txn.go
@@ -268,7 +268,8 @@ func (t *Txn[T]) Delete(key []byte) (T, bool) {
 	if newRoot == nil {
 		t.tree.maxNodeId++
 		t.tree.root = &Node4[T]{
-			id: t.tree.maxNodeId,
+			id:      t.tree.maxNodeId,
+			partial: make([]byte, maxPrefixLen),
 		}
 	} else {
 		t.tree.root = newRoot
@@ -420,7 +421,8 @@ func (t *Txn[T]) DeletePrefix(prefix []byte) bool {
 	if newRoot == nil {
 		t.tree.maxNodeId++
 		t.tree.root = &Node4[T]{
-			id: t.tree.maxNodeId,
+			id:      t.tree.maxNodeId,
+			partial: make([]byte, maxPrefixLen),
 		}
 	} else {
 		t.tree.root = newRoot
-- 
2.43.0


From b1db0b577736123598bb577f89a0f1f446167fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:51:19 +0000
Subject: [PATCH 19/20] fix: let transactions that share watch channels be
 notified at the same time

---
 txn.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/txn.go b/txn.go
index 1378635..c333327 100644
--- a/txn.go
+++ b/txn.go
@@ -5,6 +5,7 @@ package adaptive
 
 import (
 	"bytes"
+	"sync"
 )
 
 const defaultModifiedCache = 8192
@@ -394,10 +395,16 @@ func (t *Txn[T]) CommitOnly() *RadixTree[T] {
 
 }
 
+// notifyLock keeps transactions that share watch channels, for example clones in
+// different goroutines, from closing the same channel twice.
+var notifyLock sync.Mutex
+
 // slowNotify does a complete comparison of the before and after trees in order
 // to trigger notifications. This doesn't require any additional state but it
 // is very expensive to compute.
 func (t *Txn[T]) slowNotify() {
+	notifyLock.Lock()
+	defer notifyLock.Unlock()
 	for _, ch := range t.trackChnSlice {
 		if ch != nil && !isClosed(ch) {
 			close(ch)
-- 
2.43.0


From 0e3413cbf6828beba47b73ddfd635263695b6182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:05:54 +0000
Subject: [PATCH 20/20] fix: respect the bound when an iterator on a leaf is
 seeked

---
 lower_bound_iterator.go | 4 ++--
 reverse_iterator.go     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lower_bound_iterator.go b/lower_bound_iterator.go
index d843c3b..4c687da 100644
--- a/lower_bound_iterator.go
+++ b/lower_bound_iterator.go
@@ -115,8 +115,8 @@ func (i *LowerBoundIterator[T]) SeekLowerBound(prefixKey []byte) {
 
 	for node != nil {
 		if node.isLeaf() {
-			nL := node.getNodeLeaf()
-			if nL == nil || bytes.Compare(getKey(nL.getKey()), i.path) >= 0 {
+			// The node is the leaf itself if the iterator was created on a leaf.
+			if nL := minimum[T](node); bytes.Compare(getKey(nL.getKey()), i.path) >= 0 {
 				i.stack = append(i.stack, node)
 			}
 			return
diff --git a/reverse_iterator.go b/reverse_iterator.go
index ec111fa..5a9e031 100644
--- a/reverse_iterator.go
+++ b/reverse_iterator.go
@@ -41,8 +41,8 @@ func (ri *ReverseIterator[T]) SeekReverseLowerBound(key []byte) {
 	for n != nil {
 		if n.isLeaf() {
 			// The leaf is the lower bound or there is none below this node.
-			nL := n.getNodeLeaf()
-			if nL == nil || bytes.Compare(getKey(nL.getKey()), key) <= 0 {
+			// The node is the leaf itself if the iterator was created on a leaf.
+			if nL := minimum[T](n); bytes.Compare(getKey(nL.getKey()), key) <= 0 {
 				ri.i.stack = append(ri.i.stack, n)
 			}
 			return
-- 
2.43.0

