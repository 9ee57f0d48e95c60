From 9b30e3b5a5f48d9a00d1b7fd81e9d440cc231ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:45 +0000
Subject: [PATCH 01/11] fix: array2d: use the width as the row stride

The element index was x+y*height, so in a non-square array cells of
different rows overlapped (width > height) or lay outside the storage
(height > width).
---
 array2d/array2d.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/array2d/array2d.go b/array2d/array2d.go
index 172283c..e8fa9ab 100644
--- a/array2d/array2d.go
+++ b/array2d/array2d.go
@@ -78,7 +78,7 @@ func (a Array2D[T]) Get(x, y int) T {
 }
 
 func (a Array2D[T]) getUnchecked(x, y int) T {
-	return a.slice[x+y*a.height]
+	return a.slice[x+y*a.width]
 }
 
 // Set sets a value in the array.
@@ -95,7 +95,7 @@ func (a Array2D[T]) Set(x, y int, value T) {
 }
 
 func (a Array2D[T]) setUnchecked(x, y int, value T) {
-	a.slice[x+y*a.height] = value
+	a.slice[x+y*a.width] = value
 }
 
 // Width returns the width of this array. The maximum x value is Width()-1.
@@ -134,7 +134,7 @@ func (a Array2D[T]) RowSpan(x1, x2, y int) []T {
 	if x2 < x1 {
 		x1, x2 = x2, x1
 	}
-	return a.slice[x1+y*a.height : 1+x2+y*a.height]
+	return a.slice[x1+y*a.width : 1+x2+y*a.width]
 }
 
 // Row returns a mutable slice for an entire row. Changing values in this slice
@@ -143,7 +143,7 @@ func (a Array2D[T]) Row(y int) []T {
 	if y < 0 || y >= a.height {
 		panic(fmt.Sprintf("array2d: y index out of range [%d] with height %d", y, a.height))
 	}
-	return a.slice[y*a.height : a.width+y*a.height]
+	return a.slice[y*a.width : a.width+y*a.width]
 }
 
 // Fill will assign all values inside the region to the specified value.
@@ -171,10 +171,10 @@ func (a Array2D[T]) Fill(x1, y1, x2, y2 int, value T) {
 	if y2 < y1 {
 		y1, y2 = y2, y1
 	}
-	firstRow := a.slice[x1+y1*a.height : 1+x2+y1*a.height]
+	firstRow := a.slice[x1+y1*a.width : 1+x2+y1*a.width]
 	fill(firstRow, value)
 	for y := y1 + 1; y <= y2; y++ {
-		copy(a.slice[x1+y*a.height:1+x2+y*a.height], firstRow)
+		copy(a.slice[x1+y*a.width:1+x2+y*a.width], firstRow)
 	}
 }
 
-- 
2.43.0


From 9078a97e7ad32995e7c1c9db3385d548ca1378f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:45 +0000
Subject: [PATCH 02/11] fix: array2d: OfJagged ignores rows past the height, as
 documented

It panicked instead.
---
 array2d/array2d.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/array2d/array2d.go b/array2d/array2d.go
index e8fa9ab..dad7379 100644
--- a/array2d/array2d.go
+++ b/array2d/array2d.go
@@ -32,6 +32,9 @@ func NewFilled[T any](width, height int, value T) Array2D[T] {
 func OfJagged[J ~[]S, S ~[]E, E any](width, height int, jagged J) Array2D[E] {
 	arr := New[E](width, height)
 	for y, row := range jagged {
+		if y >= height {
+			break
+		}
 		copy(arr.Row(y), row)
 	}
 	return arr
-- 
2.43.0


From 7ea20880ac1e8ca4e2767bf4789ebd7ff22797e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:45 +0000
Subject: [PATCH 03/11] fix: btree: Put of a key already present does not
 change Size

---
 btree/btree.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/btree/btree.go b/btree/btree.go
index c96e2ea..7f461b4 100644
--- a/btree/btree.go
+++ b/btree/btree.go
@@ -77,8 +77,11 @@ func (t *Tree[K, V]) search(x *node[K, V], key K, height int) (V, bool) {
 
 // Put associates 'key' with 'val'.
 func (t *Tree[K, V]) Put(key K, val V) {
+	_, exists := t.Get(key)
 	u := t.insert(t.root, key, val, t.height, true)
-	t.n++
+	if !exists {
+		t.n++
+	}
 	if u == nil {
 		return
 	}
-- 
2.43.0


From 9fe7b9e2d63a90a696f535a210893ed8c5e0d2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:46 +0000
Subject: [PATCH 04/11] fix: hashmap: Clear does not clear the copies that
 share the entries

---
 hashmap/map.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/hashmap/map.go b/hashmap/map.go
index 088978a..af52ab2 100644
--- a/hashmap/map.go
+++ b/hashmap/map.go
@@ -172,6 +172,14 @@ func (m *Map[K, V]) Remove(key K) {
 
 // Clear removes all key-value pairs from the map.
 func (m *Map[K, V]) Clear() {
+	if m.readonly {
+		// the entries are shared with a copy of this map
+		m.entries = make([]entry[K, V], len(m.entries), cap(m.entries))
+		m.length = 0
+		m.readonly = false
+		return
+	}
+
 	for idx, entry := range m.entries {
 		if entry.filled {
 			m.remove(uint64(idx))
-- 
2.43.0


From bdca966f8cea9bd41d598e750a936e2831a49f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:46 +0000
Subject: [PATCH 05/11] fix: set: IsDisjoint was inverted

---
 set/set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/set/set.go b/set/set.go
index cb9cdf5..e5abf3b 100644
--- a/set/set.go
+++ b/set/set.go
@@ -145,7 +145,7 @@ func (s Set[K]) Keys() []K {
 
 func (s Set[K]) IsDisjoint(other SetOf[K]) bool {
 	// TODO: maybe optimize?
-	return s.Intersection(other).Size() > 0
+	return s.Intersection(other).Size() == 0
 }
 
 func (s Set[K]) IsSubset(of SetOf[K]) bool {
-- 
2.43.0


From 709eea15a49d7311cfa19c5298089beecf9b3038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:46 +0000
Subject: [PATCH 06/11] fix: set: do not remove elements from a set while
 iterating over it

A hashset moves elements on removal, so intersections (and the difference
of a set with itself) kept elements whose hashes collide.
---
 set/set.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/set/set.go b/set/set.go
index e5abf3b..c13dc0b 100644
--- a/set/set.go
+++ b/set/set.go
@@ -108,20 +108,24 @@ func (s Set[K]) SymmetricDifference(others ...SetOf[K]) Set[K] {
 
 func (s Set[K]) InPlaceIntersection(others ...SetOf[K]) Set[K] {
 	for _, other := range others {
-		s.Each(func(key K) {
+		// a hashset may move elements when one is removed, so not inside Each
+		for _, key := range s.Keys() {
 			if !other.Has(key) {
 				s.Remove(key)
 			}
-		})
+		}
 	}
 	return s
 }
 
 func (s Set[K]) InPlaceDifference(others ...SetOf[K]) Set[K] {
 	for _, other := range others {
-		other.Each(func(key K) {
-			s.Remove(key)
-		})
+		// other may be s itself, so do not remove inside other.Each
+		for _, key := range s.Keys() {
+			if other.Has(key) {
+				s.Remove(key)
+			}
+		}
 	}
 	return s
 }
-- 
2.43.0


From b8a4187b190f2fc733a62e78b55eea0cc74f4586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:46 +0000
Subject: [PATCH 07/11] fix: ulist: Remove of a block's last entry moves the
 iterator to the next entry

It was left past the end of the block, where it is not valid.
---
 ulist/ulist.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ulist/ulist.go b/ulist/ulist.go
index 0249f92..f57afa6 100644
--- a/ulist/ulist.go
+++ b/ulist/ulist.go
@@ -127,6 +127,11 @@ func (ul *UList[V]) Remove(iter *UListIter[V]) {
 		iter.Next()
 		return
 	}
+	if iter.index == len(iter.node.Value) && iter.node.Next != nil {
+		// The last entry of a block was removed: move on to the next block.
+		iter.node = iter.node.Next
+		iter.index = 0
+	}
 }
 
 func hasCapacity[V any](llNode *list.Node[ulistBlk[V]]) bool {
-- 
2.43.0


From 4c9b4fb37e1e7380296f0a1af631feb70b732c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:46 +0000
Subject: [PATCH 08/11] fix: rope: Rebuild turns the node into a leaf before
 splitting it

It was left an inner node without children, so Rebuild, Rebalance or the
next use of the rope panicked.
---
 rope/rope.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rope/rope.go b/rope/rope.go
index 6fb6c75..6fd66fc 100644
--- a/rope/rope.go
+++ b/rope/rope.go
@@ -234,6 +234,8 @@ func (n *Node[V]) Rebuild() {
 		n.value = concat(n.left.Value(), n.right.Value())
 		n.left = nil
 		n.right = nil
+		n.kind = tLeaf
+		n.length = len(n.value)
 		n.adjust()
 	}
 }
-- 
2.43.0


From d09dc78bfc41baf40dc02a2045307a5d5e682489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:46 +0000
Subject: [PATCH 09/11] fix: trie: Remove of a key not in the trie does not
 change Size

---
 trie/trie.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trie/trie.go b/trie/trie.go
index d01739d..b251082 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -145,7 +145,7 @@ func (t *Trie[V]) put(x *node[V], key string, val V, d int) *node[V] {
 // Remove removes the value associated with 'key', along with any nodes of the key that are no
 // longer used.
 func (t *Trie[V]) Remove(key string) {
-	if len(key) == 0 {
+	if !t.Contains(key) {
 		return
 	}
 
-- 
2.43.0


From df11e624f67ff1912f7ce4704cdf5aaa3621fdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:46 +0000
Subject: [PATCH 10/11] fix: cache: Put on a cache of capacity zero stores
 nothing

It panicked, for there was no entry to evict.
---
 cache/cache.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cache/cache.go b/cache/cache.go
index b67844b..4078a2a 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -54,6 +54,9 @@ func (t *Cache[K, V]) Put(k K, e V) {
 		return
 	}
 
+	if t.capacity == 0 {
+		return
+	}
 	if len(t.table) == t.capacity {
 		t.evict()
 	}
-- 
2.43.0


From 1b34ffd37074d0f0b4da1f6a1f9189f3c351d7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:30 +0000
Subject: [PATCH 11/11] fix: ulist: Next and Prev of an iterator over an empty
 list do not panic

---
 ulist/ulist_iter.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ulist/ulist_iter.go b/ulist/ulist_iter.go
index 858ac61..dd58253 100644
--- a/ulist/ulist_iter.go
+++ b/ulist/ulist_iter.go
@@ -51,6 +51,9 @@ func (iter *UListIter[V]) Get() V {
 
 // Next moves the iterator one step forward and returns true if the iterator is valid.
 func (iter *UListIter[V]) Next() bool {
+	if iter.node == nil {
+		return false // the ulist was empty
+	}
 	iter.index++
 	blk := iter.node.Value
 	if iter.index >= len(blk) {
@@ -67,6 +70,9 @@ func (iter *UListIter[V]) Next() bool {
 
 // Prev moves the iterator one step back and returns true if the iterator is valid.
 func (iter *UListIter[V]) Prev() bool {
+	if iter.node == nil {
+		return false // the ulist was empty
+	}
 	iter.index--
 	if iter.index < 0 {
 		if iter.node.Prev != nil {
-- 
2.43.0

