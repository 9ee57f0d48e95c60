#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so the entries stay readable).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

p("C01", "array2d: every cell is its own storage",
  "For every width and height, Get(x, y) returns the value last stored in cell (x, y) by Set (the zero or fill value if none), and storing into one cell never changes another. Get and Set panic exactly when x is outside [0, Width) or y is outside [0, Height).",
  ["inputs", "histories"], "all widths, heights, coordinates and store sequences",
  "The tests use square arrays of a few sizes only; the addressing must be injective for every shape.",
  ["array2d/array2d.go"], [("row-major index x + y*width behind bounds checks", "array2d.Array2D.Get, Set")], ["Array2D.Get", "Array2D.Set"])
p("C02", "array2d: rows, spans, Fill and constructors address the same cells",
  "Row(y) and RowSpan(x1, x2, y) are windows onto exactly the cells (x, y) of that row (x from min(x1,x2) to max(x1,x2) inclusive), Fill stores the value in exactly the cells of the inclusive rectangle whichever way its corners are given, and all of them panic on out-of-range coordinates. New and NewFilled give every cell the zero or the given value, and OfJagged puts jagged[y][x] in cell (x, y) and ignores what lies outside.",
  ["inputs"], "all widths, heights, coordinates, corner orders and jagged inputs",
  "Tests fill one square array with ordered corners; non-square arrays, swapped corners and edge rows are not sampled.",
  ["array2d/array2d.go"], [("slice bounds x1+y*width .. x2+1+y*width", "array2d.Array2D.Row, RowSpan, Fill"), ("exponential copy fill", "array2d.fill")], ["Array2D.Row", "Array2D.RowSpan", "Array2D.Fill", "OfJagged", "NewFilled"])
p("C03", "avl: the tree is a sorted map",
  "After any sequence of Put and Remove, Get(k) returns the value of the last Put whose key equals k (under the less function) unless a later Remove took it away, Each visits every entry exactly once in ascending key order, and Size is the number of entries. Keys are compared only with the less function given to New.",
  ["histories", "inputs"], "all operation sequences, key sets and strict weak orders",
  "A random cross-check of 1000 operations on 100 keys that never calls Get and does not look at the order.",
  ["avl/avl.go"], [("recursive insert/remove/search by three-way comparison", "avl.node.add, remove, search, each"), ("rotations preserve the in-order sequence", "avl.node.rotateLeft, rotateRight")], ["Tree.Get", "Tree.Each", "Tree.Size"])
p("C04", "avl: the tree is height-balanced and Height is exact",
  "After any sequence of Put and Remove, at every node the heights of the two subtrees differ by at most one and the recorded height is the true one, so Height() is at most about 1.44 log2(Size+2).",
  ["histories"], "all operation sequences",
  "No test looks at heights or balance.",
  ["avl/avl.go"], [("rebalance on the way up after every insert and remove", "avl.node.rebalanceTree, recalculateHeight, rotateLeft, rotateRight")], ["Tree.Height"])
p("C05", "bimap: forward and reverse lookups are always inverse",
  "After any sequence of Add, RemoveForward, RemoveReverse and Clear, GetForward(k) is v exactly when GetReverse(v) is k, Len and Each agree with both directions, and the pairs are those of the sequential meaning: Add(k, v) evicts every older pair with key k or with value v. RemoveForward and RemoveReverse take away exactly the pair named.",
  ["histories", "inputs"], "all operation sequences and key/value collisions",
  "Two unit tests with a handful of pairs; collisions on both sides at once are not exercised.",
  ["bimap/bimap.go"], [("paired updates of two maps", "bimap.Bimap.Add, RemoveForward, RemoveReverse, Clear")], ["GetForward", "GetReverse", "Len", "Each"])
p("C06", "btree: the tree is a sorted map with an exact Size",
  "After any sequence of Put and Remove, Get(k) returns the value of the last Put of k unless k was removed since, Each visits every live entry exactly once in ascending key order, and Size is the number of live entries.",
  ["histories", "inputs"], "all operation sequences, including ones that split nodes at several levels and re-insert removed keys",
  "A random cross-check on 100 distinct keys: at most a couple of leaf splits, never a split of an inner node; Size and Get of absent keys are not compared.",
  ["btree/btree.go"], [("separator-guided descent, shifted insertion, tombstones", "btree.Tree.search, insert, split, each, Put, Remove")], ["Tree.Get", "Tree.Each", "Tree.Size"])
p("C07", "btree: all leaves at one depth, nodes at least half full",
  "After any sequence of Put and Remove every leaf is at the same depth and no node exceeds the branching factor; a node that overflows is split into two halves which together hold exactly its entries, and the depth grows only by a root split, so every path is logarithmic in the number of keys ever stored.",
  ["histories"], "all operation sequences of any length",
  "Tests never store enough keys to split an inner node and never look at the structure.",
  ["btree/btree.go"], [("split at maxChildren into two halves", "btree.Tree.split, insert"), ("root growth", "btree.Tree.Put")], ["Tree.Get after many Puts"])
p("C08", "cache: bounded, and the index agrees with the recency list",
  "For every capacity of zero or more and every sequence of Put, Get, Remove and Resize, Size never exceeds Capacity, the entries Each visits are exactly the keys Get finds with the values last Put, and an entry leaves only by Remove or by an eviction needed to make room. No operation panics.",
  ["histories", "configurations"], "all operation sequences and capacities (including 0 and shrinking ones)",
  "One example with capacity 1 to 3 and seven operations.",
  ["cache/cache.go", "list/list.go"], [("evict before insert when full; paired updates of table and list", "cache.Cache.Put, evict, Remove, Resize")], ["Size", "Get", "Each", "Capacity"])
p("C09", "cache: eviction is least-recently-used, each victim announced once",
  "Get of a present key and Put make that entry the most recently used and leave the order of the others; Each goes from most to least recently used; when room is needed the least recently used entry goes, and only that one. The eviction callback set last is called exactly once for each entry evicted by Put or Resize, with its key and value, in eviction order, and never otherwise.",
  ["histories"], "all operation sequences and callbacks",
  "One example with one access pattern.",
  ["cache/cache.go", "list/list.go"], [("move to front on access; evict from the back", "cache.Cache.Get, Put, evict")], ["Each", "SetEvictCallback"])
p("C10", "hashmap: the table is a map, whatever the hash function",
  "After any sequence of Put, Remove and Clear, with any hash function consistent with the equality (all keys colliding included) and any initial capacity, Get(k) returns the value of the last Put of k unless removed since, Each visits each live entry exactly once, and Size counts them. Every operation terminates: the table always keeps a free slot.",
  ["histories", "inputs", "configurations"], "all operation sequences, hash functions and initial capacities",
  "A random cross-check with one good hash; clusters that wrap around the table end, deletions inside clusters and shrinking with collisions are rarely met.",
  ["hashmap/map.go"], [("linear probing, re-insertion of the cluster after removal, resize at half load", "hashmap.Map.Get, Put, Remove, resize")], ["Get", "Each", "Size"])
p("C11", "hashmap, hashset: copies never see each other's changes",
  "After Copy, no operation on the original changes what the copy contains and no operation on the copy changes what the original or another copy contains, however many copies of copies are made and whichever of Put, Remove, Clear or a resize comes first.",
  ["histories"], "all interleavings of operations on a map and its copies",
  "One test copies once and writes once to the copy, and does not look at the original.",
  ["hashmap/map.go", "hashset/set.go"], [("readonly flag set on both sides, cleared only by replacing the entries", "hashmap.Map.Copy, Put, Remove, Clear, resize")], ["Map.Copy", "Set.Copy"])
p("C12", "heap: Pop and Peek give a minimum; nothing is lost or invented",
  "For every strict weak order and every sequence of Push and Pop on a heap made by New, From or FromSlice, Peek and Pop return an element that no element of the heap is less than, Pop removes exactly that element, Push adds exactly the one given, and Size counts them; on an empty heap Pop and Peek return the zero value and false.",
  ["histories", "inputs"], "all element sequences and orders",
  "A few fixed sequences of ints.",
  ["heap/heap.go"], [("sift up and sift down by swaps with parent and smaller child", "heap.up, down"), ("heapify from the last parent down to the root", "heap.FromSlice")], ["Heap.Pop", "Heap.Peek"])
p("C13", "interval: the tree is a balanced map from start to interval",
  "After any sequence of Add, Put and Remove, Get(low) returns the interval and value stored at low; Add of a taken start changes nothing and returns the conflicting interval, Put replaces and returns it, Remove deletes and returns it; Each visits every interval once in ascending start order and Size counts them. The tree stays height-balanced and Height is exact.",
  ["histories", "inputs"], "all operation sequences and interval sets",
  "Fixed sequences of at most four intervals; Remove and Add are not tested.",
  ["interval/itree.go"], [("insert/remove/search by start, rotations", "interval.node.insert, remove, removeThis, search, each, rebalanceTree")], ["Tree.Get", "Tree.Add", "Tree.Put", "Tree.Remove", "Tree.Each", "Tree.Height"])
p("C14", "interval: Overlaps returns exactly the overlapping intervals, in order",
  "After any sequence of operations and for every query [low, high), Overlaps returns every stored interval that starts before high and ends after low, no other, once each, in ascending start order; the subtree pruning never hides a result because the highest end point recorded for a subtree is always exact.",
  ["histories", "inputs"], "all interval sets, tree shapes and queries",
  "Two small trees and five queries, none after a Remove or a double rotation.",
  ["interval/itree.go"], [("augmented max, recomputed bottom-up", "interval.node.updateMax, rebalanceTree, rotateLeft, rotateRight"), ("pruned in-order traversal", "interval.node.overlaps")], ["Tree.Overlaps"])
p("C15", "list: links stay consistent in both directions",
  "Starting from an empty list, after any sequence of pushes, inserts before or after a member and removals of members, the list read forward from Front is the sequence those operations define, read backward from Back it is its reverse, Front has no predecessor, Back no successor, and an empty list has neither. The Each functions visit from the given node to the end (or beginning), in order, once each.",
  ["histories"], "all operation sequences and positions (first, middle, last, only)",
  "The only test pushes three values at the back.",
  ["list/list.go"], [("splicing of neighbours with end cases", "list.List.PushBackNode, PushFrontNode, InsertAfter, InsertBefore, Remove")], ["List.Front", "List.Back", "Node.Each", "Node.EachReverse"])
p("C16", "multimap: all four kinds agree with their model; Size is exact",
  "After any sequence of Put, Remove, RemoveAll and Clear, Size is the total number of entries, Dimension the number of keys with at least one entry, Count(k) and len(Get(k)) the number of entries of k and Has(k) whether there is one; slice-backed kinds keep duplicates and Remove takes one of them, set-backed kinds keep one entry per value. Each and EachAssociation visit exactly the entries, with AVL kinds in key order and set kinds in value order.",
  ["histories", "inputs", "configurations"], "all operation sequences on all four implementations",
  "One fixed scenario per implementation.",
  ["multimap/avl.go", "multimap/map.go", "multimap/values.go", "multimap/multimap.go"], [("size changed by what the container reports; empty containers dropped", "multimap Put, Remove, RemoveAll, Clear")], ["MultiMap.Size", "Dimension", "Count", "Get", "Each"])
p("C17", "queue: first in, first out, with an exact length",
  "For every sequence of Enqueue, Dequeue, TryDequeue, DequeueAll and Clear on a queue made by New or Of, elements leave in the order they entered, each exactly once; Len is the number of elements inside and Empty says whether that is zero. Peek, TryPeek, PeekAll and Each show the elements oldest first without removing them; on an empty queue Dequeue and Peek panic and the Try forms return the zero value and false.",
  ["histories"], "all operation sequences",
  "Each test makes a few operations on at most three elements.",
  ["queue/queue.go", "list/list.go"], [("push at the back, remove at the front, counter kept in step", "queue.Queue.Enqueue, TryDequeue, Clear")], ["Queue.Dequeue", "Queue.Len", "Queue.PeekAll"])
p("C18", "rope: edits and reads mean what they mean on an array",
  "For every content, threshold setting and tree shape, Insert(pos, v), Remove(start, end), SplitAt, Join, Rebuild and Rebalance have the effect of the same edit on an array, Len is its length, and Value, Slice, At and Each read exactly its elements in order. Later edits to one part never change elements elsewhere in the rope (no two leaves share growable storage).",
  ["histories", "inputs", "configurations"], "all contents, positions inside the rope, SplitLength/JoinLength settings and operation sequences",
  "Random edits on one byte string with one setting; Rebuild, Rebalance, At and Each are untested.",
  ["rope/rope.go"], [("length-guided descent with clamped ranges", "rope.Node.Insert, Remove, Slice, SplitAt"), ("leaf split/merge", "rope.Node.adjust"), ("capacity-clipped leaf slices", "rope.New")], ["Node.Value", "Node.Len", "Node.Slice"])
p("C19", "prope: edits and reads mean what they mean on an array",
  "For every content, threshold setting and tree shape, Insert(pos, v), Remove(start, end), SplitAt and Join return a rope whose content is that of the same edit on an array, Rebuild and Rebalance keep the content, Len is its length, and Value, Slice and At read exactly its elements in order.",
  ["histories", "inputs", "configurations"], "all contents, positions, SplitLength/JoinLength settings and operation sequences",
  "Random edits on one byte string with one setting; Rebuild, Rebalance and At are untested.",
  ["prope/prope.go"], [("length-guided path copying", "prope.Node.Insert, Remove, SplitAt, Join"), ("range clamping", "prope.bound")], ["Node.Value", "Node.Len", "Node.Slice"])
p("C20", "prope: old versions never change",
  "Insert, Remove, SplitAt and Join leave every rope that existed before the call reading exactly as it did (content, length, slices), and so does any later operation on the ropes they return; Rebuild and Rebalance change at most the shape of their receiver. A slice returned by Value or Slice is the caller's own.",
  ["histories"], "all operation sequences over any number of live versions",
  "Tests follow the newest version only.",
  ["prope/prope.go"], [("path copying; leaf values never written in place", "prope.Node.Insert, Remove, insert, remove")], ["Node.Value of an older version"])
p("C21", "set: results are those of set algebra",
  "For all sets, whatever their implementation, Union, Intersection, Difference and SymmetricDifference, their Const and InPlace forms, Clone, Keys and Map give exactly the elements of that set operation, and IsSubset, IsSuperset, IsProperSubset, IsProperSuperset, Equal and IsDisjoint are true exactly when the relation holds. Union, Intersection and Difference of several sets combine all of them.",
  ["inputs", "configurations"], "all element sets, operand kinds and numbers of operands (including none, equal sets and the receiver itself)",
  "Examples on small mapsets of ints; the relations are not tested at all.",
  ["set/set.go"], [("element-wise Put/Remove guided by Has", "set.Set.InPlaceUnion, InPlaceIntersection, InPlaceDifference, SymmetricDifference"), ("counting and flag loops", "set.Set.Equal, IsSubset, IsSuperset")], ["Set operations"])
p("C22", "set: operands stay unmodified, and no set changes under its own iteration",
  "Union, Intersection, Difference, SymmetricDifference, their Const forms, Clone and all queries leave the receiver and every argument unchanged, and InPlace forms change the receiver only and return it. No operation removes elements from a set from within an iteration over that same set.",
  ["inputs"], "all operations and operands",
  "Examples look at the result only.",
  ["set/set.go"], [("work on a clone", "set.Set.Intersection, Difference, Union, SymmetricDifference"), ("snapshot of the keys before removing", "set.Set.InPlaceIntersection, InPlaceDifference")], ["operands after the call"])
p("C23", "stack: last in, first out",
  "For every sequence of Push, Pop and Copy, Pop removes and returns the most recently pushed element still on that stack, Peek shows it without removing it, Size counts the elements, and on an empty stack Pop and Peek return the zero value. A copy and its original evolve independently, whatever is pushed or popped on either.",
  ["histories"], "all operation sequences on a stack and its copies",
  "Two short scenarios.",
  ["stack/stack.go"], [("append/truncate at the end; Copy into fresh storage", "stack.Stack.Push, Pop, Copy")], ["Stack.Pop", "Stack.Peek", "Stack.Size"])
p("C24", "trie: the trie is a map from non-empty strings",
  "After any sequence of Put and Remove, for every non-empty string k Get(k) returns the value of the last Put of k unless removed since, Contains agrees with Get, Size is the number of keys held, and a Put or Remove of one key never affects another, including its prefixes and extensions; Put and Remove of the empty string have no effect.",
  ["histories", "inputs"], "all operation sequences and byte strings",
  "Random long keys that share hardly any prefix; Size and absent keys are not compared.",
  ["trie/trie.go"], [("three-way descent by byte", "trie.Trie.get, put, remove"), ("unlinking of unused nodes", "trie.node.delete, minChild, deleteMinChild")], ["Trie.Get", "Trie.Size", "Trie.Contains"])
p("C25", "trie: prefix queries are exact and sorted",
  "For every content, Keys returns every key once in ascending byte order, KeysWithPrefix(p) exactly the keys that start with p in that order, and LongestPrefix(q) the longest key that is a prefix of q (the empty string if there is none). The returned strings stay valid whatever happens to the trie later.",
  ["inputs", "histories"], "all key sets and query strings",
  "Two fixed examples; LongestPrefix is untested.",
  ["trie/trie.go"], [("in-order traversal collecting the path", "trie.Trie.collect"), ("remembering the last valid node on the path", "trie.Trie.LongestPrefix")], ["Trie.Keys", "Trie.KeysWithPrefix", "Trie.LongestPrefix"])
p("C26", "ulist: the entries form the sequence the operations define",
  "For every block size and every sequence of PushBack, PushFront, AddAfter, AddBefore and Remove, the entries read by iterating from Begin (and, reversed, from End) are the sequence those operations define on a plain list, Size is their number, and no entry is lost, repeated or overwritten when blocks overflow or empty.",
  ["histories", "configurations"], "all operation sequences, block sizes of one or more and iterator positions",
  "Fixed scenarios with one block size.",
  ["ulist/ulist.go", "list/list.go"], [("in-block shifting and overflow to the next block", "ulist.UList.AddAfter, addOverflowToNextBlock, prependToBlock"), ("dropping of emptied blocks", "ulist.UList.Remove")], ["UList.Begin/Next/Get", "UList.Size"])
p("C27", "ulist: iterators point where the documentation says",
  "Next and Prev move by exactly one entry across any block boundary and return whether the iterator is valid, an iterator that ran off either end is not valid and comes back with one step the other way; after AddAfter and AddBefore the iterator given points at the new entry, and after Remove at the entry that followed the removed one (not valid if there was none); PushBack leaves a valid iterator on its entry. Get on a valid iterator never panics.",
  ["histories", "configurations"], "all contents, block layouts and positions",
  "Fixed scenarios with one block size; removal of the last entry of an inner block is not exercised.",
  ["ulist/ulist_iter.go", "ulist/ulist.go"], [("index stepping with block hand-over", "ulist.UListIter.Next, Prev, IsValid")], ["UListIter.Get", "UListIter.IsValid"])
p("C28", "generic: comparison helpers obey the order they are given",
  "For every strict weak order and all arguments, Compare returns -1, 1 or 0 exactly when a is less, greater or neither; Max, Min, MaxFunc and MinFunc return one of their arguments that is respectively not less and not greater than the other; Clamp and ClampFunc, for lo not above hi, return lo below the range, hi above it and x itself inside it. Less and Equals are exactly < and ==.",
  ["inputs"], "all arguments and orders",
  "Examples with a few numbers.",
  ["generic.go"], [("two-way less calls", "generic.Compare, MaxFunc, MinFunc, Clamp, ClampFunc")], ["Compare", "Max", "Min", "Clamp"])
p("C29", "generic: hash helpers are pure functions that use all of their argument",
  "Each Hash function returns the same result for equal arguments every time, in every process, does not retain or modify its argument, and distinct integers of one width never collide; HashString and HashBytes agree on the same bytes and depend on every byte.",
  ["inputs"], "all arguments",
  "The hash functions are only used through maps with a few keys; no test states purity or injectivity.",
  ["generic.go"], [("bijective xor-shift-multiply mixing", "generic.hash"), ("FNV-1a", "generic.HashString, HashBytes")], ["Hash functions"])
p("C30", "queries never modify the container",
  "In every package the operations that only read (lookups, sizes, traversals, iteration, slices and string forms, cache lookups excepted) write nothing that existed before the call, so any number of them may run concurrently and none changes the answer of another.",
  ["schedules", "histories"], "all containers, contents and interleavings of queries",
  "Tests run single-threaded and never repeat a query to see whether it disturbed anything.",
  ["array2d/array2d.go", "avl/avl.go", "bimap/bimap.go", "btree/btree.go", "cache/cache.go", "hashmap/map.go", "hashset/set.go", "heap/heap.go", "interval/itree.go", "list/list.go", "mapset/set.go", "multimap/avl.go", "multimap/map.go", "multimap/values.go", "prope/prope.go", "queue/queue.go", "rope/rope.go", "set/set.go", "stack/stack.go", "trie/trie.go", "ulist/ulist.go", "ulist/ulist_iter.go"],
  [("no store to receiver-reachable memory on any path", "all query methods")], ["any query, twice or concurrently"])
p("C31", "copies and snapshots share no mutable storage with the original",
  "Copy of array2d, bimap, queue and stack, Clone of set, set.Keys and Map, queue.Of, PeekAll and DequeueAll return a result whose later modification never shows in the source, and the other way round, while holding exactly the source's elements at the time of the call.",
  ["histories"], "all contents and later operation sequences on either side",
  "Tests copy once and rarely modify both sides.",
  ["array2d/array2d.go", "bimap/bimap.go", "queue/queue.go", "stack/stack.go", "set/set.go"], [("fresh allocation plus element-wise copy", "Copy methods")], ["Copy, Clone, Keys, PeekAll"])
p("C32", "containers are independent of each other and of global state",
  "No operation of any package writes a package-level variable or keeps state outside the containers it is given, so containers made by separate constructor calls never influence each other and operations on different containers may run concurrently.",
  ["schedules", "histories"], "all pairs of containers and interleavings",
  "Tests use one container at a time, single-threaded.",
  ["array2d/array2d.go", "avl/avl.go", "bimap/bimap.go", "btree/btree.go", "cache/cache.go", "generic.go", "hashmap/map.go", "hashset/set.go", "heap/heap.go", "interval/itree.go", "list/list.go", "mapset/set.go", "multimap/avl.go", "multimap/map.go", "multimap/values.go", "prope/prope.go", "queue/queue.go", "rope/rope.go", "set/set.go", "stack/stack.go", "trie/trie.go", "ulist/ulist.go", "ulist/ulist_iter.go"],
  [("no package-level mutable state", "all packages")], ["any two containers"])
p("C33", "hashset, mapset: membership is exactly what was put and not removed",
  "After any sequence of Put, Remove and Clear (and after Of), Has(v) is true exactly for the values put and not removed since, Size counts them and Each visits each exactly once.",
  ["histories", "inputs"], "all operation sequences on both implementations",
  "One random cross-check each; Clear and Each are barely used.",
  ["hashset/set.go", "mapset/set.go", "hashmap/map.go"], [("delegation to the map, one key per element", "hashset.Set, mapset.Set")], ["Set.Has", "Set.Size", "Set.Each"])
p("C34", "speed: operations meet their documented complexity",
  "Operations documented as constant-time or logarithmic take that many steps for every content.",
  ["inputs"], "all contents and sizes",
  "Tests do not measure cost.",
  ["cache/cache.go", "rope/rope.go", "prope/prope.go", "interval/itree.go"], [("balanced trees, lists", "all")], ["running time"])
p("C35", "generic: hash values are well distributed",
  "The hash functions spread realistic key sets evenly over the slots of a power-of-two table.",
  ["inputs"], "all realistic key sets",
  "Distribution is not tested.",
  ["generic.go"], [("xor-shift-multiply mixing", "generic.hash")], ["hashmap probe lengths"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
