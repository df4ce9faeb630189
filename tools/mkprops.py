#!/usr/bin/env python3
"""Writes properties.jsonl (run from /verif)."""
import json

P = []

def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

H = ["histories", "inputs"]

p("C01", "Insert, Get and Delete behave like a map from byte strings to values",
  "After any sequence of inserts, deletes and prefix deletes, Get on a tree or transaction returns the value most recently inserted for exactly that key, or not-found if the key is absent. Insert and Delete report whether the key was present before and, if so, its previous value. Any byte string is a valid key, including the empty one, keys with zero bytes and keys that are prefixes of other keys.",
  H, "All sequences of write operations, on trees and in transactions, over all sets of keys.",
  "The tests insert fixed word and UUID lists and never mix updates, failed deletes, prefix keys, special bytes and long shared prefixes; the outcome depends on the shape the history produced.",
  ["tree.go", "txn.go", "helpers.go"],
  [("recursive insert with leaf and prefix splits", "txn.go recursiveInsert"), ("recursive delete with node merge", "txn.go recursiveDelete, helpers.go removeChild4"), ("lookup", "tree.go iterativeSearch")],
  ["RadixTree.Insert/Get/Delete", "Txn.Insert/Get/Delete", "GetWatch value"])

p("C02", "Len is the exact number of keys",
  "Len of every tree equals the number of distinct keys for which Get on that tree reports a value. This holds after every insert, update, delete and prefix delete, whether or not the operation changed anything.",
  H, "All sequences of write operations; every committed tree.",
  "The tests compare Len after bulk loads; counting goes wrong only for particular combinations (updating a key that is a prefix of others, deleting a missing key, prefix deletes over nested keys).",
  ["tree.go", "txn.go"],
  [("size kept by the transaction and copied on commit", "txn.go Insert, Delete, DeletePrefix, CommitOnly")],
  ["RadixTree.Len"])

p("C03", "A committed tree never changes",
  "Once a tree has been returned by New, Clone, Commit, CommitOnly or a tree-level write, every query on it gives the same answer forever. No later write based on it, on one of its ancestors or on one of its descendants, committed or abandoned, alters its contents, order or length.",
  H, "All histories that keep any number of old trees and go on writing from any of them.",
  "Tests look at an old tree after a handful of operations; sharing mistakes need a node that is reachable from two trees and a write that takes a rarely used in-place path (node growth, shrink, merge, prefix split).",
  ["txn.go", "helpers.go", "tree.go"],
  [("copy on write decided by node ids", "txn.go writeNode"), ("node copies", "node_4.go, node_16.go, node_48.go, node_256.go clone")],
  ["every query on trees kept from earlier"])

p("C04", "A transaction is isolated and publishes exactly its own state",
  "Reads inside a transaction see its base tree plus its own earlier writes and nothing else; no other tree or transaction sees those writes before commit. The committed tree has exactly the contents the transaction had, and an abandoned transaction leaves no trace. A transaction that is used after committing goes on from its own state without altering trees it already returned.",
  ["histories", "programs"], "All programs that interleave several open transactions, commits, reuse after commit and abandonment.",
  "The tests commit each transaction once and look only at the result; nothing is written after a commit and no two transactions are open on one tree.",
  ["txn.go"],
  [("private root copy and id watermark", "tree.go Txn, txn.go writeNode"), ("publication", "txn.go Commit, CommitOnly")],
  ["Txn.Get/Insert/Delete/DeletePrefix/Root/Commit/CommitOnly"])

p("C05", "A cloned transaction is independent of the original",
  "A clone starts with all uncommitted writes of the original. From then on writes to either one are invisible to the other, and both can be committed to trees that contain exactly their own writes.",
  ["histories", "programs"], "All interleavings of writes to a transaction and to clones of it (and clones of clones), before and after commits.",
  "One test clones a transaction and writes two keys; whether the two share a writable node depends on which nodes were written before the clone.",
  ["txn.go"],
  [("watermark moved when nodes become shared", "txn.go Clone")],
  ["Txn.Clone followed by any operation on either transaction"])

p("C06", "Full iteration and Walk visit every key once in ascending byte order",
  "An iterator over a tree and Walk both yield each stored key exactly once with its current value, in ascending unsigned byte order with a prefix before its extensions. Walk stops as soon as the callback returns true, and the iterator goes on reporting the end once it is exhausted. DFS visits the nodes in an order in which the first keys below them, each taken once, are the stored keys in ascending order.",
  H, "All contents and all histories leading to them, on trees and on transaction roots.",
  "Tests iterate trees with printable keys; order and completeness depend on the node sizes, on keys stored at inner nodes and on bytes 0x00 and 0xff.",
  ["iterator.go", "tree.go", "helpers.go"],
  [("stack based traversal", "iterator.go Next"), ("recursive walk", "tree.go recursiveWalk")],
  ["Iterator.Next", "RadixTree.Walk", "RadixTree.DFS"])

p("C07", "Prefix iteration yields exactly the keys with the prefix, in order",
  "After seeking an iterator to a prefix, it yields exactly the stored keys that start with this prefix, each once with its value, in ascending byte order. This holds for every prefix: empty, equal to a key, ending inside or beyond any stored key.",
  H, "All contents, histories and prefixes.",
  "Tests seek a few readable prefixes; where a prefix ends relative to compressed paths (shorter and longer than the stored part) matters.",
  ["iterator.go", "helpers.go"],
  [("descent along the prefix", "iterator.go SeekPrefix"), ("comparison with compressed path", "helpers.go prefixMismatch")],
  ["Iterator.SeekPrefix, SeekPrefixWatch, Next"])

p("C08", "A lower bound seek yields exactly the keys not less than the bound",
  "After seeking to a bound, the lower bound iterator yields exactly the stored keys that are greater than or equal to the bound in byte order, each once with its value, ascending. The bound need not be a stored key.",
  H, "All contents, histories and bounds.",
  "The fuzz test draws short random keys; bounds that end inside a long compressed path or that fall between children of large nodes are not reached.",
  ["lower_bound_iterator.go", "helpers.go"],
  [("descent that collects larger siblings", "lower_bound_iterator.go SeekLowerBound")],
  ["LowerBoundIterator.SeekLowerBound, Next"])

p("C09", "Reverse iteration mirrors forward iteration",
  "A reverse iterator yields all stored keys in descending byte order, each once with its value. After SeekReverseLowerBound it yields exactly the keys less than or equal to the bound, and after a prefix seek exactly the keys with that prefix, in both cases descending.",
  H, "All contents, histories, bounds and prefixes.",
  "Tests cover reverse lower bound with short random keys; reverse prefix seeks and keys stored at inner nodes in combination with large nodes are not covered.",
  ["reverse_iterator.go"],
  [("descent that collects smaller siblings", "reverse_iterator.go SeekReverseLowerBound"), ("reverse expansion", "reverse_iterator.go Previous")],
  ["ReverseIterator.Previous, SeekReverseLowerBound, SeekPrefix"])

p("C10", "LongestPrefix finds the longest stored key that is a prefix of the query",
  "LongestPrefix returns the longest stored key that is a prefix of the query (the query itself included) together with its value. If no stored key is a prefix of the query, it reports not-found.",
  H, "All contents, histories and queries, on trees and transactions.",
  "A table of a dozen readable keys is tested; the empty key, special bytes and long compressed paths are not.",
  ["tree.go", "txn.go"],
  [("descent remembering the last match", "tree.go LongestPrefix")],
  ["RadixTree.LongestPrefix", "Txn.LongestPrefix"])

p("C11", "Path iteration yields exactly the stored prefixes of the path",
  "The path iterator for a path yields exactly the stored keys that are prefixes of the path (the path itself included), each once with its value, from shortest to longest.",
  H, "All contents, histories and paths.",
  "One table test with readable keys; the result depends on which of the keys are held at inner nodes.",
  ["path_iter.go", "node_leaf.go"],
  [("filtering traversal", "path_iter.go Next, node_leaf.go prefixContainsMatch")],
  ["RadixTree.GetPathIterator, Node.PathIterator, Next"])

p("C12", "Minimum and Maximum return the extreme keys",
  "Minimum and Maximum return the first and the last stored key in byte order with their values. On an empty tree both return nil.",
  H, "All contents and histories, including trees emptied by deletes.",
  "One test looks at a word list; emptied trees, keys stored at inner nodes and nodes with all 256 children are not reached.",
  ["tree.go", "helpers.go"],
  [("leftmost and rightmost descent", "helpers.go minimum, maximum")],
  ["RadixTree.Minimum, Maximum"])

p("C13", "DeletePrefix removes exactly the keys with the prefix",
  "DeletePrefix removes every stored key that starts with the prefix and no other key, and keeps the values of all others. It reports true exactly if at least one key was removed.",
  H, "All contents, histories and prefixes, on trees and in transactions, followed by any further operation.",
  "A table test with readable keys; prefixes that end inside a compressed path, at an inner key or cover the whole tree, and later writes to the pruned tree, are not covered.",
  ["txn.go", "helpers.go"],
  [("descent along the prefix and pruning", "txn.go deletePrefix, deleteSubtree")],
  ["RadixTree.DeletePrefix", "Txn.DeletePrefix"])

p("C14", "A key watch fires when its key changes",
  "Let a watch for a key be obtained from a tree, or from a transaction that tracks mutations, at any time. If a tracking transaction derived from there through tracked commits inserts, updates or deletes the key and is notified, the watch channel is closed when that notification returns. This includes keys that were absent when watched, watches obtained late from an old tree, and changes made by prefix deletes.",
  ["histories"], "All histories of tracked transactions and all moments at which a watch is taken.",
  "The tests watch a few fixed keys around one transaction; lost wake-ups need a particular shape (split, merge, resize, long compressed path) or a particular order of taking the watch and writing.",
  ["txn.go", "tree.go", "helpers.go"],
  [("tracking of every rewritten node", "txn.go trackChannel, writeNode"), ("closing of tracked channels", "txn.go slowNotify"), ("choice of the watched node", "tree.go iterativeSearchWithWatch")],
  ["RadixTree.GetWatch, Txn.GetWatch, Txn.Notify, Txn.Commit"])

p("C15", "A prefix watch fires when any key under the prefix changes",
  "Let a prefix watch be obtained by seeking an iterator of a tree to a prefix. If a tracking transaction derived from that tree through tracked commits inserts, updates or deletes any key with that prefix and is notified, the watch channel is closed when that notification returns. This includes prefixes under which nothing was stored yet.",
  ["histories"], "All histories of tracked transactions, all prefixes and all moments at which a watch is taken.",
  "The tests watch a few fixed prefixes around one transaction; which node carries the watch depends on the shape of the tree.",
  ["iterator.go", "txn.go", "helpers.go"],
  [("choice of the watched node", "iterator.go SeekPrefixWatch"), ("tracking of every rewritten node", "txn.go trackChannel")],
  ["Iterator.SeekPrefixWatch, ReverseIterator.SeekPrefixWatch, Txn.Notify, Txn.Commit"])

p("C16", "Watches do not fire for unrelated changes",
  "In a linear history of transactions, a watch on a stored key fires only if a notified transaction changed that very key. A watch on a prefix or on an absent key P does not fire because of a change to a key X while some stored key outside the region watched for P shares at least as long a prefix with P as X does. The region watched for P is the keys that start with P or, if there are none, the keys that share the longest prefix with P.",
  ["histories"], "All linear histories of tracked transactions and all watches.",
  "Spurious wake-ups are invisible to tests that only wait for a channel to close; they need a watch on an unrelated key next to a node that is resized, split or merged.",
  ["txn.go", "helpers.go"],
  [("only rewritten nodes are tracked", "txn.go recursiveInsert, recursiveDelete, deletePrefix"), ("leaves are kept when nodes change size", "helpers.go addChild*, removeChild*")],
  ["watch channels after Notify"])

p("C17", "Nothing is notified before Notify, without tracking, or by abandoned work",
  "Writing in a transaction and CommitOnly close no watch channel; only Notify, or Commit of a transaction that has tracking enabled, does. Transactions without tracking, tree-level writes and abandoned transactions never close a channel, and they do not keep later tracked transactions from closing it.",
  ["histories", "programs"], "All programs that mix tracked, untracked, abandoned and only-committed transactions over shared trees.",
  "The tests check that a channel is open at one point of a fixed scenario; abandoned transactions and watches taken in between are not covered.",
  ["txn.go"],
  [("channels are collected and closed only in Notify", "txn.go trackChannel, Notify, slowNotify")],
  ["watch channels before and after CommitOnly, Notify, Commit"])

p("C18", "A newly committed tree hands out unfired watches",
  "In a linear history, every watch obtained from the most recently committed tree is open at that time, for every key and prefix, whether or not the key was part of the change. A waiter can therefore always re-arm on the new tree and sleep until the next change.",
  ["histories"], "All linear histories of transactions, and all keys and prefixes watched on the newest tree.",
  "The tests take watches on the tree before a change and check that they close; they rarely take watches on the result.",
  ["txn.go"],
  [("a rewritten node gets a new channel", "txn.go trackChannel")],
  ["GetWatch and SeekPrefixWatch on the newest tree"])

p("C19", "Readers may use trees concurrently with a writer",
  "Any number of goroutines may query, iterate and watch published trees while one goroutine runs transactions based on them. Every reader sees exactly the contents of the tree it reads, no memory is accessed in a racy way, and concurrent takers of a watch on one tree all get channels that fire with the next relevant notified change.",
  ["schedules", "histories"], "All interleavings of reader and writer steps over all histories.",
  "No existing test runs readers and a writer at the same time on one tree, and none runs under the race detector.",
  ["txn.go", "node_4.go", "node_16.go", "node_48.go", "node_256.go", "node_leaf.go"],
  [("trees are immutable, writers copy", "txn.go writeNode"), ("lock-free creation of watch channels", "node_4.go getMutateCh (same in the other node files)")],
  ["all read operations under concurrency"])

p("C20", "Caller buffers are neither modified nor retained",
  "No operation writes to a key, prefix or bound slice passed to it, nor to its spare capacity. After a call returns, the caller may overwrite the slice without affecting any tree, transaction or iterator.",
  ["inputs", "histories"], "All operations that take a key, prefix or bound; all slice capacities; all later uses.",
  "The tests pass fresh slices converted from strings and never reuse them.",
  ["helpers.go", "iterator.go", "lower_bound_iterator.go", "reverse_iterator.go"],
  [("keys are copied on entry", "helpers.go getTreeKey"), ("prefixes are copied by seeks", "iterator.go SeekPrefix, lower_bound_iterator.go SeekLowerBound")],
  ["the caller's slice after each call", "contents after the slice was overwritten"])

p("C21", "An open iterator keeps yielding the tree it was created on",
  "An iterator of any kind yields the remaining keys of the tree it was created on, whatever is written, committed or notified between its steps. Several iterators on one tree do not influence each other.",
  ["histories", "programs"], "All interleavings of iterator steps with writes and with other iterators.",
  "Tests drain each iterator at once, before the next write.",
  ["iterator.go", "lower_bound_iterator.go", "reverse_iterator.go", "path_iter.go", "txn.go"],
  [("iterators hold nodes of an immutable tree", "iterator.go, txn.go writeNode")],
  ["Next and Previous between writes"])

p("C22", "No operation panics on any key, prefix or tree shape",
  "Every operation of the public interface terminates without panicking for every byte string, nil and empty slices included, on every tree and transaction that can be built through the interface. This includes empty and emptied trees, very long keys and nodes with all 256 children.",
  ["inputs", "histories"], "All operations, inputs and reachable trees.",
  "The tests use non-empty readable keys and stop growing long before nodes are full.",
  ["tree.go", "txn.go", "helpers.go", "iterator.go", "lower_bound_iterator.go", "reverse_iterator.go", "path_iter.go"],
  [("bounds checks in descents", "txn.go recursiveInsert, recursiveDelete"), ("child counter wide enough for 256", "node.go getNumChildren")],
  ["all operations"])

with open("properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
