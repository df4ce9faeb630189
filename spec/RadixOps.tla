------------------------------ MODULE RadixOps ------------------------------
(***************************************************************************)
(* The meaning of every query and write of the radix tree, on finite maps. *)
(*                                                                         *)
(* Keys are byte strings.  A history only ever mentions finitely many of   *)
(* them; they are collected in a table K, a strictly increasing sequence   *)
(* of byte strings, and everything else refers to keys by their position   *)
(* in K.  The contents of a tree is a sequence m with one entry per key of *)
(* K: the value of the key, or 0 if the key is not stored.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

-----------------------------------------------------------------------------
(* Byte strings *)

\* By bisection: the first lo bytes agree, byte hi+1 is beyond reach.
RECURSIVE LcpIn(_, _, _, _)
LcpIn(a, b, lo, hi) ==
    IF lo = hi THEN lo
    ELSE LET mid == (lo + hi + 1) \div 2
         IN  IF SubSeq(a, lo + 1, mid) = SubSeq(b, lo + 1, mid) THEN LcpIn(a, b, mid, hi)
             ELSE LcpIn(a, b, lo, mid - 1)

\* length of the longest common prefix
Lcp(a, b) == LcpIn(a, b, 0, IF Len(a) < Len(b) THEN Len(a) ELSE Len(b))

IsPre(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

\* Unsigned lexicographic order, a prefix before its extensions.
Less(a, b) ==
    LET n == Lcp(a, b)
    IN  IF n = Len(a) THEN n < Len(b)
        ELSE n < Len(b) /\ a[n+1] < b[n+1]

WellFormedTable(K) ==
    /\ \A i \in 1..Len(K) : \A j \in 1..Len(K[i]) : K[i][j] \in 0..255
    /\ \A i \in 1..Len(K)-1 : Less(K[i], K[i+1])

(* The universe of a history: the relations between the keys of its table. *)
(* ext[p]: the keys that start with p.  anc[q]: the keys that are prefixes *)
(* of q.  lcp is needed for watches only.  scopes: the watches that are of *)
(* interest; a scope is k for a watch on key k and n+p for a watch on      *)
(* prefix p.  regions: the keys that they are about.                       *)
MkUniFor(K, scopes) ==
    LET n == Len(K)
        watch == scopes # {}
    IN  TLCEval([ n     |-> n,
          idx   |-> TLCEval([i \in 1..n |-> i]),
          rev   |-> TLCEval([i \in 1..n |-> n + 1 - i]),
          ext   |-> TLCEval([p \in 1..n |-> TLCEval({i \in p..n : IsPre(K[p], K[i])})]),
          anc   |-> TLCEval([q \in 1..n |-> TLCEval({i \in 1..q : IsPre(K[i], K[q])})]),
          lcp   |-> IF watch THEN TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> Lcp(K[i], K[j])])])
                             ELSE <<>>,
          scopes |-> TLCEval(scopes),
          regions |-> TLCEval({p \in 1..n : p \in scopes \/ n + p \in scopes}),
          watch |-> watch ])

MkUni(K, watch) == MkUniFor(K, IF watch THEN 1..(2 * Len(K)) ELSE {})

EmptyMap(u) == [i \in 1..u.n |-> 0]

Present(u, m) == {i \in 1..u.n : m[i] # 0}

-----------------------------------------------------------------------------
(* Queries.  Results are sequences of keys in the order of delivery. *)

KeysOf(u, m)       == SelectSeq(u.idx, LAMBDA i : m[i] # 0)
KeysFrom(u, m, q)  == SelectSeq(u.idx, LAMBDA i : m[i] # 0 /\ i >= q)
KeysUnder(u, m, p) == LET e == u.ext[p] IN SelectSeq(u.idx, LAMBDA i : m[i] # 0 /\ i \in e)
KeysPath(u, m, q)  == LET a == u.anc[q] IN SelectSeq(u.idx, LAMBDA i : m[i] # 0 /\ i \in a)
KeysRev(u, m)      == SelectSeq(u.rev, LAMBDA i : m[i] # 0)
KeysDownTo(u, m, q) == SelectSeq(u.rev, LAMBDA i : m[i] # 0 /\ i <= q)
KeysRevUnder(u, m, p) == LET e == u.ext[p] IN SelectSeq(u.rev, LAMBDA i : m[i] # 0 /\ i \in e)

FirstOr0(s) == IF s = <<>> THEN 0 ELSE s[1]
LastOr0(s)  == IF s = <<>> THEN 0 ELSE s[Len(s)]

MinKey(u, m) == FirstOr0(KeysOf(u, m))
MaxKey(u, m) == FirstOr0(KeysRev(u, m))
LongestKey(u, m, q) == LastOr0(KeysPath(u, m, q))
SizeOf(u, m) == Cardinality(Present(u, m))

Take(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))

(* The contents without all keys but k.  Iterators can be created on the   *)
(* leaves that Minimum and Maximum return; they see this one entry.        *)
Only(u, m, k) == [i \in 1..u.n |-> IF i = k THEN m[i] ELSE 0]

(* One name for all queries that deliver keys.  q is a key, or a count for *)
(* the walk that is stopped by its callback.  The names that begin with n  *)
(* are iterators on the minimum, those with x iterators on the maximum.    *)
(* dfs stands for the first key of each node that DFS visits, without      *)
(* repetitions: nodes come before their descendants and in order.          *)
ListQuery(u, m, kind, q) ==
    CASE kind = "all"  -> KeysOf(u, m)
      [] kind = "walk" -> KeysOf(u, m)
      [] kind = "dfs"  -> KeysOf(u, m)
      [] kind = "stop" -> Take(KeysOf(u, m), q)
      [] kind = "pre"  -> KeysUnder(u, m, q)
      [] kind = "lb"   -> KeysFrom(u, m, q)
      [] kind = "rev"  -> KeysRev(u, m)
      [] kind = "rlb"  -> KeysDownTo(u, m, q)
      [] kind = "rpre" -> KeysRevUnder(u, m, q)
      [] kind = "path" -> KeysPath(u, m, q)
      [] kind = "lp"   -> LET l == LongestKey(u, m, q) IN IF l = 0 THEN <<>> ELSE <<l>>
      [] kind = "get"  -> IF m[q] = 0 THEN <<>> ELSE <<q>>
      [] kind = "min"  -> LET l == MinKey(u, m) IN IF l = 0 THEN <<>> ELSE <<l>>
      [] kind = "max"  -> LET l == MaxKey(u, m) IN IF l = 0 THEN <<>> ELSE <<l>>
      [] kind = "npre"  -> KeysUnder(u, Only(u, m, MinKey(u, m)), q)
      [] kind = "nlb"   -> KeysFrom(u, Only(u, m, MinKey(u, m)), q)
      [] kind = "xrlb"  -> KeysDownTo(u, Only(u, m, MaxKey(u, m)), q)
      [] kind = "xrpre" -> KeysRevUnder(u, Only(u, m, MaxKey(u, m)), q)
      [] kind = "xpath" -> KeysPath(u, Only(u, m, MaxKey(u, m)), q)

ValuesOf(m, ks) == [i \in 1..Len(ks) |-> m[ks[i]]]

-----------------------------------------------------------------------------
(* Writes.  op is a record [o, k, x]: the kind of write ("ins", "del" or   *)
(* "dp" for a prefix delete), its key, and the value for an insert.        *)

Changed(u, m, op) ==
    CASE op.o = "ins" -> {op.k}
      [] op.o = "del" -> IF m[op.k] # 0 THEN {op.k} ELSE {}
      [] op.o = "dp"  -> {i \in u.ext[op.k] : m[i] # 0}

After(u, m, op) ==
    CASE op.o = "ins" -> [m EXCEPT ![op.k] = op.x]
      [] op.o = "del" -> [m EXCEPT ![op.k] = 0]
      [] op.o = "dp"  -> [i \in 1..u.n |-> IF i \in u.ext[op.k] THEN 0 ELSE m[i]]

\* What the write reports: the previous value (0: none), or for a prefix
\* delete 1 if anything was removed.
Reported(u, m, op) ==
    CASE op.o \in {"ins", "del"} -> m[op.k]
      [] op.o = "dp" -> IF \E i \in u.ext[op.k] : m[i] # 0 THEN 1 ELSE 0

-----------------------------------------------------------------------------
(* Watches *)

Scopes(u) == u.scopes

\* The scopes whose watches have to fire when the keys X change.
MustScopes(u, X) ==
    X \cup {u.n + p : p \in UNION {u.anc[x] : x \in X}}

\* The keys outside of the region that a watch on prefix (or absent key) p
\* observes in contents m: the keys not under p or, if no key is under p, the
\* keys that do not share the longest prefix with p.
Outside(u, m, p) ==
    LET P == Present(u, m)
        in == P \cap u.ext[p]
    IN  IF in # {} THEN P \ in
        ELSE IF P = {} THEN {}
        ELSE LET z == CHOOSE z \in P : \A y \in P : u.lcp[y][p] <= u.lcp[z][p]
             IN  {y \in P : u.lcp[y][p] < u.lcp[z][p]}

\* The prefixes (or absent keys) whose watches may fire when the keys X of
\* contents m change: X reaches the region of p.
MayNode(u, m, X) ==
    {p \in u.regions :
        LET out == Outside(u, m, p)
            x == CHOOSE x \in X : \A y \in X : u.lcp[y][p] <= u.lcp[x][p]
        IN  X # {} /\ \A y \in out : u.lcp[y][p] < u.lcp[x][p]}

\* The scopes of a tree with contents pm whose watches may fire.
MayScopes(u, pm, X, mayn) ==
    {k \in X : pm[k] # 0} \cup {k \in mayn : pm[k] = 0} \cup {u.n + p : p \in mayn}

\* A watch on a stored key hangs on that key; all others on a region.
IsRegion(u, pm, s) == s > u.n \/ pm[s] = 0
=============================================================================
