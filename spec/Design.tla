------------------------------- MODULE Design -------------------------------
(***************************************************************************)
(* A design that keeps the promises of Radix.tla about watches: a radix    *)
(* tree with one channel per inner node and one per stored key.            *)
(*                                                                         *)
(* The shape of a radix tree follows from its contents: there is an inner  *)
(* node for the empty string, for each stored key, and for each string at  *)
(* which two stored keys part.  So a tree is its contents together with    *)
(* the channels of its nodes, and copying the path to a key means that the *)
(* nodes on it get new channels.                                           *)
(*                                                                         *)
(* Both machines make the same calls, and TLC compares them: after every   *)
(* behaviour of the bounded model the channels that are closed in the      *)
(* design include all that Radix.tla demands and none that it forbids.     *)
(* Hence the rules for watches can be kept by an implementation that looks *)
(* at one path per write, and do not contradict each other.                *)
(*                                                                         *)
(* dvers  per tree: the channel of each node                               *)
(* dtxns  per transaction: the channel of each node, and the channels that *)
(*        the next notification closes                                     *)
(* dwats  per watch set: the channel of each scope                         *)
(* closed channels that are closed                                         *)
(* fresh  the next channel                                                 *)
(* left   calls still to be made                                           *)
(***************************************************************************)
EXTENDS Radix, SequencesExt

CONSTANTS Keys, Steps, Trees, Txns, Firsts, Untracked

\* The tables of the two models.
KeysA == << <<>>, <<1>>, <<1, 2, 3>>, <<1, 2, 4>> >>
FirstsA == {{}, {1, 3}, {3, 4}}
KeysB == << <<>>, <<1>>, <<1, 2>>, <<1, 2, 3, 4>>, <<1, 2, 3, 5>>, <<1, 2, 4>>, <<1, 3>>, <<2, 1>>, <<2, 1, 1>> >>
FirstsB == SUBSET (1..9)

VARIABLES dvers, dtxns, dwats, closed, fresh, left

dvars == <<dvers, dtxns, dwats, closed, fresh, left>>
allvars == <<vers, txns, curs, wats, head, linear, dvers, dtxns, dwats, closed, fresh, left>>

Table == TLCEval(Keys)
U == TLCEval(MkUni(Table, TRUE))
N == Len(Table)

-----------------------------------------------------------------------------
(* Shape.  A node is a string and a flag: TRUE for the leaf of that key. *)

Part(i, j) == SubSeq(Table[i], 1, Lcp(Table[i], Table[j]))
Parts == TLCEval([i \in 1..N |-> TLCEval([j \in 1..N |-> Part(i, j)])])

Inner(m) == LET P == Present(U, m)
            IN  {<<>>} \cup {Parts[i][j] : i \in P, j \in P}
Nodes(m) == {<<a, FALSE>> : a \in Inner(m)} \cup {<<Table[i], TRUE>> : i \in Present(U, m)}

\* The inner node at which the search for a string ends: the first one that
\* starts with the string.  If there is none, the last one that is a prefix of
\* the string, or the child whose compressed path leaves the string.
EndOf(m, str) ==
    LET I == Inner(m)
        under == {a \in I : IsPre(str, a)}
        above == {a \in I : IsPre(a, str)}
        low(S) == CHOOSE a \in S : \A b \in S : Len(a) <= Len(b)
        high(S) == CHOOSE a \in S : \A b \in S : Len(b) <= Len(a)
    IN  IF under # {} THEN low(under)
        ELSE LET d == high(above)
                 kids == {a \in I : Len(a) > Len(d) /\ IsPre(SubSeq(str, 1, Len(d) + 1), a)}
             IN  IF kids = {} THEN d ELSE low(kids)

\* The node whose channel a watch for a scope gets.
WatchNode(m, s) ==
    IF s <= N /\ m[s] # 0 THEN <<Table[s], TRUE>>
    ELSE <<EndOf(m, Table[IF s > N THEN s - N ELSE s]), FALSE>>

\* The nodes of contents m that a write touches.
Touched(m, op) ==
    LET k == Table[op.k]
        path == {<<a, FALSE>> : a \in {a \in Inner(m) : IsPre(a, k)}}
    IN  CASE op.o = "ins" -> path \cup {<<EndOf(m, k), FALSE>>}
                                  \cup (IF m[op.k] # 0 THEN {<<k, TRUE>>} ELSE {})
          [] op.o = "del" -> IF m[op.k] = 0 THEN {} ELSE path \cup {<<k, TRUE>>}
          [] op.o = "dp"  -> IF Changed(U, m, op) = {} THEN {}
                             ELSE path \cup {x \in Nodes(m) : IsPre(k, x[1])}

\* Channels after a write: nodes that were touched or are new get new ones.
\* f maps the nodes before, touched is a subset of them, m2 are the contents
\* after the write.
Rewired(f, touched, m2) ==
    LET new == {x \in Nodes(m2) : x \notin DOMAIN f \/ x \in touched}
        order == SetToSeq(new)
    IN  [x \in Nodes(m2) |-> IF x \in new THEN fresh - 1 + (CHOOSE i \in DOMAIN order : order[i] = x) ELSE f[x]]

-----------------------------------------------------------------------------

Zero == EmptyMap(U)
First(S) == [i \in 1..N |-> IF i \in S THEN 1 ELSE 0]

ChannelsOf(f, m) == [s \in Scopes(U) |-> f[WatchNode(m, s)]]

DInit(m) ==
    LET ns == Nodes(m)
        order == SetToSeq(ns)
        f == [x \in ns |-> CHOOSE i \in DOMAIN order : order[i] = x]
    IN  /\ dvers = (0 :> f)
        /\ dtxns = <<>>
        /\ dwats = (0 :> ChannelsOf(f, m))
        /\ closed = {}
        /\ fresh = Cardinality(ns) + 1
        /\ left = Steps

Init == \E S \in Firsts : InitFrom(U, First(S)) /\ DInit(First(S))

DBegin(v, x) ==
    /\ dtxns' = Put(dtxns, x, [f |-> dvers[v], q |-> {}])
    /\ UNCHANGED <<dvers, dwats, closed, fresh>>

DWrite(x, op) ==
    LET T == txns[x]
        touched == Touched(T.m, op) \cap DOMAIN dtxns[x].f
        f2 == Rewired(dtxns[x].f, touched, After(U, T.m, op))
    IN  /\ IF touched = {} THEN UNCHANGED <<dtxns, fresh>>
           ELSE /\ dtxns' = [dtxns EXCEPT ![x] = [f |-> f2,
                      q |-> IF T.trk THEN @.q \cup {dtxns[x].f[a] : a \in touched} ELSE @.q]]
                /\ fresh' = fresh + Cardinality(DOMAIN f2)
        /\ UNCHANGED <<dvers, dwats, closed>>

DTreeWrite(v, op, v2) ==
    LET m == vers[v].m
        touched == Touched(m, op) \cap DOMAIN dvers[v]
        f2 == IF touched = {} THEN dvers[v] ELSE Rewired(dvers[v], touched, After(U, m, op))
    IN  /\ dvers' = Put(dvers, v2, f2)
        /\ dwats' = Put(dwats, v2, ChannelsOf(f2, After(U, m, op)))
        /\ fresh' = fresh + Cardinality(DOMAIN f2)
        /\ UNCHANGED <<dtxns, closed>>

DCommit(x, v2, notify) ==
    /\ dvers' = Put(dvers, v2, dtxns[x].f)
    /\ dwats' = Put(dwats, v2, ChannelsOf(dtxns[x].f, txns[x].m))
    /\ IF notify THEN closed' = closed \cup dtxns[x].q /\ dtxns' = [dtxns EXCEPT ![x].q = {}]
       ELSE UNCHANGED <<closed, dtxns>>
    /\ UNCHANGED fresh

DNotify(x) ==
    /\ IF txns[x].trk THEN closed' = closed \cup dtxns[x].q /\ dtxns' = [dtxns EXCEPT ![x].q = {}]
       ELSE UNCHANGED <<closed, dtxns>>
    /\ UNCHANGED <<dvers, dwats, fresh>>

DClone(x, x2) ==
    /\ dtxns' = Put(dtxns, x2, [f |-> dtxns[x].f, q |-> {}])
    /\ UNCHANGED <<dvers, dwats, closed, fresh>>

DWatch(x, w) ==
    /\ dwats' = Put(dwats, w, ChannelsOf(dtxns[x].f, txns[x].m))
    /\ UNCHANGED <<dvers, dtxns, closed, fresh>>

DSame == UNCHANGED <<dvers, dtxns, dwats, closed, fresh>>

Ops == [o : {"ins"}, k : 1..N, x : {1}] \cup [o : {"del", "dp"}, k : 1..N, x : {0}]

NewTree == Cardinality(DOMAIN vers)
NewTxn == Cardinality(DOMAIN txns) + 1
NewSet == 100 + Cardinality(DOMAIN wats)

Next ==
    /\ left > 0
    /\ left' = left - 1
    /\ \/ /\ NewTxn <= Txns
          /\ \E v \in DOMAIN vers :
                 Begin(U, v, NewTxn) /\ DBegin(v, NewTxn)
       \/ \E x \in DOMAIN txns :
             \/ Track(x, ~txns[x].trk) /\ (txns[x].trk => Untracked) /\ DSame
             \/ \E op \in Ops : (txns[x].trk \/ Untracked) /\ TxnWrite(U, x, op) /\ DWrite(x, op)
             \/ Notify(x) /\ DNotify(x)
             \/ /\ NewTree < Trees
                /\ \/ Commit(U, x, NewTree) /\ DCommit(x, NewTree, txns[x].trk)
                   \/ CommitOnly(U, x, NewTree) /\ DCommit(x, NewTree, FALSE)
             \/ NewTxn <= Txns /\ TxnClone(x, NewTxn) /\ DClone(x, NewTxn)
             \/ NewSet < 100 + Trees + 1 /\ TxnWatch(U, x, NewSet) /\ DWatch(x, NewSet)
       \/ /\ Untracked
          /\ NewTree < Trees
          /\ \E v \in DOMAIN vers, op \in Ops :
                 TreeWrite(U, v, op, NewTree) /\ DTreeWrite(v, op, NewTree)

Spec == Init /\ [][Next]_allvars

-----------------------------------------------------------------------------

IsClosed(w, s) == dwats[w][s] \in closed

\* The design closes every channel that has to be closed.
Fires == \A w \in DOMAIN wats : \A s \in wats[w].due : IsClosed(w, s)

\* It closes no channel that has to stay open.
Precise == \A w \in DOMAIN wats : \A s \in Scopes(U) : IsClosed(w, s) => MayBeClosed(U, w, s)

\* What has to be closed is allowed to be closed.
Sensible == \A w \in DOMAIN wats : \A s \in wats[w].due : MayBeClosed(U, w, s)
=============================================================================
