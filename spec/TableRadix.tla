----------------------------- MODULE TableRadix -----------------------------
(***************************************************************************)
(* The graph of all contents that a handful of keys can take, with what    *)
(* every query answers in each of them.                                    *)
(*                                                                         *)
(* RV_SCENES names a file with one scene per line:                         *)
(*   keys   the key table                                                  *)
(*   build  the writes <<o, k, x>> that lead from the empty tree to the    *)
(*          first contents                                                 *)
(*   ops    the writes <<o, k>> that are tried everywhere                  *)
(*   probe  the keys that queries are asked for                            *)
(* RV_KINDS lists the kinds of queries.                                    *)
(*                                                                         *)
(* TLC visits every reachable contents of every scene and prints one line  *)
(* for it: the answers and, for each write, its result and the contents    *)
(* after it.  The driver then walks through this graph with the real       *)
(* library and compares; it does not know what any call should return.     *)
(* An insert alternates between two values, so that an update changes the  *)
(* value and the graph stays finite.                                       *)
(***************************************************************************)
EXTENDS RadixOps, Json, IOUtils

VARIABLES scene, now

vars == <<scene, now>>

Scenes == ndJsonDeserialize(IOEnv.RV_SCENES)
Kinds  == ndJsonDeserialize(IOEnv.RV_KINDS)[1]

NS == Len(Scenes)
Uni == TLCEval([s \in 1..NS |-> MkUni(Scenes[s].keys, FALSE)])

ASSUME \A s \in 1..NS : WellFormedTable(Scenes[s].keys)

RECURSIVE Run(_, _, _)
Run(u, c, ops) ==
    IF ops = <<>> THEN c
    ELSE Run(u, After(u, c, [o |-> ops[1][1], k |-> ops[1][2], x |-> ops[1][3]]), Tail(ops))

OpIn(c, op) == [o |-> op[1], k |-> op[2], x |-> IF c[op[2]] = 1 THEN 2 ELSE 1]

Init ==
    /\ scene \in 1..NS
    /\ now = Run(Uni[scene], EmptyMap(Uni[scene]), Scenes[scene].build)

Next ==
    \E j \in 1..Len(Scenes[scene].ops) :
        /\ now' = After(Uni[scene], now, OpIn(now, Scenes[scene].ops[j]))
        /\ scene' = scene

-----------------------------------------------------------------------------

Answers(u, c, kind, probe) ==
    LET qs == CASE kind \in {"all", "walk", "dfs", "rev", "min", "max"} -> <<1>>
                [] kind = "stop" -> <<1, 2, 3>>
                [] OTHER -> probe
    IN  [j \in 1..Len(qs) |-> ListQuery(u, c, kind, qs[j])]

Row ==
    LET u == Uni[scene]
        S == Scenes[scene]
    IN  [ scene |-> scene,
          m     |-> now,
          len   |-> SizeOf(u, now),
          ans   |-> [j \in 1..Len(Kinds) |-> Answers(u, now, Kinds[j], S.probe)],
          res   |-> [j \in 1..Len(S.ops) |-> Reported(u, now, OpIn(now, S.ops[j]))],
          val   |-> [j \in 1..Len(S.ops) |-> OpIn(now, S.ops[j]).x],
          next  |-> [j \in 1..Len(S.ops) |-> After(u, now, OpIn(now, S.ops[j]))] ]

\* Evaluated once for every contents found.
Emit == PrintT(ToJson(Row))

-----------------------------------------------------------------------------
(* What has to be true of the answers themselves, checked in every contents *)

Backwards(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

Consistent ==
    LET u == Uni[scene]
        all == KeysOf(u, now)
        n == Len(all)
    IN  /\ SizeOf(u, now) = n
        /\ KeysRev(u, now) = Backwards(all)
        /\ MinKey(u, now) = FirstOr0(all) /\ MaxKey(u, now) = LastOr0(all)
        /\ \A j \in 1..Len(Scenes[scene].probe) :
             LET q == Scenes[scene].probe[j]
                 from == KeysFrom(u, now, q)
                 down == KeysDownTo(u, now, q)
                 under == KeysUnder(u, now, q)
                 path == KeysPath(u, now, q)
                 op == [o |-> "dp", k |-> q, x |-> 0]
                 left == After(u, now, op)
             IN  \* what is from a bound on and what is down from it make up
                 \* everything, and only the bound itself is in both
                 /\ from = SubSeq(all, n + 1 - Len(from), n)
                 /\ Backwards(down) = SubSeq(all, 1, Len(down))
                 /\ Len(from) + Len(down) = n + (IF now[q] # 0 THEN 1 ELSE 0)
                 \* the keys with a prefix come first among the keys from it on
                 /\ under = SubSeq(from, 1, Len(under))
                 /\ KeysRevUnder(u, now, q) = Backwards(under)
                 \* a key is on its own path and under itself if it is stored
                 /\ (now[q] # 0) = (LastOr0(path) = q)
                 /\ (now[q] # 0) = (FirstOr0(under) = q)
                 \* a prefix delete removes what prefix iteration shows
                 /\ SizeOf(u, left) = n - Len(under)
                 /\ KeysUnder(u, left, q) = <<>>
                 /\ Reported(u, now, op) = (IF under = <<>> THEN 0 ELSE 1)
=============================================================================
