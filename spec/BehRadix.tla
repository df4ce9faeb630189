------------------------------ MODULE BehRadix ------------------------------
(***************************************************************************)
(* All behaviours of the machine that follow given programs.               *)
(*                                                                         *)
(* RV_SCENES: as for TableRadix; a scene also has                          *)
(*   scopes  the watches that are observed                                 *)
(*   progs   the programs that are run in it                               *)
(* RV_PROGS has one program per line.  A program is a sequence of slots, a *)
(* slot a sequence of calls; a behaviour picks one call per slot.  A write *)
(* in a slot stands for every write of the scene, the opening of an        *)
(* iterator for every probe.                                               *)
(*                                                                         *)
(* TLC visits every behaviour and prints one line for each state of each   *)
(* of them: what the last call returned, the contents of every tree and    *)
(* transaction, and which watches must or may have fired.  The driver runs *)
(* the same calls on the real library and compares.                        *)
(***************************************************************************)
EXTENDS Radix, Json, IOUtils, SequencesExt

VARIABLES scn, prog, path, out, pure

bvars == <<scn, prog, path, out, pure, vers, txns, curs, wats, head, linear>>

Scenes == ndJsonDeserialize(IOEnv.RV_SCENES)
Progs  == ndJsonDeserialize(IOEnv.RV_PROGS)

Elems(q) == {q[i] : i \in 1..Len(q)}

NS == Len(Scenes)
Uni == TLCEval([h \in 1..NS |-> MkUniFor(Scenes[h].keys, Elems(Scenes[h].scopes))])

ASSUME \A h \in 1..NS : WellFormedTable(Scenes[h].keys)

RECURSIVE Run(_, _, _)
Run(u, c, ops) ==
    IF ops = <<>> THEN c
    ELSE Run(u, After(u, c, [o |-> ops[1][1], k |-> ops[1][2], x |-> ops[1][3]]), Tail(ops))

Init ==
    /\ scn \in 1..NS
    /\ prog \in Elems(Scenes[scn].progs)
    /\ path = <<>>
    /\ out = <<>>
    /\ pure = TRUE
    /\ InitFrom(Uni[scn], Run(Uni[scn], EmptyMap(Uni[scn]), Scenes[scn].build))

-----------------------------------------------------------------------------

\* The trees, transactions and iterators that a call needs are there.
Possible(ev) ==
    /\ ("v" \in DOMAIN ev) => ev.v \in DOMAIN vers
    /\ ("t" \in DOMAIN ev /\ ev.e # "bg") => ev.t \in DOMAIN txns
    /\ ("c" \in DOMAIN ev /\ ev.e # "op") => ev.c \in DOMAIN curs

\* The number of ways to complete a call.
Ways(ev) ==
    CASE ev.e \in {"tw", "xw"} -> Len(Scenes[scn].ops)
      [] ev.e = "op" /\ ev.kind \notin {"all", "rev"} -> Len(Scenes[scn].probe)
      [] OTHER -> 1

Complete(ev, j) ==
    CASE ev.e \in {"tw", "xw"} ->
           ev @@ [o |-> Scenes[scn].ops[j][1], k |-> Scenes[scn].ops[j][2], x |-> 100 + Len(path)]
      [] ev.e = "op" -> ev @@ [q |-> Scenes[scn].probe[j]]
      [] OTHER -> ev

Result(u, ev) ==
    CASE ev.e = "tw" -> <<Reported(u, vers[ev.v].m, OpOf(ev))>>
      [] ev.e = "xw" -> <<Reported(u, txns[ev.t].m, OpOf(ev))>>
      [] ev.e = "st" -> Delivered(ev.c)
      [] OTHER -> <<>>

\* Changes without tracking, and changes that are never notified.
Impure(u, ev) ==
    CASE ev.e = "tw" -> Changed(u, vers[ev.v].m, OpOf(ev)) # {}
      [] ev.e = "xw" -> ~txns[ev.t].trk
      [] ev.e \in {"cl", "ab"} -> TRUE
      [] OTHER -> FALSE

Next ==
    /\ Len(path) < Len(Progs[prog])
    /\ LET u == Uni[scn]
           slot == Progs[prog][Len(path) + 1]
       IN  \E a \in 1..Len(slot) :
             /\ Possible(slot[a])
             /\ \E j \in 1..Ways(slot[a]) :
                  LET ev == TLCEval(Complete(slot[a], j))
                  IN  /\ Act(u, ev)
                      /\ path' = Append(path, 100 * a + j)
                      /\ out' = Result(u, ev)
                      /\ pure' = (pure /\ ~Impure(u, ev))
    /\ UNCHANGED <<scn, prog>>

Spec == Init /\ [][Next]_bvars

-----------------------------------------------------------------------------
(* What is printed *)

InOrder(S) == SetToSortSeq(S, <)

\* Contents, as the difference from the first tree.
Diff(u, m) ==
    LET d == SelectSeq(u.idx, LAMBDA i : m[i] # vers[0].m[i])
    IN  [j \in 1..Len(d) |-> <<d[j], m[d[j]]>>]

\* 1: has to have fired, 2: is allowed to have fired, 3: both.
Fired(u, w) ==
    [j \in 1..Len(Scenes[scn].scopes) |->
        LET sc == Scenes[scn].scopes[j]
        IN  (IF MustBeClosed(w, sc) THEN 1 ELSE 0) + (IF MayBeClosed(u, w, sc) THEN 2 ELSE 0)]

Line ==
    LET u == Uni[scn]
        vs == InOrder(DOMAIN vers)
        ts == InOrder(DOMAIN txns)
        ws == InOrder(DOMAIN wats)
    IN  [ s |-> scn, p |-> prog, path |-> path, out |-> out,
          v |-> [j \in 1..Len(vs) |-> <<vs[j], Diff(u, vers[vs[j]].m)>>],
          t |-> [j \in 1..Len(ts) |-> <<ts[j], Diff(u, txns[ts[j]].m)>>],
          w |-> IF u.watch THEN [j \in 1..Len(ws) |-> <<ws[j], Fired(u, ws[j])>>] ELSE <<>> ]

Emit == PrintT(ToJson(Line))

-----------------------------------------------------------------------------
(* Properties of the machine itself *)

\* Nothing that has to fire is forbidden to fire.
Compatible ==
    /\ \A w \in DOMAIN wats : \A sc \in wats[w].due : MayBeClosed(Uni[scn], w, sc)
    /\ \A x \in DOMAIN txns : \A w \in DOMAIN txns[x].pend : txns[x].pend[w] \subseteq At(txns[x].mayb, w)

\* No lost wake-up: if all changes were tracked and all of them are notified,
\* then a watch on a key has fired if the newest tree, reached by commits one
\* after another, has a different value for the key than the tree of the watch.
NoLostWakeup ==
    (pure /\ linear /\ head >= 0 /\ \A x \in DOMAIN txns : \A w \in DOMAIN wats : At(txns[x].pend, w) = {}) =>
        \A w \in DOMAIN wats : \A sc \in Scopes(Uni[scn]) :
            LET u == Uni[scn]
                differs(k) == wats[w].pm[k] # vers[head].m[k]
            IN  (w \in DOMAIN vers /\ w <= head) =>
                ((IF sc <= u.n THEN differs(sc) ELSE \E k \in u.ext[sc - u.n] : differs(k))
                    => MustBeClosed(w, sc))

\* Trees never change, and neither do the watches that are due.
Immutable ==
    [][\A v \in DOMAIN vers : v \in DOMAIN vers' => vers'[v].m = vers[v].m]_bvars
Monotone ==
    [][\A w \in DOMAIN wats : w \in DOMAIN wats' =>
          wats[w].due \subseteq wats'[w].due /\ wats[w].may \subseteq wats'[w].may]_bvars

\* Transactions see their own writes only: a call on one transaction leaves the
\* contents of all others alone.
Isolated ==
    [][\A x, y \in DOMAIN txns :
          (x # y /\ x \in DOMAIN txns' /\ y \in DOMAIN txns' /\ txns'[x].m # txns[x].m) => txns'[y].m = txns[y].m]_bvars
=============================================================================
