-------------------------------- MODULE Radix --------------------------------
(***************************************************************************)
(* The abstract machine behind the interface: trees, transactions, open    *)
(* iterators (cursors) and watches.  One action per call.  All actions     *)
(* take the universe u of the history as their first argument.             *)
(*                                                                         *)
(* vers  committed trees, by number:                                       *)
(*         m    contents                                                   *)
(*         arm  for each watch set, the scopes that a change of this tree  *)
(*              still has to fire                                          *)
(* txns  open transactions:                                                *)
(*         m, arm  as above, including the writes so far                   *)
(*         trk   mutation tracking is on                                   *)
(*         base  the tree it was started from or last committed as, or     *)
(*               minus its number if it was notified since then            *)
(*         dirty it has changes that are not committed                     *)
(*         pend  per watch set: scopes to fire at the next notification    *)
(*         mayb  per watch set: scopes that notification may fire          *)
(* curs  open iterators: the <<key, value>> pairs still to be delivered    *)
(* wats  watch sets.  Every tree has one under its own number, for all of  *)
(*       its scopes, whether or not a channel was ever asked for.  A watch *)
(*       taken inside a transaction makes a further one.                   *)
(*         pm    contents when the set was made                            *)
(*         due   scopes that must have fired                               *)
(*         may   scopes that are allowed to have fired                     *)
(*         loose scopes for which nothing is promised any more, because a  *)
(*               transaction without tracking passed through their region  *)
(* head  the newest committed tree; minus the number of a transaction if   *)
(*       it was notified of changes that it has not committed yet          *)
(* linear  every commit and notification so far was based on the newest    *)
(*       tree                                                              *)
(***************************************************************************)
EXTENDS RadixOps, TLC

VARIABLES vers, txns, curs, wats, head, linear

rvars == <<vers, txns, curs, wats, head, linear>>

Put(f, k, v) == (k :> v) @@ f
Drop(f, k)   == [x \in DOMAIN f \ {k} |-> f[x]]
At(f, w)     == IF w \in DOMAIN f THEN f[w] ELSE {}

NewWatchSet(m) == [pm |-> m, due |-> {}, may |-> {}, loose |-> {}]

\* One tree, with number 0 and contents m.
InitFrom(u, m) ==
    /\ vers = (0 :> [m |-> m, arm |-> (0 :> Scopes(u))])
    /\ txns = <<>>
    /\ curs = <<>>
    /\ wats = (0 :> NewWatchSet(m))
    /\ head = 0
    /\ linear = TRUE

InitRadix(u) == InitFrom(u, EmptyMap(u))

-----------------------------------------------------------------------------
(* Effect of an untracked write of the keys X on the watches. *)

UntrackedArm(u, arm, m, X) ==
    IF X = {} \/ ~u.watch THEN arm
    ELSE LET must == MustScopes(u, X)
             mayn == MayNode(u, m, X)
         IN  [w \in DOMAIN arm |-> arm[w] \ (must \cup MayScopes(u, wats[w].pm, X, mayn))]

UntrackedWats(u, m, X) ==
    IF X = {} \/ ~u.watch THEN wats
    ELSE LET mayn == MayNode(u, m, X)
         IN  [w \in DOMAIN wats |->
                [wats[w] EXCEPT !.loose = @ \cup
                    {s \in MayScopes(u, wats[w].pm, X, mayn) : IsRegion(u, wats[w].pm, s)}]]

-----------------------------------------------------------------------------
(* Trees *)

\* Insert, Delete or DeletePrefix on tree v, giving tree v2.
TreeWrite(u, v, op, v2) ==
    LET m == vers[v].m
        X == Changed(u, m, op)
        m2 == After(u, m, op)
    IN  /\ vers' = Put(vers, v2, [m |-> m2,
                        arm |-> Put(UntrackedArm(u, vers[v].arm, m, X), v2, Scopes(u))])
        /\ wats' = Put(UntrackedWats(u, m, X), v2, NewWatchSet(m2))
        /\ linear' = (linear /\ v = head)
        /\ head' = v2
        /\ UNCHANGED <<txns, curs>>

\* Clone of a tree: a tree of its own with the same contents.
TreeClone(u, v, v2) ==
    /\ vers' = Put(vers, v2, [vers[v] EXCEPT !.arm = Put(@, v2, Scopes(u))])
    /\ wats' = Put(wats, v2, NewWatchSet(vers[v].m))
    /\ linear' = (linear /\ v = head)
    /\ head' = v2
    /\ UNCHANGED <<txns, curs>>

\* The history lets go of a tree.  Its watches stay under observation.
Forget(v) ==
    /\ vers' = Drop(vers, v)
    /\ UNCHANGED <<txns, curs, wats, head, linear>>

-----------------------------------------------------------------------------
(* Transactions *)

Begin(u, v, x) ==
    /\ txns' = Put(txns, x, [m |-> vers[v].m, arm |-> vers[v].arm, trk |-> FALSE,
                             base |-> v, dirty |-> FALSE, pend |-> <<>>, mayb |-> <<>>])
    /\ UNCHANGED <<vers, curs, wats, head, linear>>

Track(x, on) ==
    /\ txns' = [txns EXCEPT ![x].trk = on]
    /\ UNCHANGED <<vers, curs, wats, head, linear>>

TxnWrite(u, x, op) ==
    LET T == txns[x]
        X == Changed(u, T.m, op)
        m2 == After(u, T.m, op)
        must == MustScopes(u, X)
        mayn == MayNode(u, T.m, X)
    IN  /\ IF X = {} THEN UNCHANGED <<txns, wats>>
           ELSE IF ~u.watch THEN
                /\ txns' = [txns EXCEPT ![x].m = m2, ![x].dirty = TRUE]
                /\ UNCHANGED wats
           ELSE IF T.trk THEN
                /\ txns' = [txns EXCEPT ![x] = [T EXCEPT
                      !.m = m2, !.dirty = TRUE,
                      !.pend = [w \in DOMAIN T.arm |-> At(T.pend, w) \cup (T.arm[w] \cap must)],
                      !.mayb = [w \in DOMAIN wats |-> At(T.mayb, w)
                                    \cup MayScopes(u, wats[w].pm, X, mayn)],
                      !.arm  = [w \in DOMAIN T.arm |-> T.arm[w] \ must]]]
                /\ UNCHANGED wats
           ELSE /\ txns' = [txns EXCEPT ![x] = [T EXCEPT
                      !.m = m2, !.dirty = TRUE, !.arm = UntrackedArm(u, T.arm, T.m, X)]]
                /\ wats' = UntrackedWats(u, T.m, X)
        /\ UNCHANGED <<vers, curs, head, linear>>

\* The watch sets after transaction T has been notified.
Notified(T, W) ==
    [w \in DOMAIN W |-> [W[w] EXCEPT !.due = @ \cup At(T.pend, w),
                                     !.may = @ \cup At(T.mayb, w)]]

Unsettled(T) == [w \in DOMAIN T.arm |-> T.arm[w] \ At(T.mayb, w)]

CommitOnly(u, x, v2) ==
    LET T == txns[x]
    IN  /\ vers' = Put(vers, v2, [m |-> T.m, arm |-> Put(Unsettled(T), v2, Scopes(u))])
        /\ wats' = Put(wats, v2, NewWatchSet(T.m))
        /\ txns' = [txns EXCEPT ![x] = [T EXCEPT !.base = v2, !.dirty = FALSE,
                                                         !.arm = Put(T.arm, v2, Scopes(u))]]
        /\ linear' = (linear /\ T.base = head)
        /\ head' = v2
        /\ UNCHANGED curs

Notify(x) ==
    LET T == txns[x]
        ahead == T.trk /\ T.dirty
    IN  /\ IF T.trk
           THEN /\ wats' = Notified(T, wats)
                /\ txns' = [txns EXCEPT ![x] = [T EXCEPT !.pend = <<>>, !.mayb = <<>>,
                                                  !.base = IF ahead THEN -x ELSE @]]
           ELSE UNCHANGED <<wats, txns>>
        /\ linear' = (linear /\ (T.trk => T.base = head))
        /\ head' = IF ahead THEN -x ELSE head
        /\ UNCHANGED <<vers, curs>>

Commit(u, x, v2) ==
    LET T == txns[x]
    IN  IF ~T.trk THEN CommitOnly(u, x, v2)
        ELSE /\ vers' = Put(vers, v2, [m |-> T.m, arm |-> Put(T.arm, v2, Scopes(u))])
             /\ wats' = Put(Notified(T, wats), v2, NewWatchSet(T.m))
             /\ txns' = [txns EXCEPT ![x] = [T EXCEPT !.base = v2, !.dirty = FALSE, !.pend = <<>>, !.mayb = <<>>,
                                               !.arm = Put(T.arm, v2, Scopes(u))]]
             /\ linear' = (linear /\ T.base = head)
             /\ head' = v2
             /\ UNCHANGED curs

TxnClone(x, x2) ==
    /\ txns' = Put(txns, x2, [txns[x] EXCEPT !.trk = FALSE, !.pend = <<>>, !.mayb = <<>>,
                                             !.arm = Unsettled(txns[x])])
    /\ UNCHANGED <<vers, curs, wats, head, linear>>

Abandon(x) ==
    /\ txns' = Drop(txns, x)
    /\ UNCHANGED <<vers, curs, wats, head, linear>>

-----------------------------------------------------------------------------
(* Iterators *)

Open(u, v, c, kind, q) ==
    LET m == vers[v].m
        ks == ListQuery(u, m, kind, q)
    IN  /\ curs' = Put(curs, c, [i \in 1..Len(ks) |-> <<ks[i], m[ks[i]]>>])
        /\ UNCHANGED <<vers, txns, wats, head, linear>>

\* What the next step of cursor c delivers; <<0, 0>> is the end.
Delivered(c) == IF curs[c] = <<>> THEN <<0, 0>> ELSE Head(curs[c])

Step(c) ==
    /\ curs' = [curs EXCEPT ![c] = IF @ = <<>> THEN @ ELSE Tail(@)]
    /\ UNCHANGED <<vers, txns, wats, head, linear>>

Close(c) ==
    /\ curs' = Drop(curs, c)
    /\ UNCHANGED <<vers, txns, wats, head, linear>>

-----------------------------------------------------------------------------
(* Watches *)

\* Watches taken inside transaction x form a watch set of their own.  They may
\* already have fired, or fire for what happened before, if another transaction
\* has overtaken x or has changes to be notified.
TxnWatch(u, x, w) ==
    LET alone == txns[x].base = head /\ \A y \in DOMAIN txns \ {x} : txns[y].mayb = <<>>
    IN  /\ wats' = Put(wats, w, [NewWatchSet(txns[x].m) EXCEPT !.loose = IF alone THEN {} ELSE Scopes(u)])
        /\ txns' = [txns EXCEPT ![x].arm = Put(@, w, Scopes(u))]
        /\ UNCHANGED <<vers, curs, head, linear>>

\* The history stops observing watch set w.
Unwatch(w) ==
    /\ wats' = Drop(wats, w)
    /\ vers' = [v \in DOMAIN vers |-> [vers[v] EXCEPT !.arm = Drop(@, w)]]
    /\ txns' = [x \in DOMAIN txns |-> [txns[x] EXCEPT
                  !.arm = Drop(@, w), !.pend = Drop(@, w), !.mayb = Drop(@, w)]]
    /\ UNCHANGED <<curs, head, linear>>

MustBeClosed(w, s) == s \in wats[w].due

MayBeClosed(u, w, s) ==
    \/ s \in wats[w].may
    \/ ~linear
    \/ s \in wats[w].loose

Quiet == UNCHANGED rvars

-----------------------------------------------------------------------------
(* Calls as records.  ev.e names the call, the other fields its arguments. *)

OpOf(ev) == [o |-> ev.o, k |-> ev.k, x |-> ev.x]

Act(u, ev) ==
    CASE ev.e = "tw"  -> TreeWrite(u, ev.v, OpOf(ev), ev.n)
      [] ev.e = "xw"  -> TxnWrite(u, ev.t, OpOf(ev))
      [] ev.e = "bg"  -> Begin(u, ev.v, ev.t)
      [] ev.e = "trk" -> Track(ev.t, ev.on)
      [] ev.e = "cm"  -> Commit(u, ev.t, ev.n)
      [] ev.e = "co"  -> CommitOnly(u, ev.t, ev.n)
      [] ev.e = "nt"  -> Notify(ev.t)
      [] ev.e = "cl"  -> TxnClone(ev.t, ev.n)
      [] ev.e = "ab"  -> Abandon(ev.t)
      [] ev.e = "tc"  -> TreeClone(u, ev.v, ev.n)
      [] ev.e = "fg"  -> Forget(ev.v)
      [] ev.e = "op"  -> Open(u, ev.v, ev.c, ev.kind, ev.q)
      [] ev.e = "st"  -> Step(ev.c)
      [] ev.e = "cc"  -> Close(ev.c)
      [] ev.e = "wt"  -> TxnWatch(u, ev.t, ev.w)
      [] ev.e = "dw"  -> Unwatch(ev.w)
      [] OTHER        -> Quiet  \* a query or an observation
=============================================================================
