----------------------------- MODULE TraceRadix -----------------------------
(***************************************************************************)
(* Validates traces that were recorded while the real library ran.         *)
(*                                                                         *)
(* RV_HEADS names a file with one line per trace: the key table of the     *)
(* trace, whether it observes watches, and which lines of the event file   *)
(* belong to it.  RV_EVENTS names the event file.  Each trace is an        *)
(* initial state of its own, so TLC validates them in parallel.            *)
(*                                                                         *)
(* Each event is one call on the real code together with what it           *)
(* returned.  The event drives the action of Radix.tla for this call, and  *)
(* everything that was returned is compared with what the machine allows.  *)
(* The first difference is put into `bad' and stops the trace.             *)
(***************************************************************************)
EXTENDS Radix, Json, IOUtils

VARIABLES trace, at, bad

tvars == <<trace, at, bad, vers, txns, curs, wats, head, linear>>

Heads  == ndJsonDeserialize(IOEnv.RV_HEADS)
Events == ndJsonDeserialize(IOEnv.RV_EVENTS)

NT == Len(Heads)
Uni == TLCEval([h \in 1..NT |-> MkUni(Heads[h].keys, Heads[h].watch)])

ASSUME \A h \in 1..NT : WellFormedTable(Heads[h].keys)

Init ==
    /\ trace \in 1..NT
    /\ at = Heads[trace].lo - 1
    /\ bad = <<>>
    /\ InitRadix(Uni[trace])

-----------------------------------------------------------------------------
(* bad' for a list of conditions: the first one that fails *)

Expect(ok, what, want, got) ==
    bad' = IF ok THEN <<>> ELSE <<what, want, got>>

Has(ev, f) == f \in DOMAIN ev

\* Result of a write, if the event carries it.
WriteResult(u, m, ev) ==
    IF Has(ev, "r")
    THEN LET want == Reported(u, m, OpOf(ev)) IN Expect(ev.r = want, "result of write", want, ev.r)
    ELSE bad' = <<>>

ContentsOf(ev) == IF ev.h = "v" THEN vers[ev.id].m ELSE txns[ev.id].m

\* Result of one listing query.
Answer(u, m, kind, q, ks, vs) ==
    LET want == ListQuery(u, m, kind, q)
        wantv == ValuesOf(m, want)
    IN  IF ks # want THEN <<"keys of " \o kind, <<q, want>>, ks>>
        ELSE IF vs # wantv THEN <<"values of " \o kind, <<q, wantv>>, vs>>
        ELSE <<>>

FirstBad(results) ==
    LET s == TLCEval(results)
        b == {j \in 1..Len(s) : s[j] # <<>>}
    IN  IF b = {} THEN <<>> ELSE s[CHOOSE j \in b : \A l \in b : j <= l]

Queries(u, ev) ==
    LET m == ContentsOf(ev)
    IN  bad' = FirstBad([j \in 1..Len(ev.q) |-> Answer(u, m, ev.kind, ev.q[j], ev.ks[j], ev.vs[j])])

\* Observation of watch channels: c[j] tells whether the one for scope s[j] is
\* closed.  ev.must and ev.may select the rules that are looked at.
Observation(u, ev) ==
    LET w == ev.w
        wrong(j) ==
          IF ev.must /\ ev.c[j] = 0 /\ MustBeClosed(w, ev.s[j])
          THEN <<"watch has not fired", ev.s[j], 0>>
          ELSE IF ev.may /\ ev.c[j] = 1 /\ ~MayBeClosed(u, w, ev.s[j])
          THEN <<"watch fired without cause", ev.s[j], 1>>
          ELSE <<>>
    IN  bad' = FirstBad([j \in 1..Len(ev.s) |-> wrong(j)])

-----------------------------------------------------------------------------

\* What the call returned is what the machine allows.
Returned(u, ev) ==
    CASE ev.e = "tw" -> WriteResult(u, vers[ev.v].m, ev)
      [] ev.e = "xw" -> WriteResult(u, txns[ev.t].m, ev)
      [] ev.e = "q"  -> Queries(u, ev)
      [] ev.e = "len" -> LET want == SizeOf(u, ContentsOf(ev))
                         IN  Expect(ev.r = want, "length", want, ev.r)
      [] ev.e = "ob" -> Observation(u, ev)
      [] ev.e = "st" -> LET want == Delivered(ev.c)
                        IN  Expect(<<ev.k, ev.x>> = want, "iterator step", want, <<ev.k, ev.x>>)
      [] ev.e = "buf" -> Expect(ev.r = 1, "caller buffer unchanged", 1, ev.r)
      [] ev.e = "panic" -> Expect(FALSE, "call returns", "no panic", ev.what)
      [] ev.e \in {"bg", "trk", "cm", "co", "nt", "cl", "ab", "tc", "fg", "op", "cc", "wt", "dw", "ok"} -> bad' = <<>>

Event(u, ev) == Act(u, ev) /\ Returned(u, ev)

Next ==
    /\ bad = <<>>
    /\ at < Heads[trace].hi
    /\ at' = at + 1
    /\ trace' = trace
    /\ Event(Uni[trace], Events[at + 1])

Spec == Init /\ [][Next]_tvars

(* Every recorded result is one that the machine allows. *)
Conforms == bad = <<>>

(* What is shown of a trace that does not conform. *)
Short == [trace |-> trace, at |-> at, bad |-> bad]
=============================================================================
