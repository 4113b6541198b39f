--------------------------- MODULE RefStoreTrace ---------------------------
(***************************************************************************)
(* Validation of recorded histories: is each of them a behaviour of        *)
(* RefStore? A process may have done any number of steps between two       *)
(* events of its own; that it did them right before the latter is no       *)
(* restriction, because it is stopped until then.                          *)
(***************************************************************************)
EXTENDS RefStore, Json

CONSTANT TraceFile

Traces == JsonDeserialize(TraceFile)

ASSUME \A n \in DOMAIN Traces : TLCSet(n, 0)

VARIABLES tr, i
tvars == <<vars, tr, i>>

Range(s) == {s[n] : n \in DOMAIN s}
FromJson(o) == [ex |-> o.ex, s |-> Range(o.s)]
Seen(obs) ==
  \A r \in DOMAIN obs :
    /\ cur'[r] = FromJson(obs[r].cur)
    /\ \A k \in Kinds : leg'[r][k] = FromJson(obs[r][k])

Event(e) ==
  CASE e.e = "legacy" -> Legacy(e.r, e.k, Range(e.s))
    [] e.e = "break"  -> Break(e.r, e.how)
    [] e.e = "repair" -> Repair(e.r)
    [] e.e = "add"    -> Add(e.p, e.x, e.r)
    [] e.e = "begin"  -> Begin(e.p, e.r)
    [] e.e = "look"   -> UNCHANGED vars
    [] e.e = "kill"   -> Kill(e.p)
    [] e.e = "ok"     -> End(e.p)
    \* an error needs a reason
    [] e.e = "err"    -> Fail(e.p) /\ (e.fault \/ broken[repo[e.p]] # "no")

TraceInit == Init /\ tr \in DOMAIN Traces /\ i = 1

TraceNext ==
  \/ /\ i <= Len(Traces[tr])
     /\ Event(Traces[tr][i])
     /\ Seen(Traces[tr][i].obs)
     /\ i' = i + 1
     /\ tr' = tr
  \/ /\ i <= Len(Traces[tr])
     /\ Traces[tr][i].e \in {"ok", "err", "kill", "look"}
     /\ Step(Traces[tr][i].p)
     /\ UNCHANGED <<tr, i>>

TraceSpec == TraceInit /\ [][TraceNext]_tvars

\* How far did we get?
Progress == i - 1 > TLCGet(tr) => TLCSet(tr, i - 1)

Report ==
  \A n \in DOMAIN Traces :
    TLCGet(n) = Len(Traces[n]) \/ PrintT("BAD " \o ToString(n) \o " " \o ToString(TLCGet(n)))
=============================================================================
