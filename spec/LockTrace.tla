----------------------------- MODULE LockTrace -----------------------------
(***************************************************************************)
(* Validation of recorded histories of locking: is each of them a          *)
(* behaviour of Lock?                                                      *)
(***************************************************************************)
EXTENDS Lock, Json, Sequences

CONSTANT TraceFile

Traces == JsonDeserialize(TraceFile)

ASSUME \A n \in DOMAIN Traces : TLCSet(n, 0)

VARIABLES tr, i
tvars == <<vars, tr, i>>

Event(e) ==
  CASE e.e = "request" -> Request(e.p, e.r)
    [] e.e = "grant"   -> Grant(e.p)
    [] e.e = "cancel"  -> Cancel(e.p)
    [] e.e = "release" -> Release(e.p, e.r)
    [] e.e = "refused" -> Refused(e.p, e.r)
    [] e.e = "fork"    -> Fork(e.p, e.c)
    [] e.e = "kill"    -> Kill(e.p)

TraceInit == Init /\ tr \in DOMAIN Traces /\ i = 1

TraceNext ==
  /\ i <= Len(Traces[tr])
  /\ Event(Traces[tr][i])
  /\ i' = i + 1
  /\ tr' = tr

TraceSpec == TraceInit /\ [][TraceNext]_tvars

Progress == i - 1 > TLCGet(tr) => TLCSet(tr, i - 1)

Report ==
  \A n \in DOMAIN Traces :
    TLCGet(n) = Len(Traces[n]) \/ PrintT("BAD " \o ToString(n) \o " " \o ToString(TLCGet(n)))
=============================================================================
