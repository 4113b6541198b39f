----------------------------- MODULE SaveTrace -----------------------------
(***************************************************************************)
(* Validation of recorded saves: is each of them a behaviour of Save?      *)
(* The state of the repository is recorded before each storage command.    *)
(* Which references are collected, but not flushed, cannot be seen:        *)
(* whether the right ones were collected is decided after the next flush.  *)
(***************************************************************************)
EXTENDS Save, Json, Sequences

CONSTANT TraceFile

Traces == JsonDeserialize(TraceFile)

ASSUME \A n \in DOMAIN Traces : TLCSet(n, 0)

VARIABLES tr, i
tvars == <<vars, tr, i>>

Range(s) == {s[n] : n \in DOMAIN s}

\* what happened since the last event
Seen(o) ==
  /\ stored' = stored \union Range(o.new)
  /\ refs' = refs \union Range(o.refs)
  /\ entry' = [e \in Entries |-> o.entry[e]]

Complete2(x) == Closure(x) \subseteq stored'

\* one storage command, or none
Look(o) ==
  /\ Seen(o)
  /\ \A e \in Entries : entry'[e] # entry[e] =>
       op.kind = "top" /\ op.e = e /\ entry'[e] = op.goal /\ Complete2(entry'[e])
  /\ o.refs # <<>> => op.kind = "flush" /\ \A x \in Range(o.refs) : Complete2(x)
  /\ UNCHANGED <<graph, pend, saved, wrote, lost, op, count>>

Same(o) == o.new = <<>> /\ o.refs = <<>> /\ \A e \in Entries : entry[e] = o.entry[e]

Event(e) ==
  CASE e.e = "begin" -> Begin(e.kind, e.goal, e.entry)
    [] e.e = "look"  -> Look(e.obs)
    [] e.e = "ok"    -> /\ op.kind \in Saves /\ op.goal # NoRef => Complete(op.goal)
                        /\ op.kind = "top" => entry[op.e] = op.goal
                        /\ wrote' = IF op.kind \in {"tree", "top"} /\ op.goal # NoRef
                                    THEN wrote \union {<<op.goal, op.e>>} ELSE wrote
                        /\ SavedNow(Range(e.saved))
                        /\ op' = NoOp
                        /\ UNCHANGED <<graph, lost, stored, entry, refs, pend, count>>
                        /\ op.kind = "flush" => FlushProtects'
    [] e.e = "err"   -> e.fault /\ Fail(Range(e.saved))
    [] e.e = "kill"  -> Kill

TraceInit ==
  /\ tr \in DOMAIN Traces /\ i = 1
  /\ LET k == Traces[tr].kids IN
     /\ kids = [x \in DOMAIN k |-> Range(k[x])]
     /\ tree = Range(Traces[tr].tree)
  /\ stored = Range(Traces[tr].stored) /\ refs = {} /\ pend = {} /\ saved = {} /\ wrote = {} /\ lost = {}
  /\ entry = [e \in Entries |-> NoRef]
  /\ op = NoOp
  /\ count = 0

TraceNext ==
  /\ i <= Len(Traces[tr].events)
  /\ Event(Traces[tr].events[i])
  /\ i' = i + 1
  /\ tr' = tr

TraceSpec == TraceInit /\ [][TraceNext]_tvars

Progress == i - 1 > TLCGet(tr) => TLCSet(tr, i - 1)

Report ==
  \A n \in DOMAIN Traces :
    TLCGet(n) = Len(Traces[n].events)
      \/ PrintT("BAD " \o ToString(n) \o " " \o ToString(TLCGet(n)))
=============================================================================
