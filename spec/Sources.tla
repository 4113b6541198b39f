------------------------------ MODULE Sources -------------------------------
(***************************************************************************)
(* Metadata sources (property P22): what copying and writing deliver, and  *)
(* when they have to fail; descriptions of sources.                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TLCExt, Json

CONSTANTS Repos, Blobs, Trees, Ops

Objects == Blobs \union Trees

VARIABLES
  ex,      \* repositories that exist
  has,     \* repository -> objects in it
  act
vars == <<ex, has, act>>

Init ==
  /\ ex = Repos
  /\ has = [r \in Repos |-> {}]
  /\ act = [op |-> "init", ok |-> TRUE]

\* something else changes the repositories
Put(r, o) ==
  /\ "put" \in Ops /\ r \in ex
  /\ has' = [has EXCEPT ![r] = IF o \in @ THEN @ \ {o} ELSE @ \union {o}]
  /\ act' = [op |-> IF o \in has[r] THEN "drop" ELSE "put", r |-> r, o |-> o, ok |-> TRUE]
  /\ UNCHANGED ex
Hide(r) ==
  /\ "hide" \in Ops
  /\ ex' = IF r \in ex THEN ex \ {r} ELSE ex \union {r}
  /\ act' = [op |-> IF r \in ex THEN "hide" ELSE "show", r |-> r, ok |-> TRUE]
  /\ UNCHANGED has

\* a source delivers
Delivers(r, o) == r \in ex /\ o \in has[r] /\ o \in Blobs

Copy(r, o, d) ==
  /\ "copy" \in Ops
  /\ LET ok == Delivers(r, o) /\ d \in ex IN
     /\ has' = IF ok THEN [has EXCEPT ![d] = @ \union {o}] ELSE has
     /\ act' = [op |-> "copy", r |-> r, o |-> o, d |-> d, ok |-> ok, res |-> IF ok THEN o ELSE "-"]
  /\ UNCHANGED ex

Write(r, o) ==
  /\ "write" \in Ops
  /\ act' = [op |-> "write", r |-> r, o |-> o, ok |-> Delivers(r, o),
             res |-> IF Delivers(r, o) THEN o ELSE "-"]
  /\ UNCHANGED <<ex, has>>

\* the same with a failing command, and again
CopyFault(r, o, d) ==
  /\ "fault" \in Ops /\ Delivers(r, o) /\ d \in ex
  /\ has' = [has EXCEPT ![d] = @ \union {o}]
  /\ act' = [op |-> "copyfault", r |-> r, o |-> o, d |-> d, ok |-> TRUE, res |-> o]
  /\ UNCHANGED ex
WriteFault(r, o) ==
  /\ "fault" \in Ops /\ Delivers(r, o)
  /\ act' = [op |-> "writefault", r |-> r, o |-> o, ok |-> TRUE, res |-> o]
  /\ UNCHANGED <<ex, has>>

\* Descriptions: type t, parts that are missing, or have a foreign value. The
\* type of the mark and the type key belong together.
Kinds == {"local", "immediate"}
Parts(t) == {"@", "mark type", "mark version", "type key"}
              \union (IF t = "local" THEN {"path", "object"} ELSE {"content"})
Describe(t, missing, foreign) ==
  /\ "describe" \in Ops
  /\ act' = [op |-> "describe", t |-> t, missing |-> missing, foreign |-> foreign, ok |-> TRUE,
             res |-> IF missing \union foreign = {} THEN "source" ELSE "none"]
  /\ UNCHANGED <<ex, has>>

Immediate(v) ==
  /\ "immediate" \in Ops
  /\ act' = [op |-> "immediate", v |-> v, ok |-> TRUE]
  /\ UNCHANGED <<ex, has>>

Next ==
  \/ \E r \in Repos, o \in Objects : Put(r, o) \/ Write(r, o) \/ WriteFault(r, o)
                                     \/ \E d \in Repos : Copy(r, o, d) \/ CopyFault(r, o, d)
  \/ \E r \in Repos : Hide(r)
  \/ \E t \in Kinds : \E missing \in SUBSET Parts(t), foreign \in SUBSET (Parts(t) \ {"@", "content"}) :
       missing \intersect foreign = {} /\ Cardinality(missing) + Cardinality(foreign) <= 2
         /\ Describe(t, missing, foreign)
  \/ \E v \in {1, 2} : Immediate(v)
Spec == Init /\ [][Next]_vars

\* a copy reports success only if the object is there, and nothing else appears
CopyExact ==
  [][act'.op \in {"copy", "copyfault"} =>
       /\ act'.ok => /\ act'.res \in has'[act'.d] \intersect has[act'.r]
                     /\ {act'.r, act'.d} \subseteq ex
       /\ \A r \in Repos : has'[r] \ has[r] \subseteq (IF r = act'.d THEN {act'.o} ELSE {})
       /\ \A r \in Repos : has[r] \subseteq has'[r]]_vars

Id(x) == <<TLCFP(x), TLCFP(<<"x", x>>)>>
GenView == <<ex, has>>
Bound == TRUE
EmitState ==
  PrintT("S " \o ToString(Id(GenView)) \o " " \o
         ToJson([ex |-> ex, has |-> has, init |-> act.op = "init"]))
EmitEdge ==
  PrintT("T " \o ToString(Id(GenView)) \o " " \o ToString(Id(GenView')) \o " " \o ToJson(act'))
=============================================================================
