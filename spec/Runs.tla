-------------------------------- MODULE Runs --------------------------------
(***************************************************************************)
(* Metadata as a map from extractors and configurations to the run that    *)
(* was added last (properties P18, P01).                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TLCExt, Json

CONSTANTS
  Extractors, Versions, Params,   \* a configuration is a version and parameters
  Values,                         \* runs
  Ops

VARIABLES runs, act
vars == <<runs, act>>

Configs == Versions \X Params
Keys == Extractors \X Configs

Init == /\ runs = [k \in {} |-> 0]
        /\ act = [op |-> "init", ok |-> TRUE]

Add(k, v) ==
  /\ "add" \in Ops
  /\ runs' = (k :> v) @@ runs
  /\ act' = [op |-> "add", e |-> k[1], c |-> k[2], v |-> v, ok |-> TRUE]

\* Look up the runs of an extractor; unknown extractors have none.
Runs(e) == {<<k[2], runs[k]>> : k \in {x \in DOMAIN runs : x[1] = e}}

Get(e) ==
  /\ "get" \in Ops
  /\ act' = [op |-> "get", e |-> e, res |-> Runs(e), ok |-> Runs(e) # {}]
  /\ UNCHANGED runs

\* to JSON and back, to the repository and back, copy, compare
Same(op) ==
  /\ op \in Ops
  /\ act' = [op |-> op, ok |-> TRUE]
  /\ UNCHANGED runs

\* compare with metadata that differs in one run
Differ(k, v) ==
  /\ "differ" \in Ops
  /\ k \in DOMAIN runs => runs[k] # v
  /\ act' = [op |-> "differ", e |-> k[1], c |-> k[2], v |-> v, ok |-> TRUE]
  /\ UNCHANGED runs

Next ==
  \/ \E k \in Keys, v \in Values : Add(k, v) \/ Differ(k, v)
  \/ \E e \in Extractors : Get(e)
  \/ \E op \in {"json", "save", "reload", "unload", "copy", "equal"} : Same(op)

Spec == Init /\ [][Next]_vars

TypeOK == DOMAIN runs \subseteq Keys

LastWins ==
  [][IF act'.op = "add"
     THEN runs' = [k \in DOMAIN runs \cup {<<act'.e, act'.c>>} |->
                     IF k = <<act'.e, act'.c>> THEN act'.v ELSE runs[k]]
     ELSE runs' = runs]_vars

Id(x) == <<TLCFP(x), TLCFP(<<"x", x>>)>>
GenView == runs
Bound == TRUE
EmitState ==
  PrintT("S " \o ToString(Id(GenView)) \o " " \o
         ToJson([m |-> {<<k[1], k[2], runs[k]>> : k \in DOMAIN runs},
                 init |-> act.op = "init"]))
EmitEdge ==
  PrintT("T " \o ToString(Id(GenView)) \o " " \o ToString(Id(GenView')) \o " " \o ToJson(act'))
=============================================================================
