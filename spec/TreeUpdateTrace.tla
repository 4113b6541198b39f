-------------------------- MODULE TreeUpdateTrace --------------------------
(***************************************************************************)
(* Validation of recorded bulk updates: are they steps of TreeUpdate?      *)
(***************************************************************************)
EXTENDS TreeUpdate

CONSTANT TraceFile

Recorded == JsonDeserialize(TraceFile)

VARIABLE step
tvars == <<tree, act, step>>

\* A tree is recorded as a sequence of pairs
Func(s) == [p \in {s[n][1] : n \in DOMAIN s} |->
              s[CHOOSE n \in DOMAIN s : s[n][1] = p][2]]
FromJson(u) == [n \in DOMAIN u |-> Entry(u[n].p, u[n].k, u[n].b, Func(u[n].content))]

TraceInit == step = 1 /\ tree = Func(Recorded[1].before) /\ act = [op |-> "init", ok |-> TRUE]

TraceNext ==
  /\ step <= Len(Recorded)
  /\ LET r == Recorded[step]
         u == FromJson(r.u)
         expected == Union(Func(r.before), u)
     IN /\ Assert(AddPaths(Func(r.before), u) = expected, <<"models differ", step>>)
        /\ IF expected.ok = r.ok /\ (r.ok => expected.tree = Func(r.after))
           THEN TRUE ELSE PrintT("BAD " \o ToString(step))
        /\ tree' = Empty
        /\ act' = [op |-> "step", ok |-> r.ok]
  /\ step' = step + 1

TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
