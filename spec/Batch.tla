------------------------------- MODULE Batch --------------------------------
(***************************************************************************)
(* Writing the metadata of a file tree in batches (property P21). Each     *)
(* entry consists of two blobs, its metadata and a reference to it.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TLCExt, Json

CONSTANTS
  Realms, Contents,
  Max,          \* size of a batch
  MaxEntries,   \* in a tree
  Fix           \* parts of the protocol, {"discard", "last"} unless one wants
                \* to see what they are needed for

VARIABLES
  store,        \* realm -> blobs in it
  maybe,        \* realm -> blobs that a failed write might have stored
  active,       \* realms with an active batch
  batch,        \* blobs in the batch, in order
  op, act
vars == <<store, maybe, active, batch, op, act>>

Blob(k, c) == <<k, c>>
Range(s) == {s[n] : n \in DOMAIN s}
RECURSIVE Blobs(_)
Blobs(es) == IF es = <<>> THEN <<>>
             ELSE <<Blob("m", Head(es)), Blob("r", Head(es))>> \o Blobs(Tail(es))

Idle == [r |-> "-", todo |-> <<>>, es |-> <<>>, flushes |-> 0]

Init ==
  /\ store = [r \in Realms |-> {}] /\ maybe = [r \in Realms |-> {}]
  /\ active = {} /\ batch = <<>>
  /\ op = Idle
  /\ act = [op |-> "init", ok |-> TRUE]

Begin(r, es) ==
  /\ op = Idle /\ r \notin active
  /\ op' = [r |-> r, todo |-> Blobs(es), es |-> es, flushes |-> 0]
  /\ active' = active \union {r}
  /\ batch' = <<>>
  /\ act' = [op |-> "begin", r |-> r, es |-> es, ok |-> TRUE]
  /\ UNCHANGED <<store, maybe>>

\* all that is put into the batch until it has to be flushed
Least(a, b) == IF a < b THEN a ELSE b
Put ==
  /\ op # Idle /\ op.todo # <<>> /\ Len(batch) < Max
  /\ LET n == Least(Max - Len(batch), Len(op.todo)) IN
     /\ batch' = batch \o SubSeq(op.todo, 1, n)
     /\ op' = [op EXCEPT !.todo = SubSeq(@, n + 1, Len(@))]
  /\ act' = [op |-> "put", ok |-> TRUE]
  /\ UNCHANGED <<store, maybe, active>>

MustFlush ==
  op # Idle /\ batch # <<>> /\ (Len(batch) = Max \/ ("last" \in Fix /\ op.todo = <<>>))
Flush ==
  /\ MustFlush
  /\ store' = [store EXCEPT ![op.r] = @ \union Range(batch)]
  /\ batch' = <<>>
  /\ op' = [op EXCEPT !.flushes = @ + 1]
  /\ act' = [op |-> "flush", ok |-> TRUE]
  /\ UNCHANGED <<maybe, active>>

Fail(late) ==
  /\ MustFlush
  /\ maybe' = [maybe EXCEPT ![op.r] = @ \union Range(batch)]
  /\ active' = IF "discard" \in Fix THEN active \ {op.r} ELSE active
  /\ batch' = IF "discard" \in Fix THEN <<>> ELSE batch
  /\ op' = Idle
  /\ act' = [op |-> "fail", late |-> late, r |-> op.r, es |-> op.es, at |-> op.flushes,
             ok |-> TRUE]
  /\ UNCHANGED store

End ==
  /\ op # Idle /\ op.todo = <<>> /\ ~MustFlush
  /\ active' = active \ {op.r}
  /\ op' = Idle
  /\ act' = [op |-> "end", r |-> op.r, es |-> op.es, ok |-> TRUE]
  /\ UNCHANGED <<store, maybe, batch>>

\* a single record
Single(r, c) ==
  /\ op = Idle
  /\ IF r \in active
     THEN batch' = batch \o Blobs(<<c>>) /\ UNCHANGED store
     ELSE store' = [store EXCEPT ![r] = @ \union Range(Blobs(<<c>>))] /\ UNCHANGED batch
  /\ act' = [op |-> "single", r |-> r, c |-> c, ok |-> TRUE]
  /\ UNCHANGED <<maybe, active, op>>

Trees == UNION {[1 .. n -> Contents] : n \in 1 .. MaxEntries}

Next ==
  \/ \E r \in Realms : (\E es \in Trees : Begin(r, es)) \/ (\E c \in Contents : Single(r, c))
  \/ Put \/ Flush \/ End
  \/ \E late \in BOOLEAN : Fail(late)
Spec == Init /\ [][Next]_vars

Written == act.op = "end" => Range(Blobs(act.es)) \subseteq store[act.r]
SingleStored == act.op = "single" => Range(Blobs(<<act.c>>)) \subseteq store[act.r]
NoneActive == op = Idle => active = {}
Exact == [][act'.op = "end" => UNCHANGED <<store, maybe>>]_vars
OnlyItsRealm == [][\A r \in Realms : r # op.r /\ act'.op # "single" => UNCHANGED <<store[r], maybe[r]>>]_vars

Id(x) == <<TLCFP(x), TLCFP(<<"x", x>>)>>
GenView == <<store, maybe, batch, op>>
Bound == TRUE
EmitState ==
  PrintT("S " \o ToString(Id(GenView)) \o " " \o
         ToJson([store |-> store, maybe |-> maybe, idle |-> op = Idle, init |-> act.op = "init"]))
EmitEdge ==
  PrintT("T " \o ToString(Id(GenView)) \o " " \o ToString(Id(GenView')) \o " " \o ToJson(act'))
=============================================================================
