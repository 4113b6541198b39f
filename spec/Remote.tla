------------------------------- MODULE Remote -------------------------------
(***************************************************************************)
(* Reading from remote repositories through a local cache (property P17).  *)
(*                                                                         *)
(* Repositories are published to by others, may be out of reach for a      *)
(* while, and are read by sessions, i.e. processes that share one cache    *)
(* directory. Objects are identified by their content. The transport of an *)
(* object brings all objects that git sees in it.                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TLCExt, Json

CONSTANTS
  Sessions, Remotes, Locals, Which, Versions, Uuids, Values, Ops, MaxLevel,
  Sample,
  Ready      \* values that each entry point has at first

VARIABLES
  repo,      \* repository -> which -> [has, c], c: key -> value, key = <<uuid, version>>
  reach,     \* repositories that can be reached
  cache,     \* remote -> objects in the cache
  made,      \* remotes that may have a cache directory
  sess,      \* session -> [r, top: which -> [st, c, own], mem]
  ever,      \* history: objects that a repository ever had
  act

vars == <<repo, reach, cache, made, sess, ever, act>>

\* the value depends on the state, so that TLC evaluates it anew in each state
Pick(S) == IF Sample /\ S # {} /\ act.op # "never" THEN {RandomElement(S)} ELSE S
Repos == Remotes \cup Locals
Empty == [x \in {} |-> 0]
Restrict(f, S) == [x \in S |-> f[x]]
Keys(w) == IF w = "tvl" THEN {""} \X Versions ELSE Uuids \X Versions
Parts == {"E", "M", "F"}

----------------------------------------------------------------------------
\* Objects, and what git transports with them
List(c, u) == {<<k[2], c[k]>> : k \in {k \in DOMAIN c : k[1] = u}}
Top(w, c) == <<w, {<<k, c[k]>> : k \in DOMAIN c}>>
Closure(o) ==
  {o} \cup
  CASE o[1] = "us" -> {<<"vl", {<<e[1][2], e[2]>> : e \in {e \in o[2] : e[1][1] = u}}>> :
                         u \in {e[1][1] : e \in o[2]}}
    [] o[1] = "dt" -> {<<"mrr", o[2]>>}
    [] o[1] = "ft" -> {<<"fref", o[2]>>}
    [] OTHER -> {}

\* the objects on the way from a loaded top-level object to a part
WayE(w, c, k) == (IF w = "tvl" THEN <<<<"dt", c[k]>>>> ELSE <<<<"vl", List(c, k[1])>>>>)
                 \o <<<<"mrr", c[k]>>>>
Way(w, c, k, part) ==
  WayE(w, c, k) \o
  CASE part = "E" -> <<>>
    [] part = "M" -> <<<<"mref", c[k]>>, <<"md", c[k]>>>>
    [] part = "F" -> <<<<"ft", c[k]>>, <<"fref", c[k]>>, <<"fmd", c[k]>>>>
Objects(w, c) == Closure(Top(w, c)) \cup
  UNION {Closure(Way(w, c, k, p)[n]) : k \in DOMAIN c, p \in Parts, n \in {1, 2}} \cup
  UNION {Closure(Way(w, c, k, p)[n]) : k \in DOMAIN c, p \in {"M", "F"}, n \in {3, 4}} \cup
  {<<"fmd", c[k]>> : k \in DOMAIN c}

\* Fetch one after the other what is missing. [cache, number of fetches]
RECURSIVE Fetch(_, _)
Fetch(have, way) ==
  IF way = <<>> THEN [have |-> have, n |-> 0]
  ELSE IF Head(way) \in have THEN Fetch(have, Tail(way))
  ELSE LET rest == Fetch(have \cup Closure(Head(way)), Tail(way))
       IN [have |-> rest.have, n |-> rest.n + 1]
InCache(have, way) == \A n \in 1 .. Len(way) : way[n] \in have

----------------------------------------------------------------------------
None == [st |-> "none", c |-> Empty, own |-> Empty]
Idle == [r |-> "", top |-> [w \in Which |-> None], mem |-> {}]

First(w) == [k \in {k \in Keys(w) : Ready # {}} |-> CHOOSE x \in Ready : TRUE]
Init == /\ repo = [r \in Repos |-> [w \in Which |-> [has |-> Ready # {}, c |-> First(w)]]]
        /\ reach = Repos
        /\ cache = [r \in Remotes |-> {}]
        /\ made = {}
        /\ sess = [s \in Sessions |-> Idle]
        /\ ever = [r \in Repos |-> UNION {Objects(w, First(w)) : w \in {w \in Which : Ready # {}}}]
        /\ act = [op |-> "init", ok |-> TRUE]

\* Somebody with direct access writes an entry point
Publish(r, w, k, x) ==
  /\ "publish" \in Ops
  /\ repo[r][w].has /\ k \in DOMAIN repo[r][w].c => repo[r][w].c[k] # x
  /\ LET c == (k :> x) @@ repo[r][w].c IN
     /\ repo' = [repo EXCEPT ![r][w] = [has |-> TRUE, c |-> c]]
     /\ ever' = [ever EXCEPT ![r] = @ \cup Objects(w, c)]
  /\ act' = [op |-> "publish", r |-> r, w |-> w, k |-> k, x |-> x, ok |-> TRUE]
  /\ UNCHANGED <<reach, cache, made, sess>>

\* or removes it
Remove(r, w) ==
  /\ "remove" \in Ops
  /\ repo[r][w].has
  /\ repo' = [repo EXCEPT ![r][w] = [has |-> FALSE, c |-> Empty]]
  /\ act' = [op |-> "remove", r |-> r, w |-> w, ok |-> TRUE]
  /\ UNCHANGED <<reach, cache, made, sess, ever>>

Reach(r) ==
  /\ "reach" \in Ops
  /\ r \in Remotes
  /\ reach' = IF r \in reach THEN reach \ {r} ELSE reach \cup {r}
  /\ act' = [op |-> "reach", r |-> r, on |-> r \notin reach, ok |-> TRUE]
  /\ UNCHANGED <<repo, cache, made, sess, ever>>

\* The cache may be removed at any time
Wipe ==
  /\ "wipe" \in Ops
  /\ cache' = [r \in Remotes |-> {}]
  /\ made' = {}
  /\ act' = [op |-> "wipe", ok |-> TRUE]
  /\ UNCHANGED <<repo, reach, sess, ever>>

Made(s) == made \cup ({sess[s].r} \cap Remotes)
Have(r) == IF r \in Remotes THEN cache[r] ELSE ever[r]
Store(r, have) == IF r \in Remotes THEN [cache EXCEPT ![r] = have] ELSE cache

Load(s, r) ==
  /\ "load" \in Ops
  /\ LET ok == r \in reach
         found == {w \in Which : repo[r][w].has} IN
     /\ act' = [op |-> "load", s |-> s, r |-> r, ok |-> ok, n |-> IF r \in Remotes THEN 2 ELSE 0,
                res |-> IF ok THEN found ELSE {}]
     /\ sess' = IF ok
                THEN [sess EXCEPT ![s] = [r |-> r, mem |-> {}, top |-> [w \in Which |->
                       IF w \in found THEN [st |-> "loaded", c |-> repo[r][w].c, own |-> Empty]
                       ELSE None]]]
                ELSE sess
     /\ cache' = IF ok THEN Store(r, Have(r) \cup UNION {Closure(Top(w, repo[r][w].c)) : w \in found})
                 ELSE cache
  /\ made' = made \cup ({r} \cap Remotes)
  /\ UNCHANGED <<repo, reach, ever>>

\* The transport of objects breaks, but the repository can be asked for its references
Broken(s, r) ==
  /\ "broken" \in Ops
  /\ r \in reach
  /\ LET ok == \A w \in Which : ~repo[r][w].has IN
     /\ act' = [op |-> "broken", s |-> s, r |-> r, ok |-> ok, n |-> 2, res |-> {}]
     /\ sess' = IF ok THEN [sess EXCEPT ![s] = [r |-> r, mem |-> {}, top |-> [w \in Which |-> None]]]
                ELSE sess
  /\ made' = made \cup {r}
  /\ UNCHANGED <<repo, reach, cache, ever>>

\* A session is killed while it creates the cache for a remote
Crash(s, r) ==
  /\ "crash" \in Ops
  /\ r \notin made
  /\ sess' = [sess EXCEPT ![s] = Idle]
  /\ act' = [op |-> "crash", s |-> s, r |-> r, n |-> 99, ok |-> TRUE]
  /\ UNCHANGED <<repo, reach, cache, made, ever>>

\* The top-level object of a session, loaded again if that is necessary.
\* [ok, top, have, n]
Ensure(s, w) ==
  LET t == sess[s].top[w]  r == sess[s].r  now == repo[r][w] IN
  IF t.st = "loaded" THEN [ok |-> TRUE, top |-> t, have |-> Have(r), n |-> 0]
  ELSE IF r \in reach /\ now.has
  THEN [ok |-> TRUE, top |-> [st |-> "loaded", c |-> now.c, own |-> Empty],
        have |-> Have(r) \cup Closure(Top(w, now.c)), n |-> 1]
  ELSE [ok |-> FALSE, top |-> t, have |-> Have(r), n |-> 1]

\* what is not in memory of a way
Needed(w, c, k, part, m) ==
  LET all == Way(w, c, k, part) IN
  IF <<w, k, part>> \in m THEN <<>>
  ELSE IF <<w, k, "E">> \in m THEN SubSeq(all, 3, Len(all))
  ELSE IF <<w, <<k[1], "">>, "L">> \in m THEN Tail(all)
  ELSE all

\* Access to a part. [ok, top, have, n, mem]
Try(s, w, k, part) ==
  LET e == Ensure(s, w)  r == sess[s].r  m == sess[s].mem IN
  IF ~e.ok \/ k \notin DOMAIN e.top.c
  THEN [ok |-> FALSE, top |-> e.top, have |-> e.have, n |-> e.n + (IF w = "us" THEN 1 ELSE 0), mem |-> m]
  ELSE
  LET list == <<w, <<k[1], "">>, "L">>
      wayE == Needed(w, e.top.c, k, "E", m)
      rest == Needed(w, e.top.c, k, part, m)
      onL == w = "us" /\ (r \in reach \/ list \in m \/ WayE(w, e.top.c, k)[1] \in e.have)
      onE == r \in reach \/ InCache(e.have, wayE)
      on == r \in reach \/ InCache(e.have, rest)
      f == Fetch(e.have, rest)
  IN [ok |-> on, top |-> e.top, have |-> IF on THEN f.have ELSE e.have, n |-> e.n + f.n,
      mem |-> m \cup (IF onL THEN {list} ELSE {}) \cup
              (IF on THEN {<<w, k, "E">>, <<w, k, part>>}
                      ELSE IF onE THEN {<<w, k, "E">>} ELSE {})]

Result(top, k, part) == IF <<k, part>> \in DOMAIN top.own THEN top.own[<<k, part>>] ELSE top.c[k]

Known(s, w) == sess[s].top[w].st # "none"

\* looking for a key of a version list that is missing needs the version list:
\* left out, if that is not at hand
Decided(s, w, k) ==
  w = "us" => LET e == Ensure(s, w) IN
    e.ok /\ k \notin DOMAIN e.top.c => \A x \in DOMAIN e.top.c : x[1] # k[1]

Access(s, w, k, part) ==
  /\ "access" \in Ops
  /\ Known(s, w)
  /\ Decided(s, w, k)
  /\ LET t == Try(s, w, k, part) IN
     /\ act' = [op |-> "access", s |-> s, w |-> w, k |-> k, part |-> part, ok |-> t.ok, n |-> t.n,
                res |-> IF t.ok THEN Result(t.top, k, part) ELSE 0]
     /\ sess' = [sess EXCEPT ![s].top[w] = t.top, ![s].mem = t.mem]
     /\ cache' = Store(sess[s].r, t.have)
  /\ made' = Made(act'.s)
  /\ UNCHANGED <<repo, reach, ever>>

\* a new run in metadata that was loaded
Change(s, w, k, part, x) ==
  /\ "change" \in Ops
  /\ part \in {"M", "F"}
  /\ Known(s, w) /\ sess[s].top[w].st = "loaded" /\ k \in DOMAIN sess[s].top[w].c
  /\ LET t == Try(s, w, k, part) IN
     /\ t.ok
     /\ Result(t.top, k, part) # x
     /\ act' = [op |-> "change", s |-> s, w |-> w, k |-> k, part |-> part, x |-> x, ok |-> TRUE, n |-> t.n]
     /\ sess' = [sess EXCEPT ![s].top[w] = [t.top EXCEPT !.own = (<<k, part>> :> x) @@ @],
                             ![s].mem = t.mem]
     /\ cache' = Store(sess[s].r, t.have)
  /\ made' = Made(act'.s)
  /\ UNCHANGED <<repo, reach, ever>>

\* A remote cannot be written to.
Write(s, w) ==
  /\ "write" \in Ops
  /\ Known(s, w)
  /\ sess[s].r \in Remotes
  /\ act' = [op |-> "write", s |-> s, w |-> w, n |-> 0, ok |-> DOMAIN sess[s].top[w].own = {}]
  /\ UNCHANGED <<repo, reach, cache, made, sess, ever>>

\* unload; what is changed cannot be unloaded
Unload(s, w) ==
  /\ "unload" \in Ops
  /\ Known(s, w)
  /\ LET ok == DOMAIN sess[s].top[w].own = {} IN
     /\ act' = [op |-> "unload", s |-> s, w |-> w, n |-> 0, ok |-> ok]
     /\ sess' = IF ok
                THEN [sess EXCEPT ![s].top[w] = [st |-> "unloaded", c |-> Empty, own |-> Empty],
                                  ![s].mem = {m \in @ : m[1] # w}]
                ELSE sess
  /\ UNCHANGED <<repo, reach, cache, made, ever>>

\* copy into a new local repository, with the changes
Copy(s, w) ==
  /\ "copy" \in Ops
  /\ Known(s, w) /\ sess[s].top[w].st = "loaded"
  /\ LET top == sess[s].top[w]  r == sess[s].r
         needed(k, p) == Needed(w, top.c, k, p, sess[s].mem)
         ok == r \in reach \/ \A k \in DOMAIN top.c, p \in Parts : InCache(Have(r), needed(k, p))
         all == Have(r) \cup UNION {UNION {Closure(needed(k, p)[n]) : n \in 1 .. Len(needed(k, p))} :
                                      k \in DOMAIN top.c, p \in Parts}
     IN
     /\ act' = [op |-> "copy", s |-> s, w |-> w, ok |-> ok, n |-> 99,
                res |-> IF ok THEN {<<k, Result(top, k, "M"), Result(top, k, "F")>> : k \in DOMAIN top.c}
                        ELSE {}]
     /\ cache' = Store(r, IF ok THEN all ELSE Have(r))
  /\ made' = Made(act'.s)
  /\ UNCHANGED <<repo, reach, sess, ever>>

Next ==
  \/ \E r \in Pick(Repos), w \in Pick(Which) : \E k \in Pick(Keys(w)), x \in Pick(Values) : Publish(r, w, k, x)
  \/ \E r \in Pick(Repos), w \in Pick(Which), k \in Pick(1 .. IF Sample THEN 3 ELSE 1) : k = 1 /\ Remove(r, w)
  \/ \E r \in Pick(Remotes) : Reach(r)
  \/ Wipe
  \/ \E s \in Pick(Sessions) :
       \/ \E r \in Pick(Repos) : Load(s, r)
       \/ \E r \in Pick(Remotes) : Broken(s, r)
       \/ \E r \in Pick(Remotes) : Crash(s, r)
       \/ \E w \in Which : \E k \in Pick(Keys(w)), p \in Parts : Access(s, w, k, p)
       \/ \E w \in Which : \E k \in Pick(Keys(w)), p \in Pick({"M", "F"}), x \in Pick(Values) : Change(s, w, k, p, x)
       \/ \E w \in Which : Write(s, w) \/ Unload(s, w) \/ Copy(s, w)

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* What is cached for a remote comes from this remote
Apart == \A r \in Remotes : cache[r] \subseteq ever[r]

\* What is in memory came from the repository of the session
Genuine ==
  \A s \in Sessions : \A w \in Which : LET t == sess[s].top[w] IN
    t.st = "loaded" => Objects(w, t.c) \subseteq ever[sess[s].r]

\* Loading gives what the repository has at that moment
Current ==
  [][act'.op = "load" /\ act'.ok =>
       \A w \in Which : LET t == sess'[act'.s].top[w]  now == repo[act'.r][w] IN
         /\ (t.st = "loaded") = now.has
         /\ now.has => t.c = now.c]_vars

\* Sessions do not change repositories
ReadOnly == [][act'.op \notin {"publish", "remove"} => repo' = repo]_vars

\* and an access fetches what belongs to the way only
Lazy ==
  [][/\ act'.op \notin {"load", "access", "change", "copy", "wipe"} => cache' = cache
     /\ act'.op \in {"access", "change"} =>
          LET r == sess[act'.s].r
              c == sess'[act'.s].top[act'.w].c
              way == IF act'.k \in DOMAIN c THEN Way(act'.w, c, act'.k, act'.part) ELSE <<>>
          IN
          /\ \A q \in Remotes \ {r} : cache'[q] = cache[q]
          /\ r \in Remotes => cache'[r] \ cache[r] \subseteq
               Closure(Top(act'.w, c)) \cup UNION {Closure(way[n]) : n \in 1 .. Len(way)}
    ]_vars

\* Every object that is at hand can be read without the remote
AtHand ==
  [][act'.op = "access" /\ ~act'.ok /\ sess[act'.s].top[act'.w].st = "loaded"
       /\ act'.k \in DOMAIN sess[act'.s].top[act'.w].c =>
       ~InCache(Have(sess[act'.s].r), Way(act'.w, sess[act'.s].top[act'.w].c, act'.k, act'.part))]_vars

Bound == TLCGet("level") <= MaxLevel
GenView == <<repo, reach, cache, made, sess>>
Id(x) == <<TLCFP(x), TLCFP(<<"x", x>>)>>
EmitState ==
  PrintT("S " \o ToString(Id(GenView)) \o " " \o
         ToJson([init |-> act.op = "init"]))
EmitEdge ==
  PrintT("T " \o ToString(Id(GenView)) \o " " \o ToString(Id(GenView')) \o " " \o ToJson(act'))
=============================================================================
