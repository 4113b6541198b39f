-------------------------------- MODULE Path --------------------------------
(***************************************************************************)
(* Metadata paths as texts and as sequences of elements (property P19).    *)
(* A state is a pair of texts, each behaviour extends them by characters.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TLCExt, Json

CONSTANTS
  Chars,      \* all characters, "/" and "." among them
  MaxX, MaxY  \* lengths of the texts

VARIABLES x, y
vars == <<x, y>>

\* Elements of a text: what is between slashes, but neither "" nor "."
RECURSIVE Split(_, _, _)
Split(text, word, result) ==
  LET done == IF word \in {<<>>, <<".">>} THEN result ELSE Append(result, word)
  IN IF text = <<>> THEN done
     ELSE IF Head(text) = "/" THEN Split(Tail(text), <<>>, done)
     ELSE Split(Tail(text), Append(word, Head(text)), result)

Elements(text) == Split(text, <<>>, <<>>)

\* Text of a path
RECURSIVE Render(_)
Render(path) ==
  IF path = <<>> THEN <<>>
  ELSE IF Len(path) = 1 THEN path[1]
  ELSE path[1] \o <<"/">> \o Render(Tail(path))

Join(p, q) == p \o q

Init == x = <<>> /\ y = <<>>
Next == \/ \E c \in Chars : Len(x) < MaxX /\ x' = Append(x, c) /\ UNCHANGED y
        \/ \E c \in Chars : Len(y) < MaxY /\ y' = Append(y, c) /\ UNCHANGED x
Spec == Init /\ [][Next]_vars

(* Properties *)
px == Elements(x)
py == Elements(y)
Canonical == \A n \in DOMAIN px : px[n] \notin {<<>>, <<".">>} /\ \A m \in DOMAIN px[n] : px[n][m] # "/"
RoundTrip == Elements(Render(px)) = px
Joined == Elements(Render(px) \o <<"/">> \o Render(py)) = Join(px, py)
Neutral == Join(px, Elements(<<>>)) = px /\ Join(Elements(<<>>), px) = px
LeadingSlash == Elements(<<"/">> \o x) = px
\* equal texts of paths belong to equal paths
Injective == (Render(px) = Render(py)) <=> (px = py)
Kept == LET letters(t) == SelectSeq(t, LAMBDA c : c \notin {"/", "."})
        IN letters(Render(px)) = letters(x)

EmitState == PrintT("P " \o ToJson([x |-> x, y |-> y, px |-> px, py |-> py]))
=============================================================================
