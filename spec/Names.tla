------------------------------- MODULE Names --------------------------------
(***************************************************************************)
(* Names of tree entries on their way through the text interface of git    *)
(* (property P23): written as lines of "git mktree", printed by git with   *)
(* its quoting, and read again.                                            *)
(*                                                                         *)
(* Characters: Q quote, B backslash, N line feed, T another control        *)
(* character, E a character beyond ASCII, others stand for themselves.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Chars, MaxLen

VARIABLES name
vars == <<name>>

Has(s, S) == \E n \in DOMAIN s : s[n] \in S
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Map(f(_), s) == [n \in DOMAIN s |-> f(s[n])]

\* One escape per character. An octal escape of git is one token here: "oct"
\* followed by the character it stands for.
Escape(c) == CASE c = "Q" -> <<"B", "Q">>
               [] c = "B" -> <<"B", "B">>
               [] c = "N" -> <<"B", "n">>
               [] c = "T" -> <<"B", "t">>
               [] c = "E" -> <<"B", "oct", "E">>
               [] OTHER -> <<c>>

Quoted(s) == <<"Q">> \o Flat(Map(Escape, s)) \o <<"Q">>

RECURSIVE Unescape(_)
Unescape(s) ==
  IF s = <<>> THEN <<>>
  ELSE IF s[1] # "B" THEN <<s[1]>> \o Unescape(Tail(s))
  ELSE CASE s[2] \in {"Q", "B"} -> <<s[2]>> \o Unescape(SubSeq(s, 3, Len(s)))
         [] s[2] = "n" -> <<"N">> \o Unescape(SubSeq(s, 3, Len(s)))
         [] s[2] = "t" -> <<"T">> \o Unescape(SubSeq(s, 3, Len(s)))
         [] s[2] = "oct" -> <<s[3]>> \o Unescape(SubSeq(s, 4, Len(s)))

Unquote(s) == Unescape(SubSeq(s, 2, Len(s) - 1))

\* What has to be written: a line ends at a line feed, and it is unquoted if
\* it starts with a quote.
MustQuote(s) == s[1] = "Q" \/ Has(s, {"N"})
Written(s) == IF MustQuote(s) THEN Quoted(s) ELSE s
\* what git makes of a line
Parsed(line) == IF line[1] = "Q" THEN Unquote(line) ELSE line
\* what git prints
Printed(s) == IF Has(s, {"Q", "B", "N", "T", "E"}) THEN Quoted(s) ELSE s
\* what is read from that
Loaded(line) == IF line[1] = "Q" THEN Unquote(line) ELSE line

Init == name = <<>>
Next == \E c \in Chars : Len(name) < MaxLen /\ name' = Append(name, c)
Spec == Init /\ [][Next]_vars

Stored == name # <<>> => Parsed(Written(name)) = name
Survives == name # <<>> => Loaded(Printed(Parsed(Written(name)))) = name

IsName == name \notin {<<>>, <<".">>, <<".", ".">>}
EmitState == IsName => PrintT("P " \o ToJson([n |-> name]))
=============================================================================
