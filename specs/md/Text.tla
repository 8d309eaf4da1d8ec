-------------------------------- MODULE Text --------------------------------
(* Texts are sequences of units: a single character, or a word that no rule
   looks into.  Sizes are in characters and in bytes (UTF-8).               *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC

Lf == "\n"
CrLf == "\r\n"
Space == {" ", "\n", "\r\n", "\t", "\r", "LS"}

\* The words, with their sizes; every other unit is one character of one byte.
WordLen == ("let x" :> 5) @@ ("focus" :> 5) @@ ("paths" :> 5) @@ ("rxpaths" :> 7) @@ ("*p" :> 2) @@ ("aquascope" :> 9)
  @@ ("interpreter" :> 11) @@ ("permissions" :> 11) @@ ("stepper" :> 7) @@ ("foo" :> 3) @@ ("bar" :> 3) @@ ("shouldFail" :> 10)
  @@ ("@Perm" :> 5) @@ ("read" :> 4) @@ ("write" :> 5) @@ ("own" :> 3) @@ ("flow" :> 4) @@ ("nope" :> 4)
  @@ ("lost" :> 4) @@ ("gained" :> 6) @@ ("missing" :> 7) @@ ("odd" :> 3) @@ ("rust" :> 4) @@ ("\r\n" :> 2) @@ ("code" :> 4)

Chars(u) == IF u \in DOMAIN WordLen THEN WordLen[u] ELSE 1
Bytes(u) == IF u \in DOMAIN WordLen THEN WordLen[u]
            ELSE CASE u = "U2" -> 2 [] u \in {"U3", "LS"} -> 3 [] u = "U4" -> 4 [] OTHER -> 1

RECURSIVE CharsOf(_, _)
CharsOf(s, i) == IF i = 0 THEN 0 ELSE Chars(s[i]) + CharsOf(s, i - 1)
RECURSIVE BytesOf(_, _)
BytesOf(s, i) == IF i = 0 THEN 0 ELSE Bytes(s[i]) + BytesOf(s, i - 1)

\* The text s has the units of p at position i.
At(s, i, p) == i + Len(p) - 1 <= Len(s) /\ \A j \in 1..Len(p) : s[i + j - 1] = p[j]
\* The first position from i on (and before position e) that satisfies P, or 0.
First(i, e, P(_)) ==
  LET c == {j \in i..(e - 1) : P(j)} IN IF c = {} THEN 0 ELSE CHOOSE j \in c : \A k \in c : j <= k

Trim(s) ==
  LET c == {j \in 1..Len(s) : s[j] \notin Space} IN
  IF c = {} THEN <<>> ELSE
  LET a == CHOOSE j \in c : \A k \in c : j <= k
      b == CHOOSE j \in c : \A k \in c : j >= k IN SubSeq(s, a, b)

\* The parts of s between units in Sep, and the text of a part.
RECURSIVE Split(_, _)
Split(s, Sep) ==
  LET i == First(1, Len(s) + 1, LAMBDA j : s[j] \in Sep) IN
  IF i = 0 THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o Split(SubSeq(s, i + 1, Len(s)), Sep)
=============================================================================
