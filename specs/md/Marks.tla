-------------------------------- MODULE Marks --------------------------------
(* The text of an Aquascope block, and what becomes of it: the program that is
   embedded, and where the marks of the text stood.

   The author writes the text token by token ("write"); then it is scanned from
   left to right ("scan").  In a line

     `[..]`   records the position in the program        (interpreter)
     `(..)`   records the line, with its options         (stepper)
     `{..}`   records the line                           (boundaries)

   if the bracket is closed within the line, by the first closing bracket, which
   a backquote follows; anything else stays.  A line that starts with # is hidden
   (the # goes), one that starts with \# is not (the \ goes).

   Each text scanned is printed with what is expected of it, and replayed by
   tools/check_md.py in the real preprocessor.                               *)
EXTENDS Text, Json

CONSTANTS MaxToks,       \* tokens per text
          Tokens,        \* which ones
          Printing      \* print the cases

AllTokens == <<
  <<"`", "[", "]", "`">>, <<"`", "(", "focus", ")", "`">>, <<"`", "(", "paths", ":", "*p", ")", "`">>,
  <<"`", "(", "focus", ",", "rxpaths", ":", "*p", ",", "paths", ":", "let x", ")", "`">>, <<"`", "{", "}", "`">>,
  <<"`", "{", "foo", "}", "`">>, <<"`", "[", "foo", ",", "bar", ":", "U2", "]", "`">>,
  <<"`", "[">>, <<"]", "`">>, <<"`", "(">>, <<")", "`">>, <<"`", "{">>, <<"}", "`">>, <<"]">>, <<"`">>,
  <<"U2">>, <<"U4">>, <<"let x">>, <<" ">>, <<"#">>, <<"\\", "#">>, <<"\\">>, <<"\n">>, <<"\r\n">>, <<"\n", "#">>, <<"\n", "\\", "#">>,
  <<"\t">>, <<"\r">>, <<"LS">>, <<"`", "(", "paths", ":", "foo", ":", ":", "bar", ",", ",", "focus", ":", ")", "`">>,
  <<"`", "(", "rxpaths", ":", "U3", ":", "U4", ",", "rxpaths", ":", "(", "`", "[", ",", "paths", ":", ")", "`">>, <<"`", "(", "paths", ":">>, <<":">>, <<",">>,
  <<"`", "[", "(", "`", "{", "}", "`", "]", "`">>, <<"`", "{", "focus", ",", "paths", ":", "bar", "}", "`">>, <<"#", "#">>, <<"\n", " ", "#">>, <<"\n", "\n">> >>
Short == 1..26
Long == DOMAIN AllTokens

VARIABLES toks,    \* the text as the author wrote it
          phase,   \* "write", "scan", "done"
          text,    \* the text that is scanned
          pos,     \* next unit
          line,    \* line number, from 1
          bol,     \* at the beginning of a line
          out,     \* the program so far
          hid,     \* hidden lines
          log      \* what was taken out of the text: <<kind, units, where in the program, line>>

vars == <<toks, phase, text, pos, line, bol, out, hid, log>>

Init == /\ toks = <<>> /\ phase = "write" /\ text = <<>> /\ pos = 1 /\ line = 1 /\ bol = TRUE
        /\ out = <<>> /\ hid = <<>> /\ log = <<>>

Fence(s) == \E i \in 1..(Len(s) - 2) : s[i] = "`" /\ s[i + 1] = "`" /\ s[i + 2] = "`"

Write == /\ phase = "write" /\ Len(toks) < MaxToks
         /\ \E t \in Tokens : toks' = Append(toks, t)
         /\ UNCHANGED <<phase, text, pos, line, bol, out, hid, log>>

RECURSIVE Ends(_)
Ends(s) == IF Len(s) < 2 THEN s ELSE IF s[1] = "\r" /\ s[2] = Lf THEN <<CrLf>> \o Ends(SubSeq(s, 3, Len(s))) ELSE <<s[1]>> \o Ends(Tail(s))
Whole == Ends(FlattenSeq([i \in DOMAIN toks |-> AllTokens[toks[i]]]))

\* A text with a fence in it is not one block's text.  White space around the text goes.
Finish == /\ phase = "write" /\ toks # <<>> /\ ~Fence(Whole)
          /\ phase' = "scan" /\ text' = Trim(Whole)
          /\ UNCHANGED <<toks, pos, line, bol, out, hid, log>>

----------------------------------------------------------------------------
Scanning == phase = "scan" /\ pos <= Len(text)
Take(kind, n) == log' = Append(log, <<kind, SubSeq(text, pos, pos + n - 1), Len(out), line>>) /\ pos' = pos + n
LineEnd == LET e == First(pos, Len(text) + 1, LAMBDA j : text[j] \in {Lf, CrLf}) IN IF e = 0 THEN Len(text) + 1 ELSE e

Hide == /\ Scanning /\ bol /\ text[pos] = "#"
        /\ hid' = Append(hid, line) /\ Take("hide", 1) /\ bol' = FALSE
        /\ UNCHANGED <<toks, phase, text, line, out>>

Escape == /\ Scanning /\ bol /\ At(text, pos, <<"\\", "#">>)
          /\ log' = Append(log, <<"escape", <<"\\">>, Len(out), line>>) /\ pos' = pos + 2
          /\ out' = Append(out, "#") /\ bol' = FALSE
          /\ UNCHANGED <<toks, phase, text, line, hid>>

\* The bracket that closes a mark which opens at pos, or 0.
Close(o, c) ==
  IF ~At(text, pos, <<"`", o>>) THEN 0 ELSE
  LET e == First(pos + 2, LineEnd, LAMBDA j : text[j] = c) IN
  IF e # 0 /\ e + 1 < LineEnd /\ text[e + 1] = "`" THEN e ELSE 0

Brackets == {<<"interp", "[", "]">>, <<"stepper", "(", ")">>, <<"boundaries", "{", "}">>}
Starts == bol /\ (text[pos] = "#" \/ At(text, pos, <<"\\", "#">>))
IsMark == \E b \in Brackets : Close(b[2], b[3]) # 0

Mark == /\ Scanning /\ ~Starts
        /\ \E b \in Brackets : LET e == Close(b[2], b[3]) IN e # 0 /\ Take(b[1], e + 2 - pos)
        /\ bol' = FALSE /\ UNCHANGED <<toks, phase, text, line, out, hid>>

NewLine == /\ Scanning /\ text[pos] \in {Lf, CrLf}
           /\ out' = Append(out, Lf) /\ line' = line + 1 /\ bol' = TRUE /\ pos' = pos + 1
           /\ UNCHANGED <<toks, phase, text, hid, log>>

Keep == /\ Scanning /\ ~Starts /\ ~IsMark /\ text[pos] \notin {Lf, CrLf}
        /\ out' = Append(out, text[pos]) /\ bol' = FALSE /\ pos' = pos + 1
        /\ UNCHANGED <<toks, phase, text, line, hid, log>>

Done == /\ phase = "scan" /\ pos > Len(text) /\ phase' = "done"
        /\ UNCHANGED <<toks, text, pos, line, bol, out, hid, log>>

Next == Write \/ Finish \/ Hide \/ Escape \/ Mark \/ NewLine \/ Keep \/ Done
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* Design: nothing is lost.  Putting back what was taken out, where it was taken
   out, gives the text again; and the program has no more marks than unclosed ones. *)

RECURSIVE PutBack(_, _)
PutBack(i, l) ==    \* the units l was taken from, up to program position i
  IF l = <<>> THEN SubSeq(out, i + 1, Len(out))
  ELSE SubSeq(out, i + 1, Head(l)[3]) \o Head(l)[2] \o PutBack(Head(l)[3], Tail(l))
Norm(s) == [i \in DOMAIN s |-> IF s[i] = CrLf THEN Lf ELSE s[i]]

NothingLost == phase = "done" => PutBack(0, log) = Norm(text)
SameLines == phase = "done" => Len(SelectSeq(out, LAMBDA u : u = Lf)) = Len(SelectSeq(text, LAMBDA u : u \in {Lf, CrLf}))
InOrder == \A i \in 1..(Len(log) - 1) : log[i][3] <= log[i + 1][3] /\ log[i][4] <= log[i + 1][4]
\* No line of the program is a hidden line's marker, unless it was escaped or doubled.
MarksInsideLines == \A i \in DOMAIN log : \A j \in DOMAIN log[i][2] : log[i][2][j] \notin {Lf, CrLf}

----------------------------------------------------------------------------
(* What is expected: the options of a mark are separated by commas, the last value counts. *)

Interior(e) == SubSeq(e[2], 3, Len(e[2]) - 2)
Options(e) == [i \in DOMAIN Split(Interior(e), {","}) |->
  LET o == Split(Interior(e), {","})[i]
      c == First(1, Len(o) + 1, LAMBDA j : o[j] = ":") IN
  IF c = 0 THEN <<o, <<>>>> ELSE <<SubSeq(o, 1, c - 1), SubSeq(o, c + 1, Len(o))>>]
Has(e, k) == \E i \in DOMAIN Options(e) : Options(e)[i][1] = <<k>>
Value(e, k) == LET is == {i \in DOMAIN Options(e) : Options(e)[i][1] = <<k>>}
                   i == CHOOSE x \in is : \A y \in is : y <= x IN Options(e)[i][2]
Of(kind) == SelectSeq(log, LAMBDA e : e[1] = kind)
Case == [
  text |-> Whole, code |-> out, hidden |-> hid,
  interp |-> [i \in DOMAIN Of("interp") |-> CharsOf(out, Of("interp")[i][3])],
  focus |-> [i \in DOMAIN SelectSeq(Of("stepper"), LAMBDA e : Has(e, "focus")) |-> SelectSeq(Of("stepper"), LAMBDA e : Has(e, "focus"))[i][4]],
  paths |-> FlattenSeq([i \in DOMAIN Of("stepper") |-> LET e == Of("stepper")[i] IN
      (IF Has(e, "paths") THEN <<[l |-> e[4], t |-> "Literal", v |-> Value(e, "paths")]>> ELSE <<>>) \o
      (IF Has(e, "rxpaths") THEN <<[l |-> e[4], t |-> "Regex", v |-> Value(e, "rxpaths")]>> ELSE <<>>)]),
  bounds |-> [i \in DOMAIN Of("boundaries") |-> Of("boundaries")[i][4]] ]

Emit == (Printing /\ phase = "done") => PrintT("CASE " \o ToJson(Case))
=============================================================================
