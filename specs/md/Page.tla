-------------------------------- MODULE Page --------------------------------
(* A page of a book, and what is replaced in it.

   The author writes it token by token; then it is scanned from left to right:

     ```aquascope,OP+OP..,SETTING,SETTING=VALUE..   (to the end of the line)
     .. ```                                          is a block, up to the first fence

     @Perm{PERM} or @Perm[VARIANT]{PERM}             outside blocks, is a mark

   Anything else stays.  A mark with an unknown permission or variant makes the
   page fail.  Each page is printed with what is expected of it, and replayed by
   tools/check_md.py in the real preprocessor.                               *)
EXTENDS Text, Json

CONSTANTS MaxToks, Printing, Tokens

AllTokens == <<
  <<"`", "`", "`", "aquascope", ",">>, <<"interpreter">>, <<"permissions">>, <<"+">>, <<",">>, <<"=">>,
  <<"stepper">>, <<"foo">>, <<"shouldFail">>, <<"\n">>, <<"\r\n">>, <<"\n", "`", "`", "`">>, <<"`", "`", "`">>, <<"code">>, <<"U2">>, <<"U3">>,
  <<"@Perm", "{", "read", "}">>, <<"@Perm", "[", "lost", "]", "{", "write", "}">>, <<"@Perm", "{">>, <<"}">>, <<"@Perm", "[">>, <<"]", "{", "own", "}">>,
  <<"@Perm", "[", "gained", "]", "{", "flow", "}">>, <<"@Perm", "[", "missing", "]", "{", "own", "}">>,
  <<"@Perm", "{", "nope", "}">>, <<"@Perm", "[", "odd", "]", "{", "flow", "}">>, <<"`", "`", "`", "rust", "\n">>,
  <<"`", "`", "`", "aquascope">>, <<" ">>, <<"`">>, <<"@Perm", "[", "]", "{", "read", "}">>, <<"@Perm">>,
  <<"@Perm", "{", "read", "odd", "}">>, <<"@Perm", "{", " ", "own", "}">>, <<"@Perm", "[", "odd", "lost", "]", "{", "read", "}">>, <<"@Perm", "[", "missing", " ", "]", "{", "read", "}">>,
  <<"@Perm", "[", "lost", "{", "]", "{", "flow", "}">>, <<"@Perm", "{", "}">>, <<"@Perm", "{", "write", "\n", "}">>,
  \* Whole blocks, so that pages with several are common.
  <<"`", "`", "`", "aquascope", ",", "interpreter", "\n", "code", "\n", "`", "`", "`">>,
  <<"`", "`", "`", "aquascope", ",", "permissions", "+", "interpreter", ",", "foo", "=", "bar", ",", "stepper", "\r\n", "code", "\r\n", "U3", " ", "code", "`", "`", "`">>,
  <<"`", "`", "`", "aquascope", ",", "permissions", "\n", "code", "@Perm", "{", "read", "}", "\n", "`", "`", "`">>,
  <<"`", "`", "`", "aquascope", ",", "permissions", "\n", "@Perm", "{", "nope", "}", "`", "`", "`">> >>
Short == 1..36
Long == DOMAIN AllTokens

VARIABLES toks, phase, page, pos, found, failed
vars == <<toks, phase, page, pos, found, failed>>

Init == toks = <<>> /\ phase = "write" /\ page = <<>> /\ pos = 1 /\ found = <<>> /\ failed = FALSE

Write == /\ phase = "write" /\ Len(toks) < MaxToks
         /\ \E t \in Tokens : toks' = Append(toks, t)
         /\ UNCHANGED <<phase, page, pos, found, failed>>
Finish == /\ phase = "write" /\ toks # <<>> /\ phase' = "scan"
          /\ page' = FlattenSeq([i \in DOMAIN toks |-> AllTokens[toks[i]]])
          /\ UNCHANGED <<toks, pos, found, failed>>

----------------------------------------------------------------------------
Fence == <<"`", "`", "`">>
Open == <<"`", "`", "`", "aquascope", ",">>
Eol == {Lf, CrLf}

NoBlock == [e |-> 0]
\* The block that starts at i; its e is 0 if there is none.
BlockAt(i) ==
  IF ~At(page, i, Open) THEN NoBlock ELSE
  LET eol == First(i + 5, Len(page) + 1, LAMBDA j : page[j] \in Eol) IN
  IF eol = 0 THEN NoBlock ELSE
  LET parts == Split(SubSeq(page, i + 5, eol - 1), {","})
      ops == Split(parts[1], {"+"})
      settings == Tail(parts)
      eqs(s) == Len(SelectSeq(s, LAMBDA u : u = "="))
      fence == First(eol + 1, Len(page) + 1, LAMBDA j : At(page, j, Fence)) IN
  IF \/ "=" \in ToSet(parts[1]) \/ \E k \in DOMAIN settings : eqs(settings[k]) > 1 \/ "+" \in ToSet(settings[k])
     \/ fence = 0
  THEN NoBlock
  ELSE [ e |-> fence + 3, ops |-> ops,
         config |-> [k \in DOMAIN settings |-> LET kv == Split(settings[k], {"="}) IN IF Len(kv) = 1 THEN <<kv[1], <<"true">>>> ELSE kv],
         code |-> [j \in DOMAIN Trim(SubSeq(page, eol + 1, fence - 1)) |->
                    IF Trim(SubSeq(page, eol + 1, fence - 1))[j] = CrLf THEN Lf ELSE Trim(SubSeq(page, eol + 1, fence - 1))[j]] ]

\* Where the text outside blocks that i lies in ends.
GapEnd(i) == LET b == First(i, Len(page) + 1, LAMBDA j : BlockAt(j).e # 0) IN IF b = 0 THEN Len(page) + 1 ELSE b

NoMark == [e |-> 0]
MarkAt(i) ==
  IF page[i] # "@Perm" \/ i = Len(page) THEN NoMark ELSE
  LET end == GapEnd(i)
      c == IF page[i + 1] = "[" THEN First(i + 2, end, LAMBDA j : page[j] = "]") ELSE i
      o == c + 1
      e == IF o >= end THEN 0 ELSE IF page[o] # "{" THEN 0 ELSE First(o + 1, end, LAMBDA j : page[j] = "}") IN
  IF c = 0 \/ i + 1 >= end \/ e = 0 THEN NoMark
  ELSE [e |-> e + 1, perm |-> SubSeq(page, o + 1, e - 1), opt |-> IF c = i THEN <<"none">> ELSE SubSeq(page, i + 2, c - 1)]

Valid(m) == m.perm \in {<<"read">>, <<"write">>, <<"own">>, <<"flow">>} /\ m.opt \in {<<"none">>, <<"gained">>, <<"lost">>, <<"missing">>}

Scanning == phase = "scan" /\ pos <= Len(page)

Block == /\ Scanning
         /\ LET b == BlockAt(pos) IN
            /\ b.e # 0
            /\ found' = Append(found, [kind |-> "block", s |-> pos, e |-> b.e, ops |-> b.ops, config |-> b.config, code |-> b.code, perm |-> <<>>, opt |-> <<>>])
            /\ pos' = b.e
         /\ UNCHANGED <<toks, phase, page, failed>>

Mark == /\ Scanning /\ BlockAt(pos).e = 0
        /\ LET m == MarkAt(pos) IN
           /\ m.e # 0 /\ Valid(m)
           /\ found' = Append(found, [kind |-> "perm", s |-> pos, e |-> m.e, ops |-> <<>>, config |-> <<>>, code |-> <<>>, perm |-> m.perm, opt |-> m.opt])
           /\ pos' = m.e
        /\ UNCHANGED <<toks, phase, page, failed>>

BadMark == /\ Scanning /\ BlockAt(pos).e = 0
           /\ LET m == MarkAt(pos) IN m.e # 0 /\ ~Valid(m)
           /\ failed' = TRUE /\ phase' = "done"
           /\ UNCHANGED <<toks, page, pos, found>>

Keep == /\ Scanning /\ BlockAt(pos).e = 0 /\ MarkAt(pos).e = 0 /\ pos' = pos + 1
        /\ UNCHANGED <<toks, phase, page, found, failed>>

Done == phase = "scan" /\ pos > Len(page) /\ phase' = "done" /\ UNCHANGED <<toks, page, pos, found, failed>>

Next == Write \/ Finish \/ Block \/ Mark \/ BadMark \/ Keep \/ Done
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* Replacements lie on the page, in order, and do not overlap.
Disjoint == \A i \in DOMAIN found : /\ 1 <= found[i].s /\ found[i].s < found[i].e /\ found[i].e <= Len(page) + 1
                                    /\ (i > 1 => found[i - 1].e <= found[i].s)
\* Every fence that opens a block, outside the blocks found, lacks its line's end, its shape, or its closing fence.
NoneMissed == (phase = "done" /\ ~failed) =>
  \A i \in 1..Len(page) : BlockAt(i).e # 0 => \E k \in DOMAIN found : found[k].kind = "block" /\ found[k].s <= i /\ i < found[k].e
MarksOutside == \A i, k \in DOMAIN found : found[i].kind = "perm" /\ found[k].kind = "block" => ~(found[k].s <= found[i].s /\ found[i].s < found[k].e)

Case == [text |-> page, failed |-> failed,
         found |-> [i \in DOMAIN found |-> [kind |-> found[i].kind, s |-> BytesOf(page, found[i].s - 1), e |-> BytesOf(page, found[i].e - 1),
           ops |-> found[i].ops, config |-> found[i].config, code |-> found[i].code, perm |-> found[i].perm, opt |-> found[i].opt]]]
Emit == (Printing /\ phase = "done") => PrintT("CASE " \o ToJson(Case))
=============================================================================
