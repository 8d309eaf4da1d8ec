-------------------------------- MODULE Steps --------------------------------
(* The permission steps of a function, told on the events of Ownership.tla.

   F.steps are the rows of the tables Aquascope reported: [l |-> line, v, pr |-> place,
   b |-> permissions before, a |-> permissions after, lb, la |-> whether it is in use
   before and after].  F.places are the places there are: [v, pr].  F.all: whether places
   were asked for that do not change.

   A step goes from a point to a later one.  A point is an event, taken on entry,
   or an edge of the graph of events: the state that control brings along from an
   event to the next one.                                                     *)
EXTENDS Ownership

CONSTANT About      \* the kinds of lines looked at

\* The permissions of a place given facts and variables that are going to be used.
LoansOn(s, L, v, pr) == {l \in {x[3] : x \in {y \in s : y[1] = "t" \/ (y[1] = "h" /\ y[2] \in L)}} : Overlap(v, pr, Loan(l).v, Loan(l).pr)}
ReadableIn(s, L, v, pr) ==
  /\ ~ \E x \in s : x[1] = "g" /\ Overlap(v, pr, x[2], x[3])
  /\ ~ \E l \in LoansOn(s, L, v, pr) : Loan(l).m /\ (Loan(l).tp => <<"a", l>> \in s)
State(s, L, v, pr) ==
  IF v \notin L \/ ~ReadableIn(s, L, v, pr) THEN {}
  ELSE LET free == LoansOn(s, L, v, pr) = {} IN Letters(TRUE, Mutable(v, pr) /\ free, Movable(v, pr) /\ free)

\* Points: <<>> (before the function), <<event>>, <<event, next event>>, <<0, event>> (coming to it from before, not around a loop).
Facts(x) == CASE Len(x) = 0 -> {} [] Len(x) = 1 -> in[x[1]]
              [] x[1] = 0 -> UNION {Out(m, in[m]) : m \in {m \in seen : m < x[2] /\ x[2] \in code[m].succ}}
              [] OTHER -> Out(x[1], in[x[1]])
Used(x) == CASE Len(x) = 0 -> {} [] OTHER -> IF x[Len(x)] \in Events THEN live[x[Len(x)]] ELSE {}
At_(x, p) == State(Facts(x), Used(x), p.v, p.pr)
InUse(x, p) == p.v \in Used(x)

FirstOf(i) == CHOOSE n \in Events : code[n].line = i /\ \A m \in Events : code[m].line = i => n <= m
LastOf(i) == CHOOSE n \in Events : code[n].line = i /\ \A m \in Events : code[m].line = i => n >= m
Line(i) == F.lines[i]
\* The event that chooses, of the branch that begins at line i; and where it may go.
Chooses(i) == LastOf(i)
\* Where the step on a line begins: what comes before does not count if it has no step of its own.
RECURSIVE Comes(_)
Comes(i) == IF i > 1 /\ (Line(i - 1).k = "loop" \/ (Line(i - 1).k = "let" /\ Line(i - 1).e.k = "none"))
            THEN Comes(i - 1) ELSE <<0, FirstOf(i)>>
Inside(i) == <<Chooses(i), Chooses(i) + 1>>
Otherwise(i) == <<Chooses(i), CHOOSE m \in code[Chooses(i)].succ : m # Chooses(i) + 1>>

\* The steps on a line.
IfOf(j) == CHOOSE i \in DOMAIN F.lines : Line(i).k = "if" /\ Line(i).els = j
Opens(j) == {i \in DOMAIN F.lines : Line(i).k \in {"if", "while"} /\ Line(i).end = j}
\* A branch begins with its condition, or after it (early: whether its condition counts as part of the branch).
\* ... and ends within the branch, or at the loop that this begins with (joined).
Segments(i, early, joined) ==
  LET l == Line(i)
      to(x) == IF joined /\ Line(code[x[2]].line).k \in {"while", "loop"} THEN <<x[2]>> ELSE x
      start(o) == LET x == Comes(o) n == code[x[2]].line IN
                  IF joined /\ n > 1 /\ Line(n).k \in {"while", "loop"} /\ Line(n - 1).k \in {"if", "else", "while"} THEN <<x[2]>> ELSE x
      from(o) == IF early THEN start(o) ELSE <<Chooses(o)>>
  IN
  CASE l.k = "let" /\ l.e.k = "none" -> <<>>
    [] l.k \in {"let", "set", "op", "ex"} -> <<<<start(i), <<LastOf(i), LastOf(i) + 1>>>>>>
    [] l.k \in {"if", "while"} -> (IF early THEN <<>> ELSE <<<<start(i), <<Chooses(i)>>>>>>) \o <<<<from(i), to(Inside(i))>>>>
    [] l.k = "else" -> <<<<from(IfOf(i)), to(Otherwise(IfOf(i)))>>>>
    [] l.k = "end" -> IF \E o \in Opens(i) : Line(o).k = "while" \/ Line(o).els = 0
                      THEN LET o == CHOOSE o \in Opens(i) : TRUE IN <<<<from(o), to(Otherwise(o))>>>>
                      ELSE <<>>
    [] OTHER -> <<>>

\* The value that a function ends with may be taken to be shown as it is before its last event or after it.
ValueOf(i) == CHOOSE n \in Events : code[n].line = i /\ n + 2 = LastOf(i)
Alternatives(i) ==
  IF Line(i).k # "ret" THEN {Segments(i, early, joined) : <<early, joined>> \in BOOLEAN \X BOOLEAN}
  ELSE IF Line(i).e.k \in {"use", "call", "ref"} THEN {<<<<Comes(i), <<ValueOf(i)>>>>>>, <<<<Comes(i), <<ValueOf(i) + 1>>>>>>}
  ELSE {<<>>}

\* What a row says: permissions before and after, in use before and after.
Change(s, p) == <<At_(s[1], p), At_(s[2], p), InUse(s[1], p), InUse(s[2], p)>>
Kept(c) == IF F.all THEN c[3] \/ c[4] ELSE c[1] # c[2]
Changes(segs, p) == SelectSeq([k \in DOMAIN segs |-> Change(segs[k], p)], Kept)
Cancel(c, d) == \A x \in {"R", "W", "O"} :
  \/ (x \in c[1]) = (x \in c[2]) /\ (x \in d[1]) = (x \in d[2])
  \/ (x \in c[1]) # (x \in c[2]) /\ (x \in d[1]) # (x \in d[2]) /\ (x \in c[1]) # (x \in d[1])
WantedIf(segs, p) == LET c == Changes(segs, p) IN
  CASE Len(c) = 0 -> {} [] Len(c) = 1 -> {c[1]} [] OTHER -> IF Cancel(c[1], c[2]) THEN {} ELSE {c[1], c[2]}
\* What a row may say; whether there has to be one.
Wanted(i, p) == UNION {WantedIf(segs, p) : segs \in Alternatives(i)}
Needed(i, p) == \A segs \in Alternatives(i) : WantedIf(segs, p) # {}

(* When all places are asked for, several tables of a branch can fall on the same line,
   and what does not change can take the place of what does, or be left out.     *)
Branching(i) == Line(i).k \notin {"let", "set", "op", "ex", "ret"}
Unchanged(i, r) ==
  /\ F.all /\ Branching(i) /\ r.b = r.a /\ r.lb /\ r.la
  /\ \E n \in seen, o \in DOMAIN F.lines :
       /\ o <= i /\ Line(o).k \in {"if", "while", "loop"} /\ Line(o).end >= i
       /\ code[n].line \in o..i
       /\ \E x \in {<<n>>} \cup {<<n, m>> : m \in code[n].succ} : InUse(x, r) /\ At_(x, r) = Range(r.b)

Rows(i) == {j \in DOMAIN F.steps : F.steps[j].l = Line(i).line}
Reached(i) == \E n \in seen : code[n].line = i
Clear(v) == ~ \E n \in Events : <<"?", v>> \in in[n]
\* Of lines after the first error nothing is told; of its own line something may be.
Before(l) == F.cut.l = 0 \/ l < F.cut.l
After(l)  == F.cut.l # 0 /\ l > F.cut.l

(* Known finding: from a branch that is left early on (by a break that is not the loop's
   own, continue or return) rows can be missing, or start elsewhere.                  *)
Openers == {o \in DOMAIN F.lines : Line(o).k \in {"if", "while", "loop"}}
Contains(o, j) == o < j /\ j < Line(o).end
Innermost(j) == {o \in Openers : Contains(o, j) /\ \A q \in Openers : Contains(q, j) => q <= o}
Leaves(j) == /\ Line(j).k \in {"brk", "cont", "ret"} /\ j < Len(F.lines)
             /\ ~(Line(j).k = "brk" /\ \A o \in Innermost(j) : Line(o).k # "if")
LeftEarly(i) == \E j \in DOMAIN F.lines : Leaves(j) /\ \E o \in Innermost(j) : o <= i
(* Known finding: with a loop that is never left, steps can end elsewhere, as no point of
   it comes before the end of the function.                                          *)
RECURSIVE Ends(_)
Ends(S) == LET more == S \cup {n \in Events : code[n].succ \cap S # {}} IN IF more = S THEN S ELSE Ends(more)
Endless == seen \ Ends({n \in Events : code[n].succ = {}}) # {}
CheckAt(i, what, x, ok) ==
  \/ ok
  \/ LeftEarly(i) /\ PrintT(ToString(<<"KNOWN", "step-early-exit", F.file, F.name, what, x>>))
  \/ Endless /\ PrintT(ToString(<<"KNOWN", "step-endless-loop", F.file, F.name, what, x>>))
  \/ Show(what, x) /\ GoOn

RowsRight == Looking =>
  \A i \in {i \in DOMAIN F.lines : Line(i).k \in About /\ Reached(i)} :
    \A j \in Rows(i) : LET r == F.steps[j] IN
       Clear(r.v) => CheckAt(i, "row", <<Line(i).k, r, Wanted(i, r)>>, Unchanged(i, r) \/ <<Range(r.b), Range(r.a), r.lb, r.la>> \in Wanted(i, r))
RowsComplete == Looking =>
  \A i \in {i \in DOMAIN F.lines : Line(i).k \in About /\ Reached(i) /\ Before(Line(i).line)} :
    \A p \in Range(F.places) : (Clear(p.v) /\ Needed(i, p) /\ ~(F.all /\ Branching(i))) =>
       CheckAt(i, "no row", <<Line(i).k, Line(i).line, p, Wanted(i, p)>>, \E j \in Rows(i) : F.steps[j].v = p.v /\ F.steps[j].pr = p.pr)
OneRow == Looking =>
  \A j, k \in DOMAIN F.steps : j < k => Check("twice", F.steps[k], F.steps[j].l # F.steps[k].l \/ F.steps[j].v # F.steps[k].v \/ F.steps[j].pr # F.steps[k].pr)
\* What is reported elsewhere: the parameters, where the body begins; nothing after an error.
Entry == Looking =>
  /\ \A j \in DOMAIN F.steps : Check("elsewhere", F.steps[j], F.steps[j].l \in {F.first} \cup {Line(i).line : i \in DOMAIN F.lines})
  /\ \A j \in DOMAIN F.steps : Check("after the first error", F.steps[j], ~After(F.steps[j].l))
  /\ \A p \in Range(F.places) :
       LET s == At_(<<0, 1>>, p) u == InUse(<<0, 1>>, p) rs == {j \in DOMAIN F.steps : F.steps[j].l = F.first /\ F.steps[j].v = p.v /\ F.steps[j].pr = p.pr} IN
       Check("entry", <<p, s>>,
         /\ \A j \in rs : LET r == F.steps[j] IN u /\ Range(r.b) = {} /\ Range(r.a) = s /\ ~r.lb /\ r.la
         /\ (IF F.all THEN u ELSE s # {}) /\ Before(F.first) => rs # {}
         /\ (~F.all /\ s = {}) => rs = {})
==============================================================================
