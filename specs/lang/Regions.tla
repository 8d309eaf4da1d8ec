------------------------------- MODULE Regions -------------------------------
(* Where the loans and moves of a function are, told on the events of Ownership.tla.

   F.loans and F.moves are the entries Aquascope reported: [k |-> key, p |-> <<>> or
   <<the range where it happens>>, r |-> <<>> or <<the ranges where it is in force>>];
   F.blames what each boundary blames, F.bloans and F.bmoves all that is blamed;
   F.spans the range of the text of each use or borrow.                         *)
EXTENDS Ownership

Pos(l, c) == 1000 * l + c
Start(g) == Pos(g.l, g.c)
End(g)   == Pos(g.el, g.ec)
Within(x, g) == Start(g) <= x /\ x < End(g)

Told(e) == e.p # <<>> /\ e.r # <<>>
Ranges(e) == e.r[1]
Covers(e, x) == \E i \in DOMAIN Ranges(e) : Within(x, Ranges(e)[i])

\* Every loan and move that is blamed has its point and its region.
HasEntry(es, k) == \E i \in DOMAIN es : es[i].k = k /\ Told(es[i])
Closed == Looking =>
  /\ \A j \in DOMAIN F.bloans : Check("loan without entry", F.bloans[j], HasEntry(F.loans, F.bloans[j]))
  /\ \A j \in DOMAIN F.bmoves : Check("move without entry", F.bmoves[j], HasEntry(F.moves, F.bmoves[j]))
  /\ \A i \in DOMAIN F.loans : Check("half an entry", F.loans[i], Told(F.loans[i]))
  /\ \A i \in DOMAIN F.moves : Check("region without a point", F.moves[i], F.moves[i].p # <<>>)

\* Ranges lie in the body, in order, apart, and do not begin before the loan or move.
WellFormed(e) ==
  /\ \A i \in DOMAIN e.p : Start(F.body) <= Start(e.p[i]) /\ Start(e.p[i]) < End(e.p[i]) /\ End(e.p[i]) <= End(F.body)
  /\ Told(e) => LET r == Ranges(e) IN
       /\ \A i \in DOMAIN r : Start(r[i]) <= End(r[i]) /\ Start(F.body) <= Start(r[i]) /\ End(r[i]) <= End(F.body)
       /\ \A i \in DOMAIN r : Start(e.p[1]) <= Start(r[i])
       /\ \A i \in 1..(Len(r) - 1) : End(r[i]) < Start(r[i + 1])
InOrder == Looking => \A es \in {F.loans, F.moves} : \A i \in DOMAIN es : Check("ranges", es[i], WellFormed(es[i]))

Clear == ~ \E n \in Events, v \in Vars : <<"?", v>> \in in[n]
Span(n) == F.spans[code[n].id]
Placed(n) == code[n].id # 0 /\ Span(n).l # 0
Here(n) == Start(Span(n))
Spot(n) == IF Placed(n) THEN Here(n) ELSE Start(At(n))

\* The entries of the borrow or move made at an event.
EntriesOf(es, n) == {i \in DOMAIN es : es[i].p # <<>> /\ Start(es[i].p[1]) = Here(n) /\ End(es[i].p[1]) = End(Span(n))}
Borrows == {n \in seen : code[n].k = "ref" /\ ~ThroughShared(code[n].pr)}
Moving(n) == code[n].k = "use" /\ ~code[n].cp /\ Movable(code[n].v, code[n].pr)
Moves == {n \in seen : Moving(n)}
InForceL(n) == {x[3] : x \in {y \in in[n] : y[1] = "t" \/ (y[1] = "h" /\ y[2] \in live[n])}}
InForceM(n) == {x[4] : x \in {y \in in[n] : y[1] = "g"}}

\* Each borrow and move has one, whose ranges begin with it.
LoansTold == Looking =>
  \A n \in Borrows : Check("borrow", <<Span(n), F.loans>>, \E i \in EntriesOf(F.loans, n) : Covers(F.loans[i], Here(n)))
MovesTold == Looking =>
  \A n \in Moves : Check("move", <<Span(n), [i \in DOMAIN F.moves |-> F.moves[i].p]>>, EntriesOf(F.moves, n) # {})

\* The lines that the text of a statement with a point on line i takes.
Opener(i) == IF F.lines[i].k \in {"if", "while", "loop"} THEN {i} ELSE
             IF F.lines[i].k \in {"else", "end"} THEN {o \in DOMAIN F.lines : F.lines[o].k \in {"if", "while", "loop"} /\ (F.lines[o].end = i \/ (F.lines[o].k = "if" /\ F.lines[o].els = i))} ELSE {}
Extent(i) == IF Opener(i) = {} THEN {F.lines[i].line} ELSE UNION {F.lines[o].line..F.lines[F.lines[o].end].line : o \in Opener(i)}
LinesWith(S) == UNION {Extent(code[n].line) : n \in S}
Touches(g) == g.l..g.el

\* Lines where a borrow or move is in force.
LoanLines(l) == LinesWith({l} \cup {n \in seen : l \in InForceL(n)} \cup UNION {code[n].succ : n \in {n \in seen : l \in InForceL(n)}})
MoveLines(m) == LinesWith({m} \cup {n \in seen : m \in InForceM(n)} \cup UNION {code[n].succ : n \in {n \in seen : m \in InForceM(n)}})

\* The right entry of a borrow: its ranges cover what is used while it is in force, and lie only on such lines.
LoanUses(l) == {n \in UseEvents : l \in InForceL(n) /\ Spot(n) > Here(l)}
LoanRight(l, e) ==
  /\ \A n \in LoanUses(l) : Covers(e, Spot(n))
  /\ \A j \in DOMAIN Ranges(e) : Touches(Ranges(e)[j]) \subseteq LoanLines(l)
LoansRight == Looking /\ Clear =>
  \A l \in Borrows : Check("loan", <<Span(l), [i \in EntriesOf(F.loans, l) |-> F.loans[i].r], {At(n) : n \in LoanUses(l)}, LoanLines(l)>>,
    \E i \in EntriesOf(F.loans, l) : LoanRight(l, F.loans[i]))

\* The same for a move; it need not cover what another one of a place that overlaps accounts for.
Alone(n, m) == LET x == CHOOSE y \in in[n] : y[1] = "g" /\ y[4] = m IN \A y \in in[n] : y[1] = "g" /\ Overlap(x[2], x[3], y[2], y[3]) => y = x
MoveUses(m) == {n \in UseEvents : m \in InForceM(n) /\ Alone(n, m) /\ Spot(n) > Here(m)}
MoveRight(m, e) ==
  /\ e.r = <<>> => MoveUses(m) = {}
  /\ e.r # <<>> => /\ \A n \in MoveUses(m) : Covers(e, Spot(n))
                  /\ \A j \in DOMAIN Ranges(e) : Touches(Ranges(e)[j]) \subseteq MoveLines(m)
MovesRight == Looking /\ Clear =>
  \A m \in Moves : Check("move", <<Span(m), [i \in EntriesOf(F.moves, m) |-> F.moves[i].r], {At(n) : n \in MoveUses(m)}, MoveLines(m)>>,
    \E i \in EntriesOf(F.moves, m) : MoveRight(m, F.moves[i]))

\* What a boundary blames is in force there, on a place that overlaps the one that is used.
Blame == Looking /\ Clear =>
  \A n \in UseEvents : \A b \in {b \in Range(F.blames) : b.l = At(n).l /\ b.c = At(n).c} :
    /\ \A k \in Range(b.loans) : Check("blamed loan", <<At(n), k, F.loans>>,
         \E l \in On(n, code[n].v, code[n].pr) \cap Borrows : \E i \in EntriesOf(F.loans, l) : F.loans[i].k = k /\ LoanRight(l, F.loans[i]))
    /\ \A k \in Range(b.moves) : Check("blamed move", <<At(n), k>>,
         \E x \in {y \in Gone(n, code[n].v, code[n].pr) : y[4] \in Moves} : \E i \in EntriesOf(F.moves, x[4]) : F.moves[i].k = k /\ MoveRight(x[4], F.moves[i]))
==============================================================================
