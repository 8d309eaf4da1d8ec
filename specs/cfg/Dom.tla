-------------------------------- MODULE Dom ---------------------------------
(* Dominance by paths, and where a source construct begins and ends.

   A body is a graph of blocks of points; control goes straight through a block
   and then to any of the blocks that come next (never along the edges that the
   compiler only pretends for the borrow checker, never into cleanup).

   "Reach" walks from the entry, and backwards from the exits, through all the
   body.  Then a block is chosen and the walk repeated without entering it
   ("Walk"): what is not reached any more lies on paths through that block only.
   So a point p dominates q iff q comes after p in p's block, or q's block is not
   reached when p's block is avoided; the same backwards from the exits for
   post-dominance.  When the walk ends the answers of Aquascope's IRMapper are
   compared with that.                                                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Bodies == ndJsonDeserialize(IOEnv.FACTS)
CONSTANTS GoOn,      \* report mismatches and go on
          Pretended  \* whether control goes along pretended edges (known finding: what the answers take for granted)

VARIABLES
  b,       \* the body
  dir,     \* "fwd" or "bwd"
  phase,   \* "reach", "walk", "over"
  a,       \* the avoided block (0: none)
  all,     \* blocks reached without avoiding any
  seen     \* blocks reached

vars == <<b, dir, phase, a, all, seen>>

Body == Bodies[b]
Block(i) == Body.blocks[i]
N == Len(Body.blocks)
Edges(i) == IF Pretended THEN Block(i).pretended ELSE Block(i).next
Nexts(i) == {j \in {Edges(i)[k] : k \in DOMAIN Edges(i)} : ~Block(j).dead}   \* (a block that the compiler knows not to be reached is not)
Starts == IF dir = "fwd" THEN {1} ELSE {i \in 1..N : Block(i).exit /\ ~Block(i).cleanup}
Onwards(S) == IF dir = "fwd" THEN UNION {Nexts(i) : i \in S} ELSE {i \in 1..N : ~Block(i).cleanup /\ Nexts(i) \cap S # {}}

Init == /\ b \in DOMAIN Bodies /\ dir \in {"fwd", "bwd"} /\ phase = "reach" /\ a = 0 /\ all = {}
        /\ seen = Starts
Reach == /\ phase = "reach"
         /\ LET more == seen \cup Onwards(seen) IN
            IF more # seen THEN seen' = more /\ UNCHANGED <<phase, a, all>>
            ELSE /\ all' = seen
                 /\ \/ /\ phase' = "over" /\ UNCHANGED <<a, seen>>
                    \/ \E x \in seen : /\ phase' = "walk" /\ a' = x
                                       /\ seen' = Starts \ {x}
         /\ UNCHANGED <<b, dir>>
Walk == /\ phase = "walk"
        /\ LET more == seen \cup (Onwards(seen) \ {a}) IN
           IF more # seen THEN seen' = more /\ UNCHANGED phase ELSE phase' = "over" /\ UNCHANGED seen
        /\ UNCHANGED <<b, dir, a, all>>
Next == Reach \/ Walk
Spec == Init /\ [][Next]_vars

Ended == phase = "over" /\ a # 0
----------------------------------------------------------------------------
\* p = <<block, index>> in the avoided block, q any point (of a block in "all"): every path to q (from q to an exit) passes p
Always(p, q) == IF q[1] = a THEN (IF dir = "fwd" THEN p[2] <= q[2] ELSE p[2] >= q[2]) ELSE q[1] \notin seen

Answer == IF dir = "fwd" THEN Body.answers.dom ELSE Body.answers.pdom
Named == IF dir = "fwd" THEN "dominates" ELSE "post-dominates"
Fine(mismatches) == mismatches = {} \/ (PrintT(ToString(<<"MISMATCH", Body.file, Body.name, CHOOSE m \in mismatches : TRUE>>)) /\ GoOn)

Points == Body.points
PointsRight == Ended =>
  Fine({<<Named, Points[i], Points[j]>> : i \in {i \in DOMAIN Points : Points[i][1] = a}, j \in DOMAIN Points}
       \cap {<<Named, Points[i], Points[j]>> : <<i, j>> \in
              {x \in {i \in DOMAIN Points : Points[i][1] = a} \X {j \in DOMAIN Points : Points[j][1] \in all} :
                  Always(Points[x[1]], Points[x[2]]) # (\E k \in DOMAIN Answer[x[1]] : Answer[x[1]][k] = x[2])}})

\* Of blocks: control passes through.
BlockAnswer == IF dir = "fwd" THEN Body.answers.bdom ELSE Body.answers.bpdom
BlocksRight == Ended =>
  Fine({<<Named, "block", a, j>> : j \in
         {j \in all : (j = a \/ j \notin seen) # (\E k \in DOMAIN BlockAnswer[a] : BlockAnswer[a][k] = j)}})

Depths == {"outer", "nested"}
Has(c, d) == Body.answers[d][c]
At(c, d) == {Has(c, d).at[k] : k \in DOMAIN Has(c, d).at}
Edge(c, d) == IF dir = "fwd" THEN Has(c, d).entry ELSE Has(c, d).exit
\* The point reported as entry (exit) of a construct is on every path to (from) each of its points.
EdgesRight == Ended =>
  Fine({<<dir, c, d, Edge(c, d)>> : <<c, d>> \in
         {x \in (DOMAIN Body.own) \X Depths : /\ Edge(x[1], x[2]) # <<>> /\ Edge(x[1], x[2])[1][1] = a
                                              /\ \E q \in At(x[1], x[2]) : q[1] \in all /\ ~Always(Edge(x[1], x[2])[1], q)}})
\* If none is reported then no block of the construct is on all those paths.
NoneRight == Ended =>
  Fine({<<dir, c, d, "none but", a>> : <<c, d>> \in
         {x \in (DOMAIN Body.own) \X Depths : /\ Edge(x[1], x[2]) = <<>> /\ At(x[1], x[2]) # {}
                                              /\ a \in {q[1] : q \in At(x[1], x[2])} /\ \A q \in At(x[1], x[2]) : q[1] \in all
                                              /\ \A q \in At(x[1], x[2]) : q[1] = a \/ q[1] \notin seen}})

\* The points of a construct are its own ones, or those of all that it contains, but for the ones that only stand for a pretended edge.
RECURSIVE Inside(_, _)
Inside(c, d) == c = d \/ (Body.up[c] # 0 /\ Inside(Body.up[c], d))
Counts(p) == ~Block(p[1]).passing /\ ~Block(p[1]).dead
Own(c) == {p \in {Body.own[c][k] : k \in DOMAIN Body.own[c]} : Counts(p)}
SetsRight == (phase = "over" /\ a = 0 /\ dir = "fwd") =>
  Fine({<<c, d>> \in (DOMAIN Body.own) \X Depths :
          At(c, d) # IF d = "outer" THEN Own(c) ELSE UNION {Own(e) : e \in {e \in DOMAIN Body.own : Inside(e, c)}}})

\* Vacuity: what this says about the graph alone.
EntryDominates == Ended /\ dir = "fwd" /\ a = 1 => seen = {}
=============================================================================
