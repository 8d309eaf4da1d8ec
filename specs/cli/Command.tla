------------------------------ MODULE Command -------------------------------
(* The permissions command on a program.

   A program is a sequence of items; an item has bodies (functions and closures).
   The command visits all bodies, in an order of its own, and prints a result for
   each.  To analyse a body the compiler may need others to be checked first (the
   one whose hidden return type it uses, say).  A body is checked once: what the
   compiler has to say about it is said then, during whichever visit that is.  A
   result is cut off at the first error of its own body.

   With Attribution = "slot" errors count for the body being visited, forgotten
   afterwards (as Aquascope did it); with "owner" they count for the body they
   are about.  CommandModel checks that only the latter makes results independent of the
   rest of the program.  The programs and options are printed, and run with the
   real command (tools/check_cmd.py).                                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Items,        \* name -> [bodies |-> number, needs |-> items that have to be there, not |-> items that must not,
                        \*          force |-> items whose bodies have to be checked to check this one's, errs |-> has errors]
          MinItems, MaxItems, Attribution, Printing

VARIABLES
  prog,      \* the program
  opts,      \* [flows, all]
  phase,     \* "compose", "run", "over"
  left,      \* bodies <<item, i>> not visited yet
  checked,   \* bodies checked
  said,      \* errors on record: bodies
  out        \* the results: <<body, cut>>

vars == <<prog, opts, phase, left, checked, said, out>>
Opts == [flows : BOOLEAN, all : BOOLEAN]
In(x) == \E i \in DOMAIN prog : prog[i] = x
BodiesOf(x) == {<<x, i>> : i \in 1..Items[x].bodies}
Errs(b) == Items[b[1]].errs /\ b[2] = 1     \* the first body of an item that has errors is the one

Init == prog = <<>> /\ opts \in Opts /\ phase = "compose" /\ left = {} /\ checked = {} /\ said = {} /\ out = <<>>

Add == /\ phase = "compose" /\ Len(prog) < MaxItems
       /\ \E x \in DOMAIN Items : /\ ~In(x) /\ \A y \in Items[x].not : ~In(y)
                                  /\ \A i \in DOMAIN prog : x \notin Items[prog[i]].not
                                  /\ prog' = Append(prog, x)
       /\ UNCHANGED <<opts, phase, left, checked, said, out>>
Complete == \A i \in DOMAIN prog : \A y \in Items[prog[i]].needs : \E z \in y : In(z)
Start == /\ phase = "compose" /\ Len(prog) >= MinItems /\ Complete /\ phase' = "run"
         /\ left' = UNION {BodiesOf(prog[i]) : i \in DOMAIN prog}
         /\ UNCHANGED <<prog, opts, checked, said, out>>

RECURSIVE Forced(_)
Forced(S) == LET more == S \cup UNION {UNION {BodiesOf(y) : y \in {y \in Items[b[1]].force : In(y)}} : b \in S}
             IN IF more = S THEN S ELSE Forced(more)
Visit == /\ phase = "run" /\ left # {}
         /\ \E b \in left :
              LET new == Forced({b}) \ checked
                  record == (IF Attribution = "slot" THEN {} ELSE said) \cup {e \in new : Errs(e)}
              IN /\ checked' = checked \cup new /\ said' = record
                 /\ out' = Append(out, <<b, IF Attribution = "slot" THEN record # {} ELSE b \in record>>)
                 /\ left' = left \ {b}
         /\ UNCHANGED <<prog, opts, phase>>
Stop == phase = "run" /\ left = {} /\ phase' = "over" /\ UNCHANGED <<prog, opts, left, checked, said, out>>
Next == Add \/ Start \/ Visit \/ Stop
Spec == Init /\ [][Next]_vars

\* One result per body, cut off if and only if the body itself has errors.
OnePerBody == phase = "over" =>
  /\ Len(out) = Cardinality({out[i][1] : i \in DOMAIN out})
  /\ {out[i][1] : i \in DOMAIN out} = UNION {BodiesOf(prog[i]) : i \in DOMAIN prog}
Faithful == \A i \in DOMAIN out : out[i][2] = Errs(out[i][1])

Emit == (Printing /\ phase = "run" /\ out = <<>>) => PrintT("CASE " \o ToJson([text |-> <<prog, opts>>]))
=============================================================================
