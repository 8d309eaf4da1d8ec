------------------------------ MODULE Ownership ------------------------------
(* The ownership rules, told on source programs.

   A function is a list of lines of a small imperative language (declarations,
   assignments, calls, branches, loops, jumps).  "Build" says in which order a
   line's expressions are evaluated, and gives the graph of events: uses
   (copies or moves), borrows, calls, assignments, ends of scopes.  "Flow" lets
   the events act on the set of facts that may hold on some path

     <<"g", v, pr, n>>  the place (v, pr) was moved out of (or left without a
                        value) at event n, and has not been assigned since
     <<"h", v, n>>      variable v may hold the borrow made at event n
     <<"t", m, n>>      so may the value computed at event m, not yet consumed
     <<"?", v>>         a part of something missing in v was assigned, which is
                        an error: what v is worth from then on is left open
     <<"a", n>>         the two-phase borrow made at event n is activated

   until nothing new is found, and "Live" does the same for the variables that
   are going to be used, against the direction of control flow.  In "Look" the
   invariants compare what Aquascope reported for the function with what
   follows from these facts.  Nothing here knows about MIR.

   The functions are generated (tools/own_gen.py) and given to the real
   library as Rust text.                                                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Fns == ndJsonDeserialize(IOEnv.FACTS)

CONSTANT GoOn      \* report mismatches and go on, instead of stopping at the first one

VARIABLES
  f,       \* the function
  phase,   \* "build", "flow", "live", "look", "done"; "odd" if there is nothing to look at
  code,    \* its events
  in,      \* event -> facts on entry
  seen,    \* events that some path reaches
  live     \* event -> variables used later on

vars == <<f, phase, code, in, seen, live>>

F == Fns[f]
Range(s) == {s[i] : i \in DOMAIN s}
Results(g) == [i \in DOMAIN Fns[g].res |-> Fns[g].res[i].k]
Vars == DOMAIN F.vars
Events == DOMAIN code

----------------------------------------------------------------------------
(* Places: a variable and a projection, a sequence of fields "f" (number n; dt
   if what has the field has a destructor) and dereferences of shared "s" and
   mutable "m" references and of boxes "b".                                  *)

SamePrefix(x, y) ==
  \A i \in 1..(IF Len(x) < Len(y) THEN Len(x) ELSE Len(y)) : x[i].k = y[i].k /\ x[i].n = y[i].n
Overlap(v, x, w, y) == v = w /\ SamePrefix(x, y)

RECURSIVE MutableFrom(_, _, _, _)
MutableFrom(v, pr, i, viaMut) ==
  IF i = 0 THEN viaMut \/ F.vars[v].mt
  ELSE CASE pr[i].k = "s" -> FALSE
         [] pr[i].k = "m" -> MutableFrom(v, pr, i - 1, TRUE)
         [] OTHER         -> MutableFrom(v, pr, i - 1, viaMut)
Mutable(v, pr) == MutableFrom(v, pr, Len(pr), FALSE)

Movable(v, pr) == \A i \in DOMAIN pr : pr[i].k \notin {"s", "m", "i"} /\ ~pr[i].dt

ThroughShared(pr) == \E i \in DOMAIN pr : pr[i].k = "s"
ThroughRef(pr)    == \E i \in DOMAIN pr : pr[i].k \in {"s", "m"}

----------------------------------------------------------------------------
(* Evaluation order.  A value is identified by the event that computed it; 0
   is the value of a literal.                                                *)

Ev == [k |-> "nop", v |-> 0, pr |-> <<>>, id |-> 0, cp |-> FALSE, m |-> FALSE, tp |-> FALSE,
       args |-> <<>>, bor |-> {}, decl |-> FALSE, init |-> FALSE, dead |-> {}, line |-> 0, to |-> <<>>]

RECURSIVE Elab(_, _)
RECURSIVE ElabArgs(_, _, _)
ElabArgs(as, n, acc) ==
  IF as = <<>> THEN acc
  ELSE LET r == Elab(Head(as), n) IN
       ElabArgs(Tail(as), n + Len(r.ev), [ev |-> acc.ev \o r.ev, ts |-> Append(acc.ts, r.t)])
Elab(e, n) ==
  CASE e.k = "use"  -> [ev |-> <<[Ev EXCEPT !.k = "use", !.v = e.pl.v, !.pr = e.pl.pr, !.id = e.id, !.cp = e.cp]>>, t |-> n + 1]
    [] e.k = "ref"  -> [ev |-> <<[Ev EXCEPT !.k = "ref", !.v = e.pl.v, !.pr = e.pl.pr, !.id = e.id, !.m = e.m, !.tp = e.tp /\ e.m]>>, t |-> n + 1]
    [] e.k = "call" -> LET a == ElabArgs(e.args, n, [ev |-> <<>>, ts |-> <<>>]) IN
                       [ev |-> Append(a.ev, [Ev EXCEPT !.k = "call", !.args = a.ts, !.bor = {a.ts[i] : i \in Range(e.bor)}]),
                        t |-> n + Len(a.ev) + 1]
    [] OTHER        -> [ev |-> <<>>, t |-> 0]

(* The events of a line; targets are given as <<"next">>, <<"head", line>> (its
   first event), <<"join", line>> (its last) or <<"exit">>.                  *)
Nop(to)   == [Ev EXCEPT !.to = to]
Dead(ds)  == [Ev EXCEPT !.k = "dead", !.dead = Range(ds), !.to = <<<<"next">>>>]
Jump(ds, to) == <<[Dead(ds) EXCEPT !.to = <<to>>]>>

LineEvents(i, n) ==
  LET l == F.lines[i]
      r == IF l.k \in {"let", "set", "op", "ex", "if", "while", "ret"} THEN Elab(l.e, n) ELSE [ev |-> <<>>, t |-> 0]
      r1 == IF l.k = "while" THEN LET q == Elab(l.e, n + 1) IN [ev |-> <<Ev>> \o q.ev, t |-> q.t] ELSE r
      ev == r1.ev
  IN CASE l.k = "let" -> Append(ev, [Ev EXCEPT !.k = "set", !.v = l.v, !.args = <<r.t>>, !.decl = TRUE, !.init = l.e.k # "none"])
       [] l.k = "set" -> Append(ev, [Ev EXCEPT !.k = "set", !.v = l.pl.v, !.pr = l.pl.pr, !.args = <<r.t>>, !.id = l.id, !.init = TRUE])
       [] l.k = "op"  -> Append(ev, [Ev EXCEPT !.k = "op", !.v = l.pl.v, !.pr = l.pl.pr, !.args = <<r.t>>, !.id = l.id])
       [] l.k = "ex"  -> Append(ev, [Ev EXCEPT !.k = "call", !.args = <<r.t>>])
       [] l.k = "if"  -> Append(ev, [Nop(<<<<"next">>, IF l.els = 0 THEN <<"join", l.end>> ELSE <<"head", l.els + 1>>>>) EXCEPT !.k = "call", !.args = <<r.t>>])
       [] l.k = "while" -> Append(ev, [Nop(<<<<"next">>, <<"join", l.end>>>>) EXCEPT !.k = "call", !.args = <<r1.t>>])
       [] l.k = "loop"  -> <<Ev>>
       [] l.k = "else"  -> Jump(l.dead, <<"join", l.end>>)
       [] l.k = "end"   -> (IF l.of = "loop" THEN Jump(l.dead, <<"head", l.to>>) ELSE Jump(l.dead, <<"next">>)) \o <<Ev>>
       [] l.k = "brk"   -> Jump(l.dead, <<"join", l.to>>)
       [] l.k = "cont"  -> Jump(l.dead, <<"head", l.to>>)
       [] l.k = "ret"   -> ev \o <<[Ev EXCEPT !.k = "call", !.args = <<r.t>>]>> \o Jump(l.dead, <<"exit">>)

RECURSIVE AllLines(_, _)
AllLines(i, acc) ==
  IF i > Len(F.lines) THEN acc
  ELSE LET es == LineEvents(i, Len(acc.ev)) IN
       AllLines(i + 1, [ev |-> acc.ev \o [j \in DOMAIN es |-> [es[j] EXCEPT !.line = i]], at |-> Append(acc.at, Len(acc.ev) + 1)])

Code ==
  LET c == AllLines(1, [ev |-> <<>>, at |-> <<>>])
      last == Len(c.ev)
      target(j, t) == CASE t[1] = "next" -> j + 1
                        [] t[1] = "head" -> c.at[t[2]]
                        [] t[1] = "join" -> IF t[2] = Len(c.at) THEN last ELSE c.at[t[2] + 1] - 1
                        [] t[1] = "exit" -> 0
  IN [j \in 1..last |-> [x \in DOMAIN Ev \cup {"succ"} |->
        IF x = "succ"
          THEN (IF c.ev[j].to = <<>> THEN {j + 1} ELSE {target(j, t) : t \in Range(c.ev[j].to)}) \ {0, last + 1}
          ELSE c.ev[j][x]]]

----------------------------------------------------------------------------
(* What an event does to the facts. *)

Loan(n) == code[n]     \* the borrow made at event n
Holds(v, s) == {x[3] : x \in {y \in s : y[1] = "h" /\ y[2] = v}}
Carries(m, s) == {x[3] : x \in {y \in s : y[1] = "t" /\ y[2] = m}}

(* Assigning a place gives it a value; what was borrowed there is out of reach. *)
Assign(v, pr, s) ==
  {x \in s : CASE x[1] = "g" -> ~(Overlap(v, pr, x[2], x[3]) /\ Len(pr) <= Len(x[3]))
               [] x[1] \in {"h", "t"} -> ~Overlap(v, pr, Loan(x[3]).v, Loan(x[3]).pr)
               [] x[1] = "?" -> ~(x[2] = v /\ pr = <<>>)
               [] OTHER -> TRUE}
  \cup (IF \E x \in s : x[1] = "g" /\ Overlap(v, pr, x[2], x[3]) /\ Len(pr) > Len(x[3]) THEN {<<"?", v>>} ELSE {})

Out(n, s) ==
  LET e == code[n] IN
  CASE e.k = "use" ->
         (IF e.cp \/ ~Movable(e.v, e.pr) THEN s ELSE s \cup {<<"g", e.v, e.pr, n>>})
         \cup (IF e.pr = <<>> THEN {<<"t", n, l>> : l \in Holds(e.v, s)} ELSE {})
    [] e.k = "ref" ->
         (s \ {<<"a", n>>})
         \cup (IF ThroughShared(e.pr) THEN {} ELSE {<<"t", n, n>>})
         \cup (IF ThroughRef(e.pr) \/ e.pr = <<>> THEN {<<"t", n, l>> : l \in Holds(e.v, s)} ELSE {})
    [] e.k = "call" ->
         {x \in s : ~(x[1] = "t" /\ x[2] \in Range(e.args))}
         \cup {<<"t", n, l>> : l \in UNION {Carries(m, s) : m \in e.bor}}
         \cup {<<"a", m>> : m \in {q \in Range(e.args) \ {0} : code[q].k = "ref" /\ code[q].tp}}
    [] e.k = "set" ->
         LET t  == e.args[1]
             s1 == {x \in Assign(e.v, e.pr, s) : ~(x[1] = "h" /\ x[2] = e.v /\ e.pr = <<>>)}
         IN {x \in s1 : ~(x[1] = "t" /\ x[2] = t)}
            \cup {<<"h", e.v, l>> : l \in IF e.pr = <<>> THEN Carries(t, s1) ELSE {}}
            \cup (IF e.init THEN {} ELSE {<<"g", e.v, <<>>, n>>})
    [] e.k = "op" -> {x \in s : x[1] \in {"h", "t"} => ~Overlap(e.v, e.pr, Loan(x[3]).v, Loan(x[3]).pr)}
                     \cup (IF \E x \in s : x[1] = "g" /\ Overlap(e.v, e.pr, x[2], x[3]) THEN {<<"?", e.v>>} ELSE {})
    [] e.k = "dead" ->
         {x \in s : CASE x[1] \in {"g", "?"} -> x[2] \notin e.dead
                      [] x[1] = "h" -> x[2] \notin e.dead /\ Loan(x[3]).v \notin e.dead
                      [] x[1] = "t" -> Loan(x[3]).v \notin e.dead
                      [] OTHER -> TRUE}
    [] OTHER -> s

(* Which variables an event needs, and which it gives a new value. *)
Needs(n) ==
  LET e == code[n] IN
  IF e.k \in {"use", "ref", "op"} \/ (e.k = "set" /\ e.pr # <<>>) THEN {e.v} ELSE {}
Gives(n) ==
  LET e == code[n] IN
  IF e.k = "set" /\ e.pr = <<>> THEN {e.v} ELSE e.dead

----------------------------------------------------------------------------

Preds(n) == {m \in Events : n \in code[m].succ}

RECURSIVE Forward(_, _, _)
Forward(n, i, sn) ==
  IF n > Len(code) THEN [in |-> i, seen |-> sn]
  ELSE LET ps == {m \in Preds(n) : m \in sn} IN
       IF n > 1 /\ ps = {} THEN Forward(n + 1, i, sn)
       ELSE Forward(n + 1, [i EXCEPT ![n] = @ \cup UNION {Out(m, i[m]) : m \in ps}], sn \cup {n})

RECURSIVE Backward(_, _)
Backward(n, lv) ==
  IF n = 0 THEN lv
  ELSE Backward(n - 1, [lv EXCEPT ![n] = Needs(n) \cup (UNION {lv[m] : m \in code[n].succ} \ Gives(n))])

Init ==
  /\ f \in DOMAIN Fns
  /\ phase = IF Fns[f].bad \/ Results(f) # <<"ok">> THEN "odd" ELSE "build"
  /\ code = <<>>
  /\ in = <<>>
  /\ seen = {}
  /\ live = <<>>

Build ==
  /\ phase = "build"
  /\ phase' = "flow"
  /\ code' = Code
  /\ in' = [n \in DOMAIN code' |-> {}]
  /\ live' = [n \in DOMAIN code' |-> {}]
  /\ UNCHANGED <<f, seen>>

Flow ==
  /\ phase = "flow"
  /\ LET r == Forward(1, in, seen) IN
     /\ in' = r.in
     /\ seen' = r.seen
     /\ phase' = IF r.in = in /\ r.seen = seen THEN "live" ELSE "flow"
  /\ UNCHANGED <<f, code, live>>

Live ==
  /\ phase = "live"
  /\ live' = Backward(Len(code), live)
  /\ phase' = IF live' = live THEN "look" ELSE "live"
  /\ UNCHANGED <<f, code, in, seen>>

Look ==
  /\ phase = "look"
  /\ phase' = "done"
  /\ UNCHANGED <<f, code, in, seen, live>>

Next == Build \/ Flow \/ Live \/ Look
Spec == Init /\ [][Next]_vars
View == <<f, phase, in, seen, live>>

----------------------------------------------------------------------------
(* The permissions of a place on entry of an event. *)

LiveLoans(n) == {x[3] : x \in {y \in in[n] : y[1] = "t" \/ (y[1] = "h" /\ y[2] \in live[n])}}
On(n, v, pr) == {l \in LiveLoans(n) : Overlap(v, pr, Loan(l).v, Loan(l).pr)}
Excludes(n, l) == Loan(l).m /\ (Loan(l).tp => <<"a", l>> \in in[n])
Gone(n, v, pr) == {x \in in[n] : x[1] = "g" /\ Overlap(v, pr, x[2], x[3])}

Readable(n, v, pr)  == Gone(n, v, pr) = {} /\ ~ \E l \in On(n, v, pr) : Excludes(n, l)
Writeable(n, v, pr) == Readable(n, v, pr) /\ Mutable(v, pr) /\ On(n, v, pr) = {}
Ownable(n, v, pr)   == Readable(n, v, pr) /\ Movable(v, pr) /\ On(n, v, pr) = {}

Letters(r, w, o) == (IF r THEN {"R"} ELSE {}) \cup (IF w THEN {"W"} ELSE {}) \cup (IF o THEN {"O"} ELSE {})
Has(n, v, pr) == Letters(Readable(n, v, pr), Writeable(n, v, pr), Ownable(n, v, pr))

(* What a use asks for. *)
Asks(e) ==
  CASE e.k = "use" -> IF e.cp THEN {"R"} ELSE {"R", "O"}
    [] e.k = "ref" -> IF e.m THEN {"R", "W"} ELSE {"R"}
    [] e.k \in {"set", "op"} -> {"R", "W"}

UseEvents == {n \in seen : code[n].id # 0}
At(n) == F.uses[code[n].id]
NotAfter(x, y) == x.l < y.l \/ (x.l = y.l /\ x.c <= y.c)

(* Errors: where the first one ends (l = 0 if there is none). *)
Shown(n) == F.cut.l = 0 \/ NotAfter(At(n), F.cut)

ObsAt(n) == {i \in DOMAIN F.obs : F.obs[i].l = At(n).l /\ F.obs[i].c = At(n).c}

----------------------------------------------------------------------------
Looking == phase = "look"
Show(what, x) == PrintT(ToString(<<"MISMATCH", what, F.file, F.name, x>>))
Check(what, x, ok) == ok \/ (Show(what, x) /\ GoOn)

(* P04: each use has one boundary with what it asks for, and nothing else has one. *)
OneBoundaryPerUse == Looking =>
  \A n \in UseEvents : Shown(n) =>
    Check("use", <<At(n), Asks(code[n]), {F.obs[i] : i \in ObsAt(n)}>>,
      Cardinality(ObsAt(n)) = 1 /\ \A i \in ObsAt(n) : Range(F.obs[i].exp) = Asks(code[n]))

NothingElse == Looking =>
  \A i \in DOMAIN F.obs :
    Check("no use", F.obs[i], \E u \in DOMAIN F.uses : F.uses[u].l = F.obs[i].l /\ F.uses[u].c = F.obs[i].c)

(* P05: the actual permissions are those of the place, there and then. *)
ActualRight == Looking =>
  \A n \in UseEvents : (Shown(n) /\ <<"?", code[n].v>> \notin in[n]) => \A i \in ObsAt(n) :
    Check("actual", <<At(n), Has(n, code[n].v, code[n].pr), F.obs[i], in[n]>>,
      \/ Range(F.obs[i].act) = Has(n, code[n].v, code[n].pr)
      (* `r = s` for shared references may be taken as `r = &*s`. *)
      \/ code[n].id \in Range(F.alt) /\ Range(F.obs[i].act) = Has(n, code[n].v, <<[k |-> "s", n |-> 0, dt |-> FALSE]>>))

(* ... and something is missing iff the borrow checker objects. *)
Missing(i) == Range(F.obs[i].exp) \ Range(F.obs[i].act) # {}
(* Two known findings: giving the contents of a Box a new value, after they were
   moved out, does not need what the boundary asks for; and a reserved mutable
   borrow may overlap shared ones that end before it is activated.           *)
Refill(n)  == code[n].k = "set" /\ (\E i \in DOMAIN code[n].pr : code[n].pr[i].k = "b") /\ Gone(n, code[n].v, code[n].pr) # {}
Reserve(n) == /\ code[n].k = "ref" /\ code[n].m /\ code[n].tp
              /\ Gone(n, code[n].v, code[n].pr) = {} /\ Mutable(code[n].v, code[n].pr)
              /\ \A l \in On(n, code[n].v, code[n].pr) : ~Loan(l).m
KnownAs(n) == IF Refill(n) THEN "refill-box" ELSE IF Reserve(n) THEN "reserve-over-shared" ELSE ""
Known(n, i) == KnownAs(n) # "" /\ i \in ObsAt(n) /\ PrintT(ToString(<<"KNOWN", KnownAs(n), F.file, F.name, F.obs[i]>>))
AcceptedComplete == Looking =>
  (F.errs = <<>> => \A i \in DOMAIN F.obs : Check("accepted", F.obs[i], ~Missing(i) \/ \E n \in UseEvents : Known(n, i)))
(* The error's span is the use's (or lies around it). *)
AboutUses == {"E0382", "E0381", "E0596", "E0499", "E0502", "E0505", "E0503", "E0507", "E0509"}
(* A reserved mutable borrow may also turn out to be in conflict only when it
   is activated, by the call it is an argument of.                           *)
ConflictLater(n) ==
  code[n].k = "call" /\ \E m \in Range(code[n].args) \ {0} :
    code[m].k = "ref" /\ code[m].tp /\ On(n, code[m].v, code[m].pr) # {m}
RejectedMissing == Looking =>
  ((F.errs # <<>> /\ F.errs[1].code \in AboutUses
    /\ (\E n \in UseEvents : Shown(n) /\ At(n).l = F.errs[1].l /\ At(n).c \in F.errs[1].c .. F.errs[1].ec)
    /\ ~ (\E i \in DOMAIN F.lines : F.lines[i].k = "set" /\ F.lines[i].id = 0 /\ F.lines[i].line = F.errs[1].l /\ F.lines[i].col = F.errs[1].c)
    /\ ~ \E n \in seen : F.lines[code[n].line].line = F.errs[1].l /\ ConflictLater(n)) =>
     Check("rejected", F.errs[1], \E i \in DOMAIN F.obs : Missing(i) /\ F.obs[i].l = F.errs[1].l))

(* P06: every function has one result; it is a build error, and says where, iff the function is not well typed. *)
OneResult == phase \in {"look", "odd"} =>
  Check("result", <<F.bad, F.res>>,
    /\ Len(F.res) = 1
    /\ LET r == F.res[1] IN
       IF F.bad THEN r.k = "build" /\ r.l = F.first /\ r.c = 1
       ELSE \/ r.k = "ok"
            (* Known finding: lines after a branch that is left early. *)
            \/ /\ r.k = "step-early-exit"
               /\ \E i \in DOMAIN F.lines : F.lines[i].k \in {"brk", "cont", "ret"} /\ i < Len(F.lines)
               /\ PrintT(ToString(<<"KNOWN", "step-early-exit", F.file, F.name>>)))

(* ... and nothing is claimed after the first error. *)
CutOff == Looking =>
  \A i \in DOMAIN F.obs : Check("after the first error", <<F.obs[i], F.cut>>, F.cut.l = 0 \/ NotAfter(F.obs[i], F.cut))
==============================================================================
