-------------------------------- MODULE Flow --------------------------------
(* Where references flow, told on small functions about lifetimes.

   F.nl is the number of named lifetimes of the signature; F.out its declared
   outlives pairs <<i, j>> ('i: 'j); F.vars the variables: [k |-> kind, a, b |-> its
   lifetimes if it is a parameter (0: 'static), arg].  Kinds: "R" &'a i32, "M"
   &'a mut i32, "RR" &'a &'b i32, "H" a struct with a reference, "V" a (reborrowed)
   vector of references that can be pushed to, "LV" such a vector of one's own, "G"
   &mut of such a struct, "MM" &'a mut &'b i32, "I" a local number.  F.ret is the kind of the result and its lifetimes.  F.stmts are
   statements; a use in an expression has the number of its position in F.uses.

   A region is a signature lifetime, that of a local variable, or a borrow of a
   local.  "Collect" takes the flows of one statement after the other, "Close"
   closes them, and in "Look" what Aquascope marked is compared with them.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Fns == ndJsonDeserialize(IOEnv.FACTS)
CONSTANT GoOn
VARIABLES f, phase, i, flows, reach
vars == <<f, phase, i, flows, reach>>

F == Fns[f]
Range(s) == {s[j] : j \in DOMAIN s}
Sig(a) == <<"s", a>>
Lifetimes == 0..F.nl

(* What the signature says: 'static outlives all, &'a &'b T implies 'b: 'a. *)
RECURSIVE Closure(_)
Closure(r) == LET more == r \cup {<<p[1], q[2]>> : <<p, q>> \in {<<p, q>> \in r \X r : p[2] = q[1]}} IN
              IF more = r THEN r ELSE Closure(more)
Known == Closure({<<a, a>> : a \in Lifetimes} \cup {<<0, a>> : a \in Lifetimes} \cup Range(F.out)
                 \cup {<<v.b, v.a>> : v \in {v \in Range(F.vars) : v.arg /\ v.k \in {"RR", "MM"}}})

(* The region that a variable's references have, or a structure's that it stands for. *)
Region(x) == LET v == F.vars[x] IN
  CASE v.k = "I" -> <<"l", x>>
    [] v.arg /\ v.k \in {"RR", "MM"} -> Sig(v.b)
    [] v.arg -> Sig(v.a)
    [] OTHER -> <<"v", x>>

(* The uses of an expression, with the region that flows from there. *)
RECURSIVE From(_)
From(e) ==
  CASE e.k \in {"var", "fld", "der", "loc", "reb", "mreb", "idx"} -> {<<e.id, Region(e.v)>>}
    [] e.k \in {"st", "mk"} -> {}
    [] e.k = "first" -> From(e.args[1])
    [] OTHER -> UNION {From(e.args[j]) : j \in DOMAIN e.args}

(* The flows of a statement: <<use, from, to>>. *)
To(e, d) == {<<u[1], u[2], d>> : u \in From(e)}
Flows(s) ==
  CASE s.k \in {"let", "set", "push", "store"} -> To(s.e, Region(s.v))
    (* A reborrowed vector has the very same references. *)
    [] s.k = "alias" -> To(s.e, Region(s.v)) \cup {<<0, Region(s.v), Region(s.e.v)>>}
    [] s.k = "sel" -> UNION {To(s.es[j], Region(s.v)) : j \in DOMAIN s.es}
    [] s.k = "retif" -> UNION {To(s.es[j], Sig(F.ret.as[1])) : j \in DOMAIN s.es}
    [] s.k = "ret" -> UNION {To(s.es[j], Sig(F.ret.as[j])) : j \in DOMAIN s.es}
    [] OTHER -> {}

Init ==
  /\ f \in DOMAIN Fns
  /\ phase = "collect" /\ i = 1 /\ flows = {} /\ reach = {}
Collect ==
  /\ phase = "collect"
  /\ IF i > Len(F.stmts)
       THEN phase' = "close" /\ i' = i /\ flows' = flows
            /\ reach' = LET e == {<<x[2], x[3]>> : x \in flows} IN e \cup {<<n, n>> : n \in {p[1] : p \in e} \cup {p[2] : p \in e}}
       ELSE phase' = phase /\ i' = i + 1 /\ flows' = flows \cup Flows(F.stmts[i]) /\ reach' = reach
  /\ UNCHANGED f
Close ==
  /\ phase = "close"
  /\ reach' = reach \cup {<<p[1], q[2]>> : <<p, q>> \in {<<p, q>> \in reach \X reach : p[2] = q[1]}}
  /\ phase' = IF reach' = reach THEN "look" ELSE "close"
  /\ UNCHANGED <<f, i, flows>>
Look == phase = "look" /\ phase' = "done" /\ UNCHANGED <<f, i, flows, reach>>
Next == Collect \/ Close \/ Look
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* The signature lifetimes that a region is bound to be equal to. *)
Equal(n) == {a \in Lifetimes : n = Sig(a) \/ (<<n, Sig(a)>> \in reach /\ <<Sig(a), n>> \in reach)}
Sources(n) == {n} \cup {p[1] : p \in {p \in reach : p[2] = n}}
LocalIn(n) == \E s \in Sources(n) : s[1] = "l"
Unknown(n, a) == \E s \in Sources(n) : s[1] = "s" /\ <<s[2], a>> \notin Known

\* A flow that must not be, and why.
Targets(x) == Equal(x[3])
Wrong(x) == Targets(x) # {} /\ Targets(x) \cap Equal(x[2]) = {} /\ (LocalIn(x[2]) \/ \E a \in Targets(x) : Unknown(x[2], a))
Kind(x) == IF LocalIn(x[2]) THEN "LocalOutlivesUniversal" ELSE "MissingUniversalConstraint"
Wanted == {<<x[1], Kind(x)>> : x \in {x \in flows : x[1] # 0 /\ Wrong(x)}}

(* Known finding: lifetimes that are required to be equal, but are not known to be, are taken for one. *)
Goes(a, b) == a = 0 \/ <<Sig(a), Sig(b)>> \in reach
Merged == \E a, b \in Lifetimes : a # b /\ Goes(a, b) /\ Goes(b, a) /\ ~(<<a, b>> \in Known /\ <<b, a>> \in Known)

Looking == phase = "look"
Show(what, x) == PrintT(ToString(<<"MISMATCH", what, F.file, F.name, x>>))
Check(what, x, ok) == \/ ok
                      \/ Merged /\ PrintT(ToString(<<"KNOWN", "flow-merged", F.file, F.name, what, x>>))
                      \/ Show(what, x) /\ GoOn

At(u) == F.uses[u]
(* F.obs: what is marked, with flows asked for: [l, c, kind]; F.quiet: how much is said about flows if they are not. *)
NothingMissing == Looking => \A w \in Wanted : Check("not marked", <<At(w[1]), w[2]>>, \E o \in Range(F.obs) : o.l = At(w[1]).l /\ o.c = At(w[1]).c /\ o.kind = w[2])
NothingElse == Looking => \A o \in Range(F.obs) : Check("marked", <<o, Wanted>>, \E w \in Wanted : o.l = At(w[1]).l /\ o.c = At(w[1]).c /\ o.kind = w[2])
Quiet == Looking => (F.quiet = 0 \/ (Show("not asked for", F.quiet) /\ GoOn))
(* The compiler agrees: the function is rejected iff something is marked. *)
CompilerAgrees == Looking => (Merged \/ Check("compiler", <<F.errs, Wanted>>, (F.errs = 0) = (Wanted = {})))
==============================================================================
