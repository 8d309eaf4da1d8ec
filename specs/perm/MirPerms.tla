------------------------------ MODULE MirPerms ------------------------------
(* What a function body does to its places, and which permissions follow.

   A body is a control-flow graph over points.  Execution walks the graph; on
   the way it moves places out, assigns them, reserves and activates borrows.
   The permissions of a place at a point are a function of what may have
   happened on the way (moves, missing initialisation), of what is still to
   come (uses of the local, borrows that are live) and of the place's type.

   The walk is explored exhaustively: "Walk" extends the set of facts known to
   hold on some path, until nothing new is found ("Use" does the same against
   the direction of control flow, for liveness).  Then "Visit" goes through
   the points, and in each the invariants compare what Aquascope recorded for
   every place with what the specification says.

   The bodies (graph, moves, assignments, borrows, uses) come from rustc; the
   records come from Aquascope.  See harness/aqh/src/facts.rs.              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Bodies == ndJsonDeserialize(IOEnv.FACTS)

CONSTANT GoOn      \* report mismatches and go on, instead of stopping at the first one

VARIABLES
  b,        \* the body
  phase,    \* "walk", "use", "visit", "done"
  new,      \* points whose facts grew in the last step
  mv,       \* point -> moves that may be in effect on entry
  un,       \* point -> move paths that may be uninitialised on entry
  act,      \* point -> two-phase borrows that may have been activated
  seen,     \* points some path reaches
  live,     \* point -> locals that some path onwards uses
  over,     \* place -> borrows of overlapping places (certainly, possibly)
  best,     \* place -> deepest move path it lies in, move paths inside it
  p         \* the point visited

vars == <<b, phase, new, mv, un, act, seen, live, over, best, p>>
View == <<b, phase, p, new, seen>>

B == Bodies[b]
Points == 1..B.np
Range(s) == {s[i] : i \in DOMAIN s}
Succ(q) == Range(B.succ[q])

----------------------------------------------------------------------------
(* Places *)

SameElem(e, f) == e.k = f.k /\ e.n = f.n

IsPrefix(x, y) ==
  /\ x.l = y.l
  /\ Len(x.pr) <= Len(y.pr)
  /\ \A i \in 1..Len(x.pr) : SameElem(x.pr[i], y.pr[i])

Related(x, y) == IsPrefix(x, y) \/ IsPrefix(y, x)

PathPlace(m) == B.places[B.mps[m]]
MovePaths == DOMAIN B.mps

(* The deepest move path that contains a place, and the ones inside it. *)
Best(x) ==
  LET above == {m \in MovePaths : IsPrefix(PathPlace(m), x)} IN
  [ up   |-> CHOOSE m \in above : \A n \in above : Len(PathPlace(n).pr) <= Len(PathPlace(m).pr),
    down |-> {m \in MovePaths : IsPrefix(x, PathPlace(m))} ]

(* Two places overlap unless they part at different fields of something that
   is not a union, or at different variants.  "no", "yes" or, where it depends
   on index arithmetic that is not modelled, "maybe".                        *)
RECURSIVE Overlap(_, _, _)
Overlap(x, y, i) ==
  IF i > Len(x.pr) \/ i > Len(y.pr) THEN "yes"
  ELSE LET e == x.pr[i]  f == y.pr[i] IN
       IF e.k = "f" /\ f.k = "f" /\ e.n # f.n
         THEN IF e.u THEN "yes" ELSE "no"
       ELSE IF e.k = "v" /\ f.k = "v" /\ e.n # f.n THEN "no"
       ELSE IF e.k \in {"ci", "sl"} /\ f.k \in {"ci", "sl"}
         THEN IF Overlap(x, y, i + 1) = "no" THEN "no" ELSE "maybe"
       ELSE Overlap(x, y, i + 1)

Borrows == DOMAIN B.loans

Overlapping(x) ==
  [ sure  |-> {n \in Borrows : B.loans[n].l = x.l /\ Overlap(B.loans[n], x, 1) = "yes"},
    maybe |-> {n \in Borrows : B.loans[n].l = x.l /\ Overlap(B.loans[n], x, 1) # "no"} ]

Derefs == {"s", "m", "b", "c", "r"}

(* May the place be changed, as far as its declaration and types go?  The
   outermost dereferences count first; a Box inherits from what holds it.   *)
RECURSIVE MutableFrom(_, _, _)
MutableFrom(x, i, viaMut) ==
  IF i = 0 THEN viaMut \/ B.locals[x.l].mt
  ELSE CASE x.pr[i].k = "s" -> FALSE
         [] x.pr[i].k = "m" -> MutableFrom(x, i - 1, TRUE)
         [] x.pr[i].k = "c" -> FALSE
         [] x.pr[i].k = "r" -> TRUE
         [] OTHER           -> MutableFrom(x, i - 1, viaMut)

Mutable(x) == MutableFrom(x, Len(x.pr), FALSE)

(* Can a value be taken out of the place? *)
Movable(x) ==
  \A i \in 1..Len(x.pr) :
    /\ x.pr[i].k \notin {"s", "m", "c", "r", "i", "ci", "sl"}
    /\ ~x.pr[i].dt

----------------------------------------------------------------------------
(* What happens at a point *)

MovesAt(q)    == {i \in DOMAIN B.moves : B.moves[i].at = q /\ ~B.moves[i].dead}
EndsAt(q)     == {B.moves[i].mp : i \in {j \in DOMAIN B.moves : B.moves[j].at = q /\ B.moves[j].dead}}     \* the scope of a local
AssignedAt(q) == {B.assigned[i].mp : i \in {j \in DOMAIN B.assigned : B.assigned[j].at = q}}
Inside(m)     == {n \in MovePaths : IsPrefix(PathPlace(m), PathPlace(n))}
ReservedAt(q) == {n \in Borrows : B.loans[n].at = q}
ActivatedAt(q) == {n \in Borrows : B.loans[n].act = q}

(* Facts on leaving a point, from those on entering it. *)
MvOut(q, s) == MovesAt(q) \cup
  {i \in s : ~ \E a \in AssignedAt(q) \cup EndsAt(q) : Related(PathPlace(a), PathPlace(B.moves[i].mp))}
UnOut(q, s) ==
  LET gone == {B.moves[i].mp : i \in MovesAt(q)} \cup EndsAt(q) IN
  UNION {Inside(m) : m \in gone} \cup (s \ UNION {Inside(m) : m \in AssignedAt(q)})
ActOut(q, s) == (s \cup ActivatedAt(q)) \ ReservedAt(q)

NotArgs == {m \in MovePaths : ~B.locals[PathPlace(m).l].arg}

----------------------------------------------------------------------------

Nothing == [q \in Points |-> {}]

Init ==
  /\ b \in {i \in DOMAIN Bodies : "np" \in DOMAIN Bodies[i]}
  /\ phase = "walk"
  /\ new = {1}
  /\ seen = {1}
  /\ mv = Nothing
  /\ un = [Nothing EXCEPT ![1] = NotArgs]
  /\ act = Nothing
  /\ live = Nothing
  /\ over = <<>>
  /\ best = <<>>
  /\ p = 0

Walk ==
  /\ phase = "walk"
  /\ LET into(q)  == {r \in new : q \in Succ(r)}
         reach    == UNION {Succ(r) : r \in new}
         mvIn     == [q \in reach |-> mv[q] \cup UNION {MvOut(r, mv[r]) : r \in into(q)}]
         unIn     == [q \in reach |-> un[q] \cup UNION {UnOut(r, un[r]) : r \in into(q)}]
         actIn    == [q \in reach |-> act[q] \cup UNION {ActOut(r, act[r]) : r \in into(q)}]
         grown    == {q \in reach : q \notin seen \/ mvIn[q] # mv[q] \/ unIn[q] # un[q] \/ actIn[q] # act[q]}
     IN /\ new' = IF grown = {} THEN Points ELSE grown
        /\ phase' = IF grown = {} THEN "use" ELSE "walk"
        /\ seen' = seen \cup reach
        /\ mv' = mvIn @@ mv
        /\ un' = unIn @@ un
        /\ act' = actIn @@ act
  /\ UNCHANGED <<b, live, over, best, p>>

UsedAt(q)    == {B.used[i][1] : i \in {j \in DOMAIN B.used : B.used[j][2] = q}}
DefinedAt(q) == {B.defd[i][1] : i \in {j \in DOMAIN B.defd : B.defd[j][2] = q}}

(* Liveness flows against control flow. *)
Use ==
  /\ phase = "use"
  /\ LET first == live = Nothing
         touch == IF first THEN Points ELSE {q \in Points : Succ(q) \cap new # {}}
         lv    == [q \in touch |->
                    IF first THEN UsedAt(q)
                    ELSE live[q] \cup (UNION {live[r] : r \in Succ(q)} \ DefinedAt(q))]
         grown == {q \in touch : lv[q] # live[q]}
     IN IF grown = {}
          THEN /\ phase' = "visit"
               /\ new' = {}
               /\ over' = [x \in DOMAIN B.places |-> Overlapping(B.places[x])]
               /\ best' = [x \in DOMAIN B.places |-> Best(B.places[x])]
               /\ p' = 1
               /\ UNCHANGED live
          ELSE /\ live' = lv @@ live
               /\ new' = grown
               /\ UNCHANGED <<phase, over, best, p>>
  /\ UNCHANGED <<b, mv, un, act, seen>>

Visit ==
  /\ phase = "visit"
  /\ IF p = B.np THEN phase' = "done" /\ UNCHANGED p
                 ELSE phase' = phase /\ p' = p + 1
  /\ UNCHANGED <<b, new, mv, un, act, seen, live, over, best>>

Next == Walk \/ Use \/ Visit
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* What holds on entry of the visited point *)

Place(x) == B.places[x]
LiveLoans == Range(B.llive[p])

(* Where a value is just arriving (in the middle of an assignment, or where a
   call returns to), or leaves with its scope, both answers are fine.        *)
Arriving(x) == \E a \in AssignedAt(p) \cup EndsAt(p) : Related(PathPlace(a), Place(x))
Uninit(x) == best[x].up \in un[p] \/ best[x].down \cap un[p] # {}
(* In the middle of the statement that moves, or that ends the scope of a local, both answers are fine. *)
MovesOf(x) == {i \in mv[p] : Related(PathPlace(B.moves[i].mp), Place(x)) /\ ~ \E a \in EndsAt(p) : Related(PathPlace(a), Place(x))}
MayMovesOf(x) == {i \in mv[p] \cup MovesAt(p) : Related(PathPlace(B.moves[i].mp), Place(x))}

(* A mutable borrow that is only reserved still lets others read: it blocks
   them from its activation on.  (Just after the reservation, in the middle of
   the statement, both answers are fine.)                                    *)
Blocks(n) ==
  /\ B.loans[n].mt
  /\ B.loans[n].two => B.loans[n].act # 0 /\ (p = B.loans[n].act \/ n \in act[p])
MayBlock(n) == B.loans[n].mt /\ (Blocks(n) \/ p = B.loans[n].at)

Sure(x)  == over[x].sure \cap LiveLoans
Maybe(x) == over[x].maybe \cap LiveLoans

Rec(x) == B.recs[B.rec[p][x]]
Looked(x) == B.rec[p][x] # 0

(* `(x as V)` without a field is no place of the language. *)
Proper(x) == Place(x).pr = <<>> \/ Place(x).pr[Len(Place(x).pr)].k # "v"

(* What lies inside something uninitialised is marked only while it is live;
   otherwise nothing is shown for it.                                        *)
Free(x) == Arriving(x) \/ (Place(x).l \notin live[p] /\ x # B.mps[best[x].up])

(* The body of the properties: at each reachable point, for each place.  On
   entry of the function, before anything ran, the only thing that counts is
   what is shown (`p`).                                                      *)
At(P(_)) == phase = "visit" /\ p \in seen => \A x \in DOMAIN B.places : Looked(x) => P(x)

Show(x, what) == PrintT(ToString(<<"MISMATCH", what, B.file, B.name, Place(x).s, "point", p, Rec(x)>>))
Check(x, what, ok) == ok \/ (Show(x, what) /\ GoOn)

(* P01 *)
Readable(x)  == (Uninit(x) => Free(x)) /\ MovesOf(x) = {} /\ ~ \E n \in Sure(x) : Blocks(n)
Writeable(x) == Readable(x) /\ Mutable(Place(x)) /\ Sure(x) = {}
Ownable(x)   == Readable(x) /\ Movable(Place(x)) /\ Sure(x) = {}
(* The same with every undecided question decided against the place. *)
Readable1(x)  == Readable(x) /\ ~Uninit(x) /\ MayMovesOf(x) = {} /\ ~ \E n \in Maybe(x) : MayBlock(n)
Writeable1(x) == Writeable(x) /\ Readable1(x) /\ Maybe(x) = {}
Ownable1(x)   == Ownable(x) /\ Readable1(x) /\ Maybe(x) = {}

Letters(r, w, o) == (IF r THEN {"R"} ELSE {}) \cup (IF w THEN {"W"} ELSE {}) \cup (IF o THEN {"O"} ELSE {})
Upper(x) == Letters(Readable(x), Writeable(x), Ownable(x))
Lower(x) == Letters(Readable1(x), Writeable1(x), Ownable1(x))

PermissionsRight == At(LAMBDA x :
  LET r == Rec(x)
      q == Range(r.q)
      isLive == Place(x).l \in live[p]
  IN Check(x, "permissions", 
     /\ Range(r.p) = (IF isLive THEN q ELSE {})
     /\ r.live = isLive
     /\ p = 1 \/ ~Proper(x) \/ (Lower(x) \subseteq q /\ q \subseteq Upper(x))))

TypesRight == At(LAMBDA x :
  LET r == Rec(x) IN
  Check(x, "types", r.tw = Mutable(Place(x)) /\ r.td = Movable(Place(x)) /\ r.tc = Place(x).cp))

(* Every place that the body mentions, and every place that can be moved, is
   looked at.                                                                *)
AllLooked == phase = "visit" /\ p = 1 => \A m \in MovePaths : Looked(B.mps[m])

(* P02 *)
MovesRight == At(LAMBDA x :
  Check(x, "move", p = 1 \/ IF Rec(x).mv = 0 THEN Proper(x) => MovesOf(x) = {} ELSE Rec(x).mv \in MayMovesOf(x)))

(* P03 *)
LoansRight == At(LAMBDA x :
  LET r == Rec(x) IN
  Check(x, "loan",
    /\ IF r.lr = 0 THEN ~ \E n \in Sure(x) : Blocks(n) ELSE r.lr \in Maybe(x) /\ MayBlock(r.lr)
    /\ IF r.lw = 0 THEN Sure(x) = {} ELSE r.lw \in Maybe(x)
    /\ IF r.ld = 0 THEN Sure(x) = {} ELSE r.ld \in Maybe(x)))
==============================================================================
