---------------------------- MODULE CommandTrace ----------------------------
(* Whether what the real command printed for a program is what Command.tla says:
   one result per body, the very one that the library has for the item alone.

   Results are compared part by part; contents are numbered.  A result is
   [i |-> item (0: none of them), k |-> kind, b |-> boundaries, s |-> steps,
   r |-> the rest], a boundary [k |-> the boundary without flow information, f |-> the flow
   information, 0 for none].                                                  *)
EXTENDS CommandModel, IOUtils
Data == JsonDeserialize(IOEnv.TRACES)
Ref == Data.ref          \* item -> options (1..4: flows + 2 * all + 1) -> its results
Runs == Data.runs        \* [prog, o, out: results, json: one array was printed]
VARIABLE at              \* the run that is looked at
TInit == at = 0 /\ Init
TNext == at < Len(Runs) /\ at' = at + 1 /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<at, vars>>

R == Runs[at]
Count(x, s) == Cardinality({i \in DOMAIN s : s[i] = x})
Expected == LET RECURSIVE Cat(_)
                Cat(n) == IF n = 0 THEN <<>> ELSE Cat(n - 1) \o Ref[R.prog[n]][R.o]
            IN Cat(Len(R.prog))
OneArray == at > 0 => R.json
OneEach == at > 0 => \A i \in DOMAIN R.prog : Cardinality({j \in DOMAIN R.out : R.out[j].i = R.prog[i]}) = Items[R.prog[i]].bodies
NoMore == at > 0 => Len(R.out) = Len(Expected)
Same == at > 0 => \A j \in DOMAIN R.out : Count(R.out[j], R.out) = Count(R.out[j], Expected)
----------------------------------------------------------------------------
\* What the options change, on the results for each item alone.
Parts(x, o) == Ref[x][o]
AsIs(bs) == [i \in DOMAIN bs |-> bs[i].k]
\* The boundaries of a result with flows but for those that are only there to show flows.
Plain(bs, base) == SelectSeq(bs, LAMBDA e : e.f = 0 \/ \E i \in DOMAIN base : base[i].k = e.k)
OptionsOnly ==
  at = 0 => \A x \in DOMAIN Ref : \A n \in DOMAIN Ref[x][1] :
    LET p(o) == Ref[x][o][n] IN
    /\ \A o \in 2..4 : Len(Ref[x][o]) = Len(Ref[x][1]) /\ p(o).k = p(1).k /\ p(o).r = p(1).r
    /\ p(1).s = p(2).s /\ p(3).s = p(4).s /\ p(1).b = p(3).b /\ p(2).b = p(4).b
    /\ \A i \in DOMAIN p(1).b : p(1).b[i].f = 0
    /\ AsIs(Plain(p(2).b, p(1).b)) = AsIs(p(1).b)
=============================================================================
