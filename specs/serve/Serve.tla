-------------------------------- MODULE Serve --------------------------------
(* The playground server: any number of requests at a time, each of which gets a
   project of its own, in which the analysis is run on the request's program.
   A run ends by itself (when its gate is open: `open` are the programs whose
   runs may end), or is ended when its time is over or its requester has left.
   After that nothing of the request is left: neither project nor process.
   The requests of a behaviour are composed first (phase "choose").

   hist records what happened in one behaviour: it is replayed against the real
   server (tools/check_serve.py), and ServeTrace.tla checks what was seen there. *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS Programs, Behs, Kinds, Odds, MaxReqs, Printing

Ops == {"permissions", "interpreter"}      \* the other kinds are no requests for an analysis
Hangs == {"hang", "hangtree"}
\* What a run prints on standard output: a result, something else, or nothing but white space.
Prints(beh) == CASE beh \in {"ok", "slow", "big", "bigerr", "nonutf8err", "both"} -> "result"
                 [] beh \in {"garbage", "nonutf8", "err", "build"} -> "text"
                 [] OTHER -> "nothing"

VARIABLES beh,      \* program -> what its runs do
          reqs,     \* the requests, in the order they are sent: [kind, code, odd]
          st,       \* per request: "todo", "sent", "made", "running", "ended", "late", "answered", "left"
          dir,      \* per request: its project, or 0
          disk,     \* set of <<project, program>>
          procs,    \* set of <<project, request>>: runs
          open, answer, hist, phase
vars == <<beh, reqs, st, dir, disk, procs, open, answer, hist, phase>>
None == [ok |-> FALSE, what |-> "none", code |-> 0, op |-> ""]

\* Behs, Kinds and Odds are sequences: what is there twice is chosen twice as often.  What may be odd about a request:
\* "fail" (the option shouldFail), "bad" (no project can be created for it), "leave" (its requester does not wait).
Init == /\ phase = "choose" /\ beh = [p \in Programs |-> "?"] /\ reqs = <<>> /\ st = <<>> /\ dir = <<>> /\ disk = {} /\ procs = {}
        /\ open = {} /\ answer = <<>> /\ hist = <<>>
Chosen == \A q \in Programs : beh[q] # "?"
Choose == /\ phase = "choose" /\ ~Chosen
          /\ \E p \in Programs : beh[p] = "?" /\ (\A q \in Programs : beh[q] = "?" => q >= p) /\ \E i \in DOMAIN Behs : beh' = [beh EXCEPT ![p] = Behs[i]]
          /\ UNCHANGED <<phase, reqs, st, dir, disk, procs, open, answer, hist>>
Compose == /\ phase = "choose" /\ Chosen /\ Len(reqs) < MaxReqs
           /\ \E k \in DOMAIN Kinds, c \in Programs, o \in DOMAIN Odds :
                 reqs' = Append(reqs, [kind |-> Kinds[k], code |-> c, odd |-> IF Kinds[k] \in Ops THEN Odds[o] ELSE ""])
           /\ UNCHANGED <<phase, beh, st, dir, disk, procs, open, answer, hist>>
Begin == /\ phase = "choose" /\ Len(reqs) = MaxReqs /\ phase' = "run"
         /\ st' = [r \in DOMAIN reqs |-> "todo"] /\ dir' = [r \in DOMAIN reqs |-> 0] /\ answer' = [r \in DOMAIN reqs |-> None]
         /\ UNCHANGED <<reqs, beh, disk, procs, open, hist>>

Rec(x) == hist' = IF Printing THEN Append(hist, x) ELSE hist
Valid(r) == reqs[r].kind \in Ops
Going(r) == st[r] \in {"sent", "made", "running", "ended", "late"}

Send(r) == /\ phase = "run" /\ st[r] = "todo" /\ (\A q \in DOMAIN reqs : q < r => st[q] # "todo")
           /\ st' = [st EXCEPT ![r] = "sent"] /\ Rec(<<"send", r>>)
           /\ UNCHANGED <<beh, reqs, dir, disk, procs, open, answer, phase>>
NewFails(r) == reqs[r].odd = "bad"
Make(r, d) == /\ phase = "run" /\ st[r] = "sent" /\ Valid(r) /\ ~NewFails(r) /\ \A x \in disk : x[1] # d
              /\ st' = [st EXCEPT ![r] = "made"] /\ dir' = [dir EXCEPT ![r] = d] /\ disk' = disk \cup {<<d, 0>>}
              /\ UNCHANGED <<beh, reqs, procs, open, answer, hist, phase>>
Run(r) == /\ phase = "run" /\ st[r] = "made"
          /\ disk' = (disk \ {<<dir[r], 0>>}) \cup {<<dir[r], reqs[r].code>>}
          /\ procs' = procs \cup {<<dir[r], r>>} /\ st' = [st EXCEPT ![r] = "running"]
          /\ Rec(<<"run", r>>)
          /\ UNCHANGED <<beh, reqs, dir, open, answer, phase>>
In(r) == (CHOOSE x \in disk : x[1] = dir[r])[2]
Open(c) == /\ phase = "run" /\ c \notin open /\ (\E r \in DOMAIN reqs : reqs[r].code = c /\ st[r] = "running") /\ beh[c] \notin Hangs
           /\ open' = open \cup {c} /\ Rec(<<"open", c>>)
           /\ UNCHANGED <<beh, reqs, st, dir, disk, procs, answer, phase>>
End(r) == /\ phase = "run" /\ st[r] = "running" /\ In(r) \in open /\ beh[In(r)] \notin Hangs
          /\ st' = [st EXCEPT ![r] = "ended"] /\ procs' = procs \ {<<dir[r], r>>}
          /\ UNCHANGED <<beh, reqs, dir, disk, open, answer, hist, phase>>
TimeOver(r) == /\ phase = "run" /\ st[r] = "running" /\ beh[In(r)] \in Hangs
               /\ st' = [st EXCEPT ![r] = "late"] /\ procs' = procs \ {<<dir[r], r>>}
               /\ UNCHANGED <<beh, reqs, dir, disk, open, answer, hist, phase>>
\* The result of the run, or an error.
Answer(r) == /\ phase = "run" /\ (st[r] \in {"ended", "late"} \/ (st[r] = "sent" /\ (~Valid(r) \/ NewFails(r))))
             /\ answer' = [answer EXCEPT ![r] = IF st[r] = "ended"
                                                THEN [ok |-> Prints(beh[In(r)]) # "nothing", what |-> Prints(beh[In(r)]), code |-> In(r), op |-> reqs[r].kind]
                                                ELSE [None EXCEPT !.what = "error"]]
             /\ st' = [st EXCEPT ![r] = "answered"] /\ disk' = {x \in disk : x[1] # dir[r]}
             /\ Rec(<<"answer", r>>)
             /\ UNCHANGED <<beh, reqs, dir, procs, open, phase>>
Leave(r) == /\ phase = "run" /\ st[r] = "running" /\ reqs[r].odd = "leave"
            /\ st' = [st EXCEPT ![r] = "left"] /\ disk' = {x \in disk : x[1] # dir[r]} /\ procs' = procs \ {<<dir[r], r>>}
            /\ Rec(<<"leave", r>>)
            /\ UNCHANGED <<beh, reqs, dir, open, answer, phase>>
Over == /\ phase = "run" /\ (\A r \in DOMAIN reqs : st[r] \in {"answered", "left"}) /\ phase' = "over"
        /\ UNCHANGED <<beh, reqs, st, dir, disk, procs, open, answer, hist>>

Step(r) == Make(r, Cardinality({dir[q] : q \in DOMAIN dir} \cup {0})) \/ Run(r) \/ End(r) \/ TimeOver(r) \/ Answer(r)
Next == \/ Choose \/ Compose \/ Begin \/ Over \/ (\E c \in Programs : Open(c))
        \/ \E r \in 1..MaxReqs : r \in DOMAIN st /\ (Send(r) \/ Step(r) \/ Leave(r))
Spec == Init /\ [][Next]_vars /\ \A r \in 1..MaxReqs : WF_vars(r \in DOMAIN st /\ Step(r)) /\ \A c \in Programs : WF_vars(Open(c))

----------------------------------------------------------------------------
\* An answer is what a run of the requested analysis on the request's own program printed.
OwnAnswer == \A r \in DOMAIN answer : answer[r].what \in {"result", "text", "nothing"} => answer[r].code = reqs[r].code /\ answer[r].op = reqs[r].kind
Success == \A r \in DOMAIN answer : st[r] = "answered" => (answer[r].ok <=> answer[r].what \in {"result", "text"})
Separate == \A r, q \in DOMAIN dir : r # q /\ dir[r] # 0 => dir[r] # dir[q]
NothingLeft == /\ \A x \in procs : st[x[2]] = "running" /\ dir[x[2]] = x[1]
               /\ \A x \in disk : \E r \in DOMAIN reqs : Going(r) /\ dir[r] = x[1]
\* Every request is answered, unless its requester leaves.
In1(r, S) == r \in DOMAIN st /\ st[r] \in S
Answered == \A r \in 1..MaxReqs : []((In1(r, {"sent"})) => <>In1(r, {"answered", "left"}))

Emit == (Printing /\ phase = "over") => PrintT("CASE " \o ToJson([text |-> <<beh, reqs, hist>>]))
=============================================================================
