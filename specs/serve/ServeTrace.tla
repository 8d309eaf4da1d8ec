------------------------------ MODULE ServeTrace ------------------------------
(* What was seen of the real server (TRACES: a JSON file of histories), each of
   which has to be a behaviour of Serve.tla.  For every history and number of
   events that can be accepted, AT is printed.

   Events, with the time t in ms: send r, new dir, run dir code op before, end
   dir, open code, leave r, answer r (status, ok: the answer says success, what:
   what it shows, code and op of the result it shows), look (dirs, procs: what
   projects are there, and in which ones runs are going on; 0: unknown).       *)
EXTENDS ServeModel, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i, began, sent    \* when the analysis of a request began, and when it was sent
tvars == <<vars, tid, i, began, sent>>

TInit == \E t \in DOMAIN Traces :
  /\ tid = t /\ i = 1 /\ phase = "run" /\ beh = Traces[t].beh /\ reqs = Traces[t].reqs
  /\ st = [r \in DOMAIN reqs |-> "todo"] /\ dir = [r \in DOMAIN reqs |-> 0] /\ answer = [r \in DOMAIN reqs |-> None]
  /\ disk = {} /\ procs = {} /\ open = {} /\ hist = <<>> /\ began = [r \in DOMAIN reqs |-> 0] /\ sent = began

E == Traces[tid].events[i]
Is(e) == /\ i <= Len(Traces[tid].events) /\ E.e = e /\ i' = i + 1 /\ tid' = tid
         /\ sent' = IF e = "send" THEN [sent EXCEPT ![E.r] = E.t] ELSE sent
Before(r) == IF reqs[r].odd = "fail" THEN IF reqs[r].kind = "interpreter" THEN {<<"--should-fail">>} ELSE {<<>>, <<"--should-fail">>} ELSE {<<>>}
TSend == Is("send") /\ Send(E.r) /\ UNCHANGED began
\* For which request a project is turns out when the analysis runs in it.
TNew == Is("new") /\ (\A x \in disk : x[1] # E.dir) /\ disk' = disk \cup {<<E.dir, 0>>}
        /\ UNCHANGED <<beh, reqs, st, dir, procs, open, answer, hist, phase, began>>
TRun == /\ Is("run") /\ <<E.dir, 0>> \in disk
        /\ \E r \in DOMAIN reqs :
             /\ st[r] = "sent" /\ Valid(r) /\ ~NewFails(r) /\ reqs[r].kind = E.op /\ reqs[r].code = E.code /\ E.before \in Before(r)
             /\ dir' = [dir EXCEPT ![r] = E.dir] /\ disk' = (disk \ {<<E.dir, 0>>}) \cup {<<E.dir, E.code>>}
             /\ procs' = procs \cup {<<E.dir, r>>} /\ st' = [st EXCEPT ![r] = "running"] /\ began' = [began EXCEPT ![r] = E.t]
        /\ UNCHANGED <<beh, reqs, open, answer, hist, phase>>
TEnd == Is("end") /\ \E r \in DOMAIN reqs : dir[r] = E.dir /\ IF st[r] = "left" THEN UNCHANGED vars /\ UNCHANGED began ELSE End(r) /\ UNCHANGED began
TOpen == Is("open") /\ open' = open \cup {E.code} /\ UNCHANGED <<beh, reqs, st, dir, disk, procs, answer, hist, phase, began>>
TLeave == /\ Is("leave") /\ Going(E.r) /\ st' = [st EXCEPT ![E.r] = "left"]
          /\ disk' = {x \in disk : x[1] # dir[E.r]} /\ procs' = {x \in procs : x[2] # E.r}
          /\ UNCHANGED <<beh, reqs, dir, open, answer, hist, phase, began>>
TAnswer == /\ Is("answer") /\ Answer(E.r) /\ UNCHANGED began /\ E.ok = answer'[E.r].ok
           /\ (st[E.r] = "ended" => /\ E.what = answer'[E.r].what /\ E.status = 200
                                    /\ (E.what = "result" => E.code = answer'[E.r].code /\ E.op = answer'[E.r].op))
           /\ (st[E.r] = "sent" => (reqs[E.r].kind = "hi" <=> E.what = "hi") /\ (reqs[E.r].kind = "nowhere" => E.status = 404) /\ (NewFails(E.r) => E.status >= 400))
\* Too late: an error, neither too early nor much later.  (What ends in the very moment can be late.)
TLate == /\ Is("answer") /\ st[E.r] \in {"running", "ended"} /\ ~E.ok /\ E.status >= 400 /\ E.t - sent[E.r] >= 19990 /\ E.t - began[E.r] <= 40000
         /\ st' = [st EXCEPT ![E.r] = "answered"] /\ disk' = {x \in disk : x[1] # dir[E.r]} /\ procs' = {x \in procs : x[2] # E.r}
         /\ answer' = [answer EXCEPT ![E.r].what = "error"]
         /\ UNCHANGED <<beh, reqs, dir, open, hist, phase, began>>
TLook == /\ Is("look") /\ UNCHANGED vars /\ UNCHANGED began
         /\ \A d \in Range(E.dirs) : IF d = 0 THEN \E r \in DOMAIN reqs : st[r] = "sent" ELSE \E x \in disk : x[1] = d
         /\ \A d \in Range(E.procs) : \E r \in DOMAIN reqs : dir[r] = d /\ st[r] \in {"running", "ended"}
TNext == TSend \/ TNew \/ TRun \/ TEnd \/ TOpen \/ TLeave \/ TAnswer \/ TLate \/ TLook
TSpec == TInit /\ [][TNext]_tvars
NothingLeftT == /\ \A x \in procs : st[x[2]] = "running" /\ dir[x[2]] = x[1]
                /\ \A x \in disk : x[2] = 0 \/ \E r \in DOMAIN reqs : Going(r) /\ dir[r] = x[1]
At == PrintT("AT " \o ToString(tid) \o " " \o ToString(i))
=============================================================================
