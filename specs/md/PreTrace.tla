------------------------------- MODULE PreTrace -------------------------------
(* Recorded executions of the real preprocessor (TRACES: a JSON file), each of
   which has to be a behaviour of Preprocess.tla that ends with the page shown.
   For every trace and number of events that can be accepted, AT is printed.

   A record: [page, beh, events]; an event: [e |-> "new", dir], [e |-> "run",
   dir, code, op, before, after], [e |-> "end", dir, op], or, in the end,
   [e |-> "page", shown] or [e |-> "error", blames (the programs it mentions),
   alive (number of runs that are still there)].                              *)
EXTENDS PreModel, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i
tvars == <<vars, tid, i>>

P(t) == [b \in DOMAIN Traces[t].page |-> [Traces[t].page[b] EXCEPT !.cfg = Range(@)]]
TInit == \E t \in DOMAIN Traces :
  /\ tid = t /\ i = 1 /\ phase = "run" /\ page = P(t) /\ beh = Traces[t].beh
  /\ dir = [b \in DOMAIN page |-> 0] /\ disk = {} /\ resp = [b \in DOMAIN page |-> {}] /\ outcome = "none"
  /\ st = [b \in DOMAIN page |-> [op \in Range(page[b].ops) |-> "todo"]]

E == Traces[tid].events[i]
Is(e) == i <= Len(Traces[tid].events) /\ E.e = e /\ i' = i + 1 /\ tid' = tid
\* A project is there and has no block's program in it yet: which block it is for turns out when it is used.
TNew == Is("new") /\ (\A x \in disk : x[1] # E.dir) /\ disk' = disk \cup {<<E.dir, 0>>} /\ UNCHANGED <<phase, page, beh, dir, st, resp, outcome>>
\* The first run in a project: the block has got it, and its program is in it.
TFirst == /\ Is("run") /\ <<E.dir, 0>> \in disk
          /\ \E b \in DOMAIN page :
               /\ dir[b] = 0 /\ All(b, "todo") /\ E.op \in DOMAIN st[b]
               /\ page[b].code = E.code /\ E.before = Before(page[b]) /\ E.after = After(page[b], E.op)
               /\ dir' = [dir EXCEPT ![b] = E.dir] /\ disk' = (disk \ {<<E.dir, 0>>}) \cup {<<E.dir, E.code>>}
               /\ st' = [st EXCEPT ![b][E.op] = "running"]
          /\ UNCHANGED <<phase, page, beh, resp, outcome>>
TBegin == /\ Is("run") /\ \E b \in DOMAIN page : /\ dir[b] = E.dir /\ E.op \in DOMAIN st[b] /\ Begin(b, E.op)
                                                 /\ E.code = page[b].code /\ E.before = Before(page[b]) /\ E.after = After(page[b], E.op)
TEnd == Is("end") /\ \E b \in DOMAIN page : dir[b] = E.dir /\ E.op \in DOMAIN st[b] /\ End(b, E.op)
\* Not to be seen: a run whose time is over, an answer from the cache.
THidden == /\ i <= Len(Traces[tid].events) /\ UNCHANGED <<i, tid>>
           /\ \E b \in DOMAIN page : \/ \E op \in DOMAIN st[b] : TimeOver(b, op)
                                     \/ \E c \in DOMAIN page : FromCache(b, c)
TPage == Is("page") /\ Succeed /\ \A b \in DOMAIN page : Range(E.shown[b]) = resp[b] /\ Len(E.shown[b]) = Cardinality(resp[b])
Attributable(b) == \E op \in DOMAIN st[b] : st[b][op] = "bad" /\ beh[page[b].code][op] \notin NoBlame
TError == /\ Is("error") /\ Fail /\ E.alive = 0
          /\ \E b \in DOMAIN page : Bad(b) /\ (Attributable(b) => page[b].code \in Range(E.blames))
TNext == TNew \/ TFirst \/ TBegin \/ TEnd \/ THidden \/ TPage \/ TError
TSpec == TInit /\ [][TNext]_tvars
At == PrintT("AT " \o ToString(tid) \o " " \o ToString(i))
=============================================================================
