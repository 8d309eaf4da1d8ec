------------------------------ MODULE Preprocess ------------------------------
(* How the blocks of one page are analysed, any number of them at a time.

   Each block gets a project of its own, its program is written into it, and the
   analysis command is run in it once per operation; a run ends by itself or is
   ended when its time is over.  A block with the key of a block that is already
   done may be answered from the cache.  The page shows every block's responses,
   or fails with the error of a block that failed.

   disk says what program is in a project, so that a run sees what is really
   there.  Pages are composed in the beginning (phase "compose"), for simulation
   and for exhaustive checking alike; PreTrace.tla instead takes the page and the
   events from a recorded execution of the real preprocessor.                  *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS Codes,        \* programs
          Behs,      \* behaviours to choose from (a sequence: repetitions make one more likely)
          OpLists,      \* lists of operations
          Cfgs,         \* sets of settings
          MaxBlocks,
          Printing

Ops == {"interpreter", "permissions"}

Good == {"ok", "slow", "long", "big", "bigerr", "nonutf8err", "odd"}
Hangs == {"hang"}
\* What cannot be attributed to a block by its message: output that is no result.
NoBlame == {"garbage", "empty", "nonutf8"}

\* The options of the command for an operation of a block: before and after the operation.
Before(bl) == IF "shouldFail" \in bl.cfg THEN <<"--should-fail">> ELSE <<>>
After(bl, op) == IF "showFlows" \in bl.cfg /\ op = "permissions" THEN <<"--show-flows">> ELSE <<>>

VARIABLES phase, page, beh,
          dir,      \* per block: its project, or 0
          disk,     \* set of <<project, program>>
          st,       \* per block: operation -> "todo", "running", "good", "bad"
          resp,     \* per block: set of responses
          outcome
vars == <<phase, page, beh, dir, disk, st, resp, outcome>>

Key(b) == page[b]
All(b, s) == \A op \in DOMAIN st[b] : st[b][op] = s
Bad(b) == \E op \in DOMAIN st[b] : st[b][op] = "bad"
Done(b) == All(b, "good")

Init == /\ phase = "compose" /\ page = <<>> /\ beh = [c \in Codes |-> [op \in Ops |-> "?"]]
        /\ dir = <<>> /\ disk = {} /\ st = <<>> /\ resp = <<>> /\ outcome = "none"

ChooseBeh == /\ phase = "compose"
             /\ \E c \in Codes, op \in Ops :
                  /\ beh[c][op] = "?" /\ \A c2 \in Codes, o2 \in Ops : beh[c2][o2] = "?" => c2 >= c /\ (c2 = c => o2 = op \/ op = "interpreter")
                  /\ \E i \in DOMAIN Behs : beh' = [beh EXCEPT ![c][op] = Behs[i]]
             /\ UNCHANGED <<phase, page, dir, disk, st, resp, outcome>>
Chosen == \A c \in Codes, op \in Ops : beh[c][op] # "?"
AddBlock == /\ phase = "compose" /\ Chosen /\ Len(page) < MaxBlocks
            /\ \E c \in Codes, o \in OpLists, s \in Cfgs : page' = Append(page, [code |-> c, ops |-> o, cfg |-> s])
            /\ UNCHANGED <<phase, beh, dir, disk, st, resp, outcome>>
Start == /\ phase = "compose" /\ page # <<>> /\ phase' = "run"
         /\ dir' = [b \in DOMAIN page |-> 0] /\ disk' = {} /\ resp' = [b \in DOMAIN page |-> {}]
         /\ st' = [b \in DOMAIN page |-> [op \in Range(page[b].ops) |-> "todo"]]
         /\ UNCHANGED <<page, beh, outcome>>

New(b, d) == /\ phase = "run" /\ dir[b] = 0 /\ All(b, "todo") /\ \A x \in disk : x[1] # d
             /\ dir' = [dir EXCEPT ![b] = d] /\ disk' = disk \cup {<<d, 0>>}
             /\ UNCHANGED <<phase, page, beh, st, resp, outcome>>
Write(b) == /\ phase = "run" /\ <<dir[b], 0>> \in disk
            /\ disk' = (disk \ {<<dir[b], 0>>}) \cup {<<dir[b], page[b].code>>}
            /\ UNCHANGED <<phase, page, beh, dir, st, resp, outcome>>
In(d) == (CHOOSE x \in disk : x[1] = d)[2]
Begin(b, op) == /\ phase = "run" /\ dir[b] # 0 /\ In(dir[b]) = page[b].code /\ st[b][op] = "todo" /\ ~Bad(b)
                /\ \A o2 \in DOMAIN st[b] : st[b][o2] # "running"
                /\ st' = [st EXCEPT ![b][op] = "running"]
                /\ UNCHANGED <<phase, page, beh, dir, disk, resp, outcome>>
Response(b, op) == [op |-> op, code |-> In(dir[b]), before |-> Before(page[b]), after |-> After(page[b], op)]
End(b, op) == /\ phase = "run" /\ st[b][op] = "running" /\ beh[In(dir[b])][op] \notin Hangs
              /\ IF beh[In(dir[b])][op] \in Good
                 THEN st' = [st EXCEPT ![b][op] = "good"] /\ resp' = [resp EXCEPT ![b] = @ \cup {Response(b, op)}]
                 ELSE st' = [st EXCEPT ![b][op] = "bad"] /\ resp' = resp
              /\ UNCHANGED <<phase, page, beh, dir, disk, outcome>>
TimeOver(b, op) == /\ phase = "run" /\ st[b][op] = "running" /\ beh[In(dir[b])][op] \in Hangs
                   /\ st' = [st EXCEPT ![b][op] = "bad"]
                   /\ UNCHANGED <<phase, page, beh, dir, disk, resp, outcome>>
FromCache(b, c) == /\ phase = "run" /\ b # c /\ Key(b) = Key(c) /\ All(b, "todo") /\ Done(c)
                   /\ st' = [st EXCEPT ![b] = st[c]] /\ resp' = [resp EXCEPT ![b] = resp[c]]
                   /\ UNCHANGED <<phase, page, beh, dir, disk, outcome>>
Succeed == /\ phase = "run" /\ (\A b \in DOMAIN page : Done(b)) /\ phase' = "over" /\ outcome' = "page"
           /\ UNCHANGED <<page, beh, dir, disk, st, resp>>
\* The page fails with the error of a failed block; what runs of others are left, nobody waits for.
Fail == /\ phase = "run" /\ (\E b \in DOMAIN page : Bad(b)) /\ phase' = "over" /\ outcome' = "error"
        /\ UNCHANGED <<page, beh, dir, disk, st, resp>>

Next == \/ ChooseBeh \/ AddBlock \/ Start \/ Succeed \/ Fail
        \/ \E b \in DOMAIN dir : New(b, Cardinality(disk) + 1) \/ Write(b) \/ \E c \in DOMAIN dir : FromCache(b, c)
        \/ \E b \in DOMAIN dir : \E op \in DOMAIN st[b] : Begin(b, op) \/ End(b, op) \/ TimeOver(b, op)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

----------------------------------------------------------------------------
\* A block shows what was computed on its own program, with its own options, under the operation.
OwnResult == \A b \in DOMAIN resp : \A r \in resp[b] :
               /\ r.code = page[b].code /\ r.op \in Range(page[b].ops) /\ beh[r.code][r.op] \in Good
               /\ r.before = Before(page[b]) /\ r.after = After(page[b], r.op)
Separate == \A b, c \in DOMAIN dir : b # c /\ dir[b] # 0 => dir[b] # dir[c]
\* Nothing is lost.
Complete == outcome = "page" => \A b \in DOMAIN page : {r.op : r \in resp[b]} = Range(page[b].ops) /\ Cardinality(resp[b]) = Len(page[b].ops)
\* The page fails iff a block does.
WillFail == \E b \in DOMAIN page : \E op \in Range(page[b].ops) : beh[page[b].code][op] \notin Good
RightOutcome == (outcome = "page" => ~WillFail) /\ (outcome = "error" => WillFail)
Ends == <>(phase = "over")

Emit == (Printing /\ phase = "run" /\ disk = {} /\ \A b \in DOMAIN page : All(b, "todo"))
          => PrintT("CASE " \o ToJson([text |-> <<page, [i \in DOMAIN page |-> SetToSeq(page[i].cfg)], beh>>, fails |-> WillFail]))
=============================================================================
