-------------------------------- MODULE Cache --------------------------------
(* Builds of a book over its lifetime, and the cache they share.

   A build loads the cache file, processes the blocks of its pages (a block whose
   key is in the cache is answered from it, any other is analysed), and saves
   when all went well.  It can be killed at any moment, within the saving too;
   the cache file can be damaged between builds; the analysis itself can be out
   of order during a build.

   A key is what the analysis depends on: operations, settings and program.  A
   block adds the marks, which the page shows but the analysis never sees.

   disk is what is on the disk: "sure" are the keys that a loader will certainly
   find, "maybe" those it may find (after a crash within a save, or damage).  The
   recorded history of one run of this machine is printed and replayed in the
   real preprocessor, with real processes being killed (tools/check_cache.py). *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS Blocks,      \* block names
          MaxBuilds, MaxPages, MaxOnPage,
          Plans,       \* what may go wrong during a build: 0 killed running, 1 killed saving, 2 damaged afterwards, else nothing
          Printing

\* key of a block; whether its analysis fails: "no", "yes", "broken" (while the analysis is out of order)
Key == ("a" :> "a") @@ ("aMarked" :> "a") @@ ("aHidden" :> "a") @@ ("aFail" :> "aFail") @@ ("aPerm" :> "aPerm") @@ ("aBoth" :> "aBoth")
    @@ ("aFlows" :> "aFlows") @@ ("aOpt1" :> "aOpt1") @@ ("aOpt2" :> "aOpt2") @@ ("aOpSetting" :> "aOpSetting")
    @@ ("b" :> "b") @@ ("bad" :> "bad") @@ ("flaky" :> "flaky") @@ ("big" :> "big")
Fails(b, broken) == b = "bad" \/ (b = "flaky" /\ broken)

VARIABLES
  sure, maybe,       \* on disk
  phase,             \* "idle", "compose", "run", "save", "over"
  plan,              \* what may go wrong
  broken,            \* the analysis is out of order during this build
  pages,             \* pages of this build
  at,                \* <<page, block>> to be processed next
  mem,               \* keys in this build's cache for certain
  memMaybe,          \* keys that may be
  outs,              \* per page: what each block's place shows, or an error
  ran,               \* keys analysed for certain
  mayRun,            \* keys that may have been analysed
  hist               \* the builds so far

vars == <<sure, maybe, phase, plan, broken, pages, at, mem, memMaybe, outs, ran, mayRun, hist>>
work == <<phase, plan, broken, pages, at, mem, memMaybe, outs, ran, mayRun>>

Init == /\ sure = {} /\ maybe = {} /\ phase = "idle" /\ plan = 3 /\ broken = FALSE /\ pages = <<>> /\ at = <<1, 1>> /\ mem = {} /\ memMaybe = {}
        /\ outs = <<>> /\ ran = {} /\ mayRun = {} /\ hist = <<>>

Start == /\ phase = "idle" /\ Len(hist) < MaxBuilds
         /\ phase' = "compose" /\ plan' \in Plans /\ broken' \in BOOLEAN /\ pages' = <<<<>>>>
         /\ mem' = sure /\ memMaybe' = maybe \ sure /\ at' = <<1, 1>> /\ outs' = <<>> /\ ran' = {} /\ mayRun' = {}
         /\ UNCHANGED <<sure, maybe, hist>>
Last1 == pages[Len(pages)]
AddBlock == /\ phase = "compose" /\ Len(Last1) < MaxOnPage
            /\ \E b \in Blocks :
                 \* (Whether a flaky block fails is not known here if it may or may not be in the cache.)
                 /\ ~(broken /\ b = "flaky" /\ "flaky" \in maybe \ sure)
                 /\ pages' = [pages EXCEPT ![Len(pages)] = Append(@, b)]
            /\ UNCHANGED <<sure, maybe, phase, plan, broken, at, mem, memMaybe, outs, ran, mayRun, hist>>
AddPage == /\ phase = "compose" /\ Last1 # <<>> /\ Len(pages) < MaxPages /\ pages' = Append(pages, <<>>)
           /\ UNCHANGED <<sure, maybe, phase, plan, broken, at, mem, memMaybe, outs, ran, mayRun, hist>>
Go == /\ phase = "compose" /\ Last1 # <<>> /\ phase' = "run"
      /\ UNCHANGED <<sure, maybe, plan, broken, pages, at, mem, memMaybe, outs, ran, mayRun, hist>>

B == pages[at[1]][at[2]]
Step == IF at[2] < Len(pages[at[1]]) THEN <<at[1], at[2] + 1>> ELSE <<at[1] + 1, 1>>
Show(x) == outs' = Append(outs, <<at[1], B, x>>)
More == phase = "run" /\ at[1] <= Len(pages)

Hit == /\ More /\ Key[B] \in mem /\ Show("result") /\ at' = Step
       /\ UNCHANGED <<sure, maybe, phase, plan, broken, pages, mem, memMaybe, ran, mayRun, hist>>

\* The blocks of a page are processed together: if one fails, the others may or may not be analysed, and kept in mind.
PageFails == \E i \in DOMAIN pages[at[1]] : Fails(pages[at[1]][i], broken) /\ Key[pages[at[1]][i]] \notin mem
Analyse == /\ More /\ Key[B] \notin mem
           /\ at' = Step
           /\ IF Key[B] \in memMaybe \/ PageFails
              THEN mayRun' = mayRun \cup {Key[B]} /\ ran' = ran
              ELSE ran' = ran \cup {Key[B]} /\ mayRun' = mayRun
           /\ IF Fails(B, broken) THEN Show("error") /\ UNCHANGED <<mem, memMaybe>>
              ELSE /\ Show("result")
                   /\ IF PageFails THEN memMaybe' = memMaybe \cup {Key[B]} /\ mem' = mem
                                   ELSE mem' = mem \cup {Key[B]} /\ memMaybe' = memMaybe
           /\ UNCHANGED <<sure, maybe, phase, plan, broken, pages, hist>>

Failed == \E i \in DOMAIN outs : outs[i][3] = "error"
Record(how) == hist' = Append(hist, [pages |-> pages, broken |-> broken, how |-> how, upto |-> Len(outs), outs |-> outs,
                                     ran |-> ran, mayRun |-> mayRun, sure |-> sure, maybe |-> maybe])

\* All pages are done; nothing is saved if one of them failed.
GiveUp == /\ phase = "run" /\ at[1] > Len(pages) /\ Failed /\ Record("failed") /\ phase' = "idle"
          /\ UNCHANGED <<sure, maybe, plan, broken, pages, at, mem, memMaybe, outs, ran, mayRun>>
SaveBegin == /\ phase = "run" /\ at[1] > Len(pages) /\ ~Failed /\ phase' = "save"
             /\ UNCHANGED <<sure, maybe, plan, broken, pages, at, mem, memMaybe, outs, ran, mayRun, hist>>
SaveEnd == /\ phase = "save" /\ (plan = 1 => mem = sure) /\ phase' = "idle" /\ Record("completed")
           /\ sure' = mem /\ maybe' = memMaybe \cup mem
           /\ UNCHANGED <<plan, broken, pages, at, mem, memMaybe, outs, ran, mayRun>>

\* Killed while the block at hand is analysed: nothing changes on disk.
KilledRunning == /\ More /\ plan = 0 /\ Key[B] \notin mem /\ Key[B] \notin memMaybe /\ ~PageFails /\ Record("killed running")
                 /\ phase' = "idle" /\ UNCHANGED <<sure, maybe, plan, broken, pages, at, mem, memMaybe, outs, ran, mayRun>>
\* Killed within the saving: the old cache, the new one, or nothing that can be read.  Nothing is written if nothing is new.
KilledSaving == /\ phase = "save" /\ plan = 1 /\ mem # sure /\ Record("killed saving") /\ phase' = "idle"
                /\ sure' = {} /\ maybe' = maybe \cup mem \cup memMaybe
                /\ UNCHANGED <<plan, broken, pages, at, mem, memMaybe, outs, ran, mayRun>>
Damage == /\ phase = "idle" /\ plan = 2 /\ hist # <<>> /\ hist[Len(hist)].how # "damaged" /\ Len(hist) < MaxBuilds
          /\ sure' = {} /\ maybe' = maybe \cup sure
          /\ hist' = Append(hist, [pages |-> <<>>, broken |-> FALSE, how |-> "damaged", upto |-> 0, outs |-> <<>>, ran |-> {}, mayRun |-> {}, sure |-> sure, maybe |-> maybe])
          /\ UNCHANGED work

Over == phase = "idle" /\ Len(hist) >= MaxBuilds /\ phase' = "over" /\ UNCHANGED <<sure, maybe, plan, broken, pages, at, mem, memMaybe, outs, ran, mayRun, hist>>

Next == Start \/ AddBlock \/ AddPage \/ Go \/ Hit \/ Analyse \/ GiveUp \/ SaveBegin \/ SaveEnd \/ KilledRunning \/ KilledSaving \/ Damage \/ Over
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Fresh(b, br) == IF Fails(b, br) THEN "error" ELSE "result"

\* The cache never changes an answer.
SameAnswer == \A i \in DOMAIN outs : outs[i][3] \in {Fresh(outs[i][2], broken), Fresh(outs[i][2], FALSE)}
\* A failed analysis is never stored.
OnlyGood == "bad" \notin sure \cup maybe \cup mem
\* What a completed build saved is not analysed again by the next one, unless something happened to the file.
Reused == \A i \in 2..Len(hist) : hist[i - 1].how = "completed" /\ hist[i].how # "damaged"
            => hist[i].ran \cap {Key[hist[i - 1].outs[k][2]] : k \in DOMAIN hist[i - 1].outs} = {}
Emit == (Printing /\ phase = "over") => PrintT("CASE " \o ToJson([text |-> hist]))
=============================================================================
