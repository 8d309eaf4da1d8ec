-------------------------------- MODULE Skel --------------------------------
(* Bodies by the shape of their control flow: every sequence of these tokens that
   can be closed is the skeleton of a function.  The state is the skeleton so far
   and the stack of constructs that are open.  tools/cfg_gen.py writes a skeleton
   as Rust.

   simple   "s" a statement, "?" a use of the question mark, "letelse", "clos" a
            closure with a branch of its own
   opening  "if", "ifand", "ifor", "iflet", "while", "whilelet", "loop", "lab" (a
            labelled loop), "for", "mint", "mopt", "mtup", "mstr", "mguard" (matches of
            various kinds, the first arm), "blk" (a labelled block), "val" (an `if` as
            the value of a declaration)
   between  "else", "arm"
   jumps    "brk", "brkl", "cont", "contl", "brkb", "ret", "panic"
   "end"                                                                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Max, MaxDepth, Printing

Simple == {"s", "?", "letelse", "clos"}
Ifs == {"if", "ifand", "ifor", "iflet", "val"}
Loops == {"while", "whilelet", "loop", "lab", "for"}
Matches == {"mint", "mopt", "mtup", "mstr", "mguard"}
Opening == Ifs \cup Loops \cup Matches \cup {"blk"}
Jumps == {"brk", "brkl", "cont", "contl", "brkb", "ret", "panic"}

VARIABLES skel, stack, closed
vars == <<skel, stack, closed>>

Init == skel = <<>> /\ stack = <<>> /\ closed = FALSE
Size == Len(SelectSeq(skel, LAMBDA x : x # "end"))
Top == stack[Len(stack)]
Within(what) == \E i \in DOMAIN stack : stack[i] \in what
\* Nothing follows a jump within its construct.
Jumped == skel # <<>> /\ skel[Len(skel)] \in Jumps
Put(x) == skel' = Append(skel, x) /\ closed' = FALSE
Room == Size < Max /\ ~closed /\ ~Jumped

Plain == Room /\ \E x \in Simple : Put(x) /\ UNCHANGED stack
Open == Room /\ Len(stack) < MaxDepth /\ \E x \in Opening : Put(x) /\ stack' = Append(stack, x)
Jump == Room /\ UNCHANGED stack /\ \E x \in Jumps :
          /\ x \in {"brk", "cont"} => Within(Loops)
          /\ x \in {"brkl", "contl"} => Within({"lab"})
          /\ x = "brkb" => Within({"blk"})
          /\ Put(x)
Else == Size < Max /\ ~closed /\ stack # <<>> /\ Top \in Ifs
        /\ Put("else") /\ stack' = [stack EXCEPT ![Len(stack)] = "else"]
\* A match has as many arms as its kind.
Arm == Size < Max /\ ~closed /\ stack # <<>> /\ Top \in Matches /\ Put("arm") /\ UNCHANGED stack
End == stack # <<>> /\ ~closed /\ Put("end") /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
Close == stack = <<>> /\ ~closed /\ Size >= 1 /\ closed' = TRUE /\ UNCHANGED <<skel, stack>>
Next == Plain \/ Open \/ Jump \/ Else \/ Arm \/ End \/ Close
Spec == Init /\ [][Next]_vars

\* Ends match what they end.
Balanced == Len(SelectSeq(skel, LAMBDA x : x \in Opening)) - Len(SelectSeq(skel, LAMBDA x : x = "end")) = Len(stack)
Emit == (Printing /\ closed) => PrintT("CASE " \o ToJson([text |-> skel]))
=============================================================================
