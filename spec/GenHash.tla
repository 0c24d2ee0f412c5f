------------------------------ MODULE GenHash ------------------------------
(***************************************************************************)
(* Generates behaviours of the object store for execution against the      *)
(* library: which objects exist, what is done to them, and by how much     *)
(* each update advances the buffer (as a class, scaled to the algorithm's  *)
(* block size by the harness):                                             *)
(*   e nothing   s stays within the block   f fills it exactly             *)
(*   x crosses its end   l two blocks and more                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Names, Depth, Classes
VARIABLES live, beh
Init == live = {0} /\ beh = << [op |-> "N", o |-> 0] >>
Do(e) == beh' = Append(beh, e)
Upd(o,c) == o \in live /\ Do([op |-> "U", o |-> o, c |-> c]) /\ UNCHANGED live
Res(o) == o \in live /\ Do([op |-> "R", o |-> o]) /\ UNCHANGED live
Copy(o,p) == o \in live /\ Do([op |-> "C", o |-> o, p |-> p]) /\ live' = live \cup {p}
Move(o,p) == o \in live /\ p # o /\ Do([op |-> "M", o |-> o, p |-> p]) /\ live' = (live \cup {p}) \ {o}
Make(o) == o \notin live /\ Do([op |-> "N", o |-> o]) /\ live' = live \cup {o}
Free(o) == o \in live /\ live # {o} /\ Do([op |-> "F", o |-> o]) /\ live' = live \ {o}
Next == /\ Len(beh) < Depth
        /\ \/ \E o \in Names : \/ \E c \in Classes : Upd(o,c)
                               \/ Res(o) \/ Make(o) \/ Free(o)
                               \/ \E p \in Names : Copy(o,p) \/ Move(o,p)
Spec == Init /\ [][Next]_<<live,beh>>
(* emit a behaviour when it is complete *)
Emit == Len(beh) = Depth => PrintT("BEH " \o ToJson(beh))
=============================================================================
