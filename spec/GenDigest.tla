----------------------------- MODULE GenDigest -----------------------------
(* Behaviours of the digest store for execution: the abstract operations, with positions, buffer sizes
   and stream states as classes. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Names, Depth
VARIABLES live, beh
Init == live = {0} /\ \E k \in {"d","a"} : beh = << [op |-> "N", o |-> 0, c |-> k] >>
Do(o, s, c) == beh' = Append(beh, [op |-> s, o |-> o, c |-> c])
Ops == ({"S"} \X {"first","last","any","front","back","data","iter"}) \cup ({"F"} \X {"x"}) \cup ({"T"} \X {"zero","less","exact","more","one"})
       \cup ({"A"} \X {"exact","more"}) \cup ({"G"} \X {"x"}) \cup ({"O"} \X {"plain","narrow","wide","left","internal","flags"})
Next == /\ Len(beh) < Depth
        /\ \E o \in Names :
             \/ o \in live /\ UNCHANGED live /\ \E x \in Ops : Do(o, x[1], x[2])
             \/ live' = live \cup {o} /\ \E k \in {"d","a","t"} : Do(o, "N", k)
             \/ \E p \in Names : o \in live /\ live' = live \cup {p} /\ \E k \in {"c","a","m"} : Do(o, "C", ToString(p) \o k)
             \/ \E p \in live : o \in live /\ UNCHANGED live /\ Do(o, "E", ToString(p))
Spec == Init /\ [][Next]_<<live, beh>>
Emit == Len(beh) = Depth => PrintT("BEH " \o ToJson(beh))
=============================================================================
