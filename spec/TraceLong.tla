----------------------------- MODULE TraceLong -----------------------------
(***************************************************************************)
(* TraceHash with one more action: absorbing a very long message, the      *)
(* pattern of LongStates, in any division.  The successor state is the     *)
(* specification's streaming state after that message: its chaining value  *)
(* is tabulated, its count is the full 64-bit one.  What the object does   *)
(* afterwards (padding, length fields, further results) is HashObjects'.   *)
(***************************************************************************)
EXTENDS TraceHash, LongStates

BlockOf(a) == Nat64(BlockSize(a))
Plain(a, j) == [a |-> a, h |-> LongState[a][j].h, buf |-> LongState[a][j].buf, n |-> LongAt[j]]
AfterLong(a, j) ==
  IF a \in HmacAlgs
  THEN LET k == HmacKeyed(a, <<>>) H == HmacOf[a]
       IN [k EXCEPT !.inner = [a |-> H, h |-> LongState[a][j].h, buf |-> LongState[a][j].buf, n |-> Add64(BlockOf(H), LongAt[j])]]
  ELSE Plain(a, j)

(* from the state after the first Ev.pre bytes of the pattern, or from an earlier tabulated one *)
TLong ==
  /\ IsEvent("long")
  /\ Ev.o \in DOMAIN objs
  /\ LET st == objs[Ev.o] a == st.a IN
     /\ \/ st = Update(New(a), SubSeq(LongHead, 1, Ev.pre))
        \/ \E i \in 1..(Ev.j - 1) : st = AfterLong(a, i)
     /\ objs' = [objs EXCEPT ![Ev.o] = AfterLong(a, Ev.j)]
  /\ UNCHANGED <<hist, last>>

(* the table is the specification's where the specification can be run *)
ASSUME LongAt[1] = Nat64(2304) /\ Len(LongHead) = 2304
ASSUME \A a \in DOMAIN LongState : Update(New(a), LongHead) = AfterLong(a, 1)

LNext == TNext \/ TLong
LSpec == TInit /\ [][LNext]_tvars
=============================================================================
