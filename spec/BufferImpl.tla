----------------------------- MODULE BufferImpl -----------------------------
(***************************************************************************)
(* The buffering scheme the block hashes of the library share: a buffer of *)
(* B cells of which the first m are pending, filled first, then whole      *)
(* blocks straight from the caller's memory, then the remainder buffered.  *)
(* The compression function is free: the chaining value is the sequence of *)
(* blocks compressed.  Refines AbstractStream; after result() no cell of   *)
(* the buffer holds a message byte (C07).                                  *)
(*                                                                         *)
(* Mutant selects a defect; TLC must refute each of them (vacuity check).  *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS B, LF, W, MaxChunk, MaxTotal, MaxResults, Mutant

VARIABLES cells, m, n, h, fed, out, results
vars == <<cells, m, n, h, fed, out, results>>

Sym(i) == <<"d", i>>
Cells0 == [i \in 1..B |-> <<"z",0>>]

(* write s into the cells from position at (0-based) *)
Blit(c, at, s) == [i \in 1..B |-> IF i > at /\ i <= at + Len(s) THEN s[i-at] ELSE c[i]]
Sub(s, i, k) == SubSeq(s, i+1, i+k)         \* k elements from offset i

RECURSIVE Blocks(_,_)
Blocks(hh, s) == IF Len(s) < B THEN <<hh, s>> ELSE Blocks(Append(hh, Sub(s,0,B)), Sub(s,B,Len(s)-B))

Min(a,b) == IF a < b THEN a ELSE b
(* the state after absorbing s: [c, m, n, h] *)
Absorb(st, s) ==
  IF Len(s) = 0 THEN st ELSE
  LET n2 == IF Mutant = "count" /\ Len(s) >= B THEN (st.n + B) % W
            ELSE IF Mutant = "narrow" THEN (st.n + Len(s)) % (W \div 2)
            ELSE IF Mutant = "narrowlen" THEN (st.n + (Len(s) % B)) % W
            ELSE (st.n + Len(s)) % W
      k == Min(Len(s), B - st.m)
      c1 == IF st.m > 0 THEN Blit(st.c, st.m, Sub(s,0,k)) ELSE st.c
      m1 == IF st.m > 0 THEN st.m + k ELSE 0
      rest == IF st.m > 0 THEN Sub(s,k,Len(s)-k) ELSE s
  IN IF st.m > 0 /\ m1 < B
     THEN [c |-> c1, m |-> m1, n |-> n2, h |-> st.h]
     ELSE LET h1 == IF m1 = B THEN Append(st.h, c1) ELSE st.h
              c2 == IF m1 = B /\ Mutant # "noclear" THEN Cells0 ELSE c1
              bl == Blocks(h1, rest)
              tail == IF Mutant = "lasttail" /\ Len(bl[2]) = B-1 THEN Sub(bl[2],0,B-2) \o << <<"z",0>> >> ELSE bl[2]
          IN [c |-> Blit(c2, 0, tail), m |-> Len(tail), n |-> n2, h |-> bl[2-1]]

Init == cells = Cells0 /\ m = 0 /\ n = 0 /\ h = <<>> /\ fed = 0 /\ out = <<>> /\ results = 0
State == [c |-> cells, m |-> m, n |-> n, h |-> h]

Update(k) ==
  /\ fed + k <= MaxTotal
  /\ LET st == Absorb(State, [i \in 1..k |-> Sym(fed + i)]) IN
     /\ cells' = st.c /\ m' = st.m /\ n' = st.n /\ h' = st.h
  /\ fed' = fed + k /\ out' = <<>> /\ UNCHANGED results

(* result(): the length field is of the count before the padding *)
Fill(k) == [i \in 1..k |-> <<"z",0>>]
LengthField(x) == [i \in 1..LF |-> <<"L", i, x % W>>]
Result ==
  /\ results < MaxResults
  /\ LET len == LengthField(n)
         room == IF Mutant = "padroom" THEN B - LF ELSE B - LF - 1   \* highest m for which all fits in this block
         z == IF m <= room THEN B - LF - 1 - m ELSE 2*B - LF - 1 - m
         padding == << <<"p",0>> >> \o Fill(IF z < 0 THEN 0 ELSE z)
         s1 == Absorb(State, padding)
         s2 == Absorb(s1, len)
     IN /\ cells' = (IF Mutant = "noerase" THEN Blit(s2.c, 0, Sub(cells,0,m)) ELSE s2.c)
        /\ m' = s2.m /\ h' = s2.h
        /\ n' = (IF Mutant = "keepcount" THEN n ELSE s2.n)
        /\ out' = s2.h
  /\ results' = results + 1 /\ UNCHANGED fed

Next == (\E k \in 0..MaxChunk : Update(k)) \/ Result
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
RECURSIVE Flatten(_)
Flatten(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flatten(Tail(s))
Abs == INSTANCE AbstractStream WITH msg <- Flatten(h) \o Sub(cells,0,m), out <- Flatten(out)
Refines == Abs!Spec

TypeOK == m \in 0..(B-1) /\ n \in 0..(W-1) /\ DOMAIN cells = 1..B
CountRight == m = n % B
(* no message byte stays in the object after result() *)
Erased == out # <<>> => \A i \in 1..B : cells[i][1] # "d"
=============================================================================
