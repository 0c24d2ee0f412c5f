---------------------------- MODULE BlockStream ----------------------------
(***************************************************************************)
(* Absorbing a byte string block by block.  A streaming state is a record  *)
(*   h    chaining value: the complete blocks so far, compressed           *)
(*   buf  the bytes (fewer than B) that do not make a block yet            *)
(*   n    the number of bytes absorbed so far, as a 64-bit word            *)
(* The compression function is a parameter, so the same definitions are    *)
(* used with the real functions (conformance) and with a free, symbolic    *)
(* one (exhaustive checking, MCStream).                                    *)
(***************************************************************************)
EXTENDS Words, SequencesExt
CONSTANTS B, Comp(_,_,_)      \* Comp(h, s, off): compress s[off+1..off+B] into h

Absorb(st, bytes) ==
  LET all == st.buf \o bytes
      k == Len(all) \div B
      h == FoldLeft(LAMBDA g,i : TLCEval(Comp(g, all, (i-1)*B)), st.h, [i \in 1..k |-> i])
  IN [st EXCEPT !.h = h,
                !.buf = SubSeq(all, k*B+1, Len(all)),
                !.n = Add64(st.n, Nat64(Len(bytes)))]

(* The same thing over a whole message, non-incrementally. *)
FoldBlocks(h, m) == FoldLeft(LAMBDA g,i : TLCEval(Comp(g, m, (i-1)*B)), h, [i \in 1..(Len(m) \div B) |-> i])
Rest(m) == SubSeq(m, (Len(m) \div B)*B+1, Len(m))
=============================================================================
