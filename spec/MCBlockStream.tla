--------------------------- MODULE MCBlockStream ---------------------------
(***************************************************************************)
(* BlockStream (the machine HashAlg's algorithms are built on) with a free *)
(* compression function refines AbstractStream, for every sequence of      *)
(* chunk lengths; and it agrees with the whole-message fold.               *)
(***************************************************************************)
EXTENDS Words, SequencesExt
CONSTANTS B, LF, W, MaxChunk, MaxTotal, MaxResults
VARIABLES st, fed, out, results
BS == INSTANCE BlockStream WITH Comp <- LAMBDA h, s, off : Append(h, SubSeq(s, off+1, off+B))
Abs0 == INSTANCE AbstractStream WITH msg <- <<>>      \* for Pad and Sym only

Init == st = [h |-> <<>>, buf |-> <<>>, n |-> Zero64] /\ fed = 0 /\ out = <<>> /\ results = 0
Count == st.n[1]
Update(k) ==
  /\ fed + k <= MaxTotal
  /\ st' = BS!Absorb(st, [i \in 1..k |-> Abs0!Sym(fed + i)])
  /\ fed' = fed + k /\ out' = <<>> /\ UNCHANGED results
Result ==
  /\ results < MaxResults
  /\ LET z == (2*B - LF - 1 - Len(st.buf)) % B
         pad == << <<"p",0>> >> \o [i \in 1..z |-> <<"z",0>>] \o Abs0!LengthField(Count)
     IN st' = BS!Absorb(st, pad)
  /\ out' = st'.h
  /\ results' = results + 1 /\ UNCHANGED fed
Next == (\E k \in 0..MaxChunk : Update(k)) \/ Result
Spec == Init /\ [][Next]_<<st, fed, out, results>>

Flat(s) == FlattenSeq(s)
Abs == INSTANCE AbstractStream WITH msg <- Flat(st.h) \o st.buf, out <- Flat(out)
Refines == Abs!Spec
BufShort == Len(st.buf) < B /\ Len(st.buf) = Count % B
Whole == Abs!WholeBlocks
(* the incremental state is the fold over the whole message *)
FoldAgrees == LET msg == Flat(st.h) \o st.buf
              IN BS!FoldBlocks(<<>>, msg) = st.h /\ BS!Rest(msg) = st.buf
=============================================================================
