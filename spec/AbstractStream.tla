--------------------------- MODULE AbstractStream ---------------------------
(***************************************************************************)
(* What a streaming hash object is for, with no buffer at all: a message,  *)
(* the bytes absorbed so far in order.  result() gives the blocks of the   *)
(* padded message and leaves the padded message absorbed (C05).            *)
(* Message bytes are tagged by the order in which they were passed in, so  *)
(* losing, repeating or exchanging any of them is a different state.       *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS B,          \* block size
          LF,         \* size of the length field
          W,          \* the byte count is modulo W
          MaxChunk, MaxTotal, MaxResults
VARIABLES msg,        \* everything absorbed, paddings included
          fed,        \* number of message bytes passed in so far
          out         \* blocks the latest result() was computed from, <<>> if none

Sym(i) == <<"d", i>>
Fill(n) == [i \in 1..n |-> <<"z",0>>]
LengthField(n) == [i \in 1..LF |-> <<"L", i, n % W>>]
(* 0x80, then zeroes until only the length field is missing *)
Pad(n) == << <<"p",0>> >> \o Fill((2*B - LF - 1 - (n % B)) % B) \o LengthField(n)

Init == msg = <<>> /\ fed = 0 /\ out = <<>>
Update(k) ==
  /\ fed + k <= MaxTotal
  /\ msg' = msg \o [i \in 1..k |-> Sym(fed + i)]
  /\ fed' = fed + k
  /\ out' = <<>>
Result ==
  /\ msg' = msg \o Pad(Len(msg))
  /\ out' = msg'
  /\ UNCHANGED fed
Next == (\E k \in 0..MaxChunk : Update(k)) \/ Result
Spec == Init /\ [][Next]_<<msg, fed, out>>
(* a result is always computed from whole blocks *)
WholeBlocks == Len(out) % B = 0
=============================================================================
