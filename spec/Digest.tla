------------------------------- MODULE Digest -------------------------------
(***************************************************************************)
(* digest<N>: objects that hold N bytes, and their textual forms.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

VARIABLE ds        \* object name -> its bytes

DInit == ds = [o \in {} |-> <<>>]
Bind(o, b) == ds' = [x \in DOMAIN ds \cup {o} |-> IF x = o THEN b ELSE ds[x]]

Default(o, n) == Bind(o, [i \in 1..n |-> 0])
FromArray(o, b) == Bind(o, b)
Copy(o, p) == Bind(p, ds[o])                      \* construction or assignment, also to itself
Set(o, i, b) == Bind(o, [ds[o] EXCEPT ![i+1] = b])
Fill(o, b) == Bind(o, [i \in DOMAIN ds[o] |-> b]) \* through begin() and end()

Equal(o, p) == ds[o] = ds[p]

(* characters, as codes *)
HexDigit(x) == IF x < 10 THEN 48 + x ELSE 87 + x
Text(b) == [k \in 1..2*Len(b) |-> HexDigit(IF k % 2 = 1 THEN b[(k+1) \div 2] \div 16 ELSE b[k \div 2] % 16)]

(* to_chars into the n characters after the first `lead` of a buffer `pre`; post: the buffer afterwards.
   Returns where the output ends, or -1.  If there is not enough space the range may hold anything. *)
Chars(b, lead, n, pre, post, ret) ==
  LET m == 2 * Len(b) IN
  /\ Len(post) = Len(pre)
  /\ IF n >= m
     THEN /\ ret = m
          /\ post = SubSeq(pre, 1, lead) \o Text(b) \o SubSeq(pre, lead+m+1, Len(pre))
     ELSE /\ ret = -1
          /\ SubSeq(post, 1, lead) = SubSeq(pre, 1, lead)
          /\ SubSeq(post, lead+n+1, Len(post)) = SubSeq(pre, lead+n+1, Len(pre))
(* to_chars to an array: with a terminator *)
CharsArray(b, pre, post) ==
  LET m == 2 * Len(b) IN post = Text(b) \o <<0>> \o SubSeq(pre, m+2, Len(pre))

(* output to a stream: as a string, padded to the width, which is then zero again *)
Streamed(b, width, fill, adjust) ==
  LET pad == [i \in 1..(IF width > 2*Len(b) THEN width - 2*Len(b) ELSE 0) |-> fill]
  IN IF adjust = "left" THEN Text(b) \o pad ELSE pad \o Text(b)
=============================================================================
