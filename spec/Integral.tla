------------------------------ MODULE Integral ------------------------------
(***************************************************************************)
(* get_integral_result: the projection of a hash result to an integral     *)
(* type, on little-endian byte strings.                                    *)
(*   equal sizes: identity;  widening: the low bits of r * m;              *)
(*   narrowing: the high bits of r * m modulo the size of r;               *)
(*   array-like: the first eight bytes, truncated.                         *)
(***************************************************************************)
EXTENDS Words

Multiplier(R, U) ==
  CASE R = U -> <<1,0,0,0>>
    [] R = 2 /\ U = 1 -> <<48897,0,0,0>>                     \* bf01
    [] R = 4 /\ U = 1 -> <<32639,32639,0,0>>                 \* 7f7f7f7f
    [] R = 8 /\ U = 1 -> <<32639,32639,32639,32639>>         \* 7f7f7f7f7f7f7f7f
    [] R = 4 /\ U = 2 -> <<1,49151,0,0>>                     \* bfff0001
    [] R = 8 /\ U = 2 -> <<49151,49151,49151,49151>>         \* bfffbfffbfffbfff
    [] R = 8 /\ U = 4 -> <<1,0,65535,49151>>                 \* bfffffff00000001
    [] R = 1 /\ U = 2 -> <<32639,0,0,0>>                     \* 7f7f
    [] R = 1 /\ U = 4 -> <<49087,49087,0,0>>                 \* bfbfbfbf
    [] R = 1 /\ U = 8 -> <<57311,57311,57311,57311>>         \* dfdfdfdfdfdfdfdf
    [] R = 2 /\ U = 4 -> <<32767,32767,0,0>>                 \* 7fff7fff
    [] R = 2 /\ U = 8 -> <<32767,32767,32767,32767>>         \* 7fff7fff7fff7fff
    [] R = 4 /\ U = 8 -> <<65535,32767,65535,32767>>         \* 7fffffff7fffffff

LOCAL Widen(b) == LE64At(b \o Zeros(8 - Len(b)), 1)

(* b: the bytes of the result; U: size of the target; arr: the result is array-like *)
Project(b, U, arr) ==
  IF arr THEN SubSeq(b, 1, U)
  ELSE LET R == Len(b)
           p == LEBytes64(Mul64(Widen(b), Multiplier(R, U)))
       IN IF U >= R THEN SubSeq(p, 1, U) ELSE SubSeq(p, R - U + 1, R)
=============================================================================
