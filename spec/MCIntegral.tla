----------------------------- MODULE MCIntegral -----------------------------
(***************************************************************************)
(* The projection of Integral: one-to-one when widening, equally many      *)
(* sources for every value when narrowing.  Small widths exhaustively; for *)
(* all widths, because the multiplier is invertible: r |-> r * m is then a *)
(* permutation, and the high bits of a permutation are uniform.            *)
(***************************************************************************)
EXTENDS Integral, FiniteSets
CONSTANT Full          \* exhaustive over 16-bit results
Widths == {1,2,4,8}
VARIABLES R, U, ph
vars == <<R, U, ph>>
Init == R \in Widths /\ U \in Widths /\ ph = 0
Next == ph = 0 /\ ph' = 1 /\ UNCHANGED <<R, U>>
Spec == Init /\ [][Next]_vars

(* the inverse of an odd number modulo 2^64, by Newton's iteration *)
RECURSIVE Newton(_,_,_)
Newton(m, x, k) == IF k = 0 THEN x ELSE Newton(m, TLCEval(Mul64(x, Sub64(<<2,0,0,0>>, Mul64(m, x)))), k-1)
Invertible == ph = 1 =>
  LET m == Multiplier(R, U)
      W == IF R > U THEN R ELSE U
      inv == Newton(m, m, 6)
  IN /\ Mul64(m, inv) = <<1,0,0,0>>
     /\ \* fits in the wider of the two
        LEBytes64(m) = SubSeq(LEBytes64(m), 1, W) \o Zeros(8-W)
     /\ R = U => m = <<1,0,0,0>>

Results == IF R = 1 THEN {<<x>> : x \in 0..255} ELSE {<<x, y>> : x \in 0..255, y \in 0..255}
Exhaustive == (ph = 1 /\ (R = 1 \/ (Full /\ R = 2))) =>
  LET img == TLCEval({<<r, Project(r, U, FALSE)>> : r \in Results}) IN
  IF U >= R THEN Cardinality({p[2] : p \in img}) = Cardinality(Results)
  ELSE \A v \in 0..255 : Cardinality({p \in img : p[2] = <<v>>}) = 256

(* for the check to refute *)
M_Even(r, u) == IF r = u THEN <<1,0,0,0>> ELSE <<49152,0,0,0>>
=============================================================================
