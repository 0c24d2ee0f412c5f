------------------------------- MODULE RIPEMD -------------------------------
(* The RIPEMD-160 and RIPEMD-128 compression functions (Dobbertin, Bosselaers, Preneel 1996). *)
EXTENDS Words, Tables, SequencesExt

LOCAL Rho == <<7,4,13,1,10,6,15,3,12,0,9,5,2,14,11,8>>
LOCAL Pi(i) == (9*i+5) % 16
RECURSIVE RhoN(_,_)
RhoN(n,i) == IF n = 0 THEN i ELSE RhoN(n-1, Rho[i+1])
(* message word order: rho^n on the left line, rho^n after pi on the right *)
LOCAL RL == TLCEval([i \in 1..80 |-> RhoN((i-1) \div 16, (i-1) % 16) + 1])
LOCAL RR == TLCEval([i \in 1..80 |-> RhoN((i-1) \div 16, Pi((i-1) % 16)) + 1])
LOCAL SL == << 11,14,15,12,5,8,7,9,11,13,14,15,6,7,9,8,
               7,6,8,13,11,9,7,15,7,12,15,9,11,7,13,12,
               11,13,6,7,14,9,13,15,14,8,13,6,5,12,7,5,
               11,12,14,15,14,15,9,8,9,14,5,6,8,6,5,12,
               9,15,5,11,6,8,13,12,5,12,13,14,11,8,5,6 >>
LOCAL SR == << 8,9,9,11,13,15,15,5,7,7,8,11,14,14,12,6,
               9,13,15,7,12,8,9,11,7,7,12,7,6,15,13,11,
               9,7,15,11,8,6,6,14,12,13,5,14,13,13,7,5,
               15,5,8,11,14,14,6,14,6,9,12,9,12,5,15,8,
               8,5,12,9,12,5,14,6,8,13,6,5,15,13,11,11 >>
LOCAL KL == << Zero32, SQRT30[1], SQRT30[2], SQRT30[3], SQRT30[4] >>
LOCAL KR160 == << CBRT30[1], CBRT30[2], CBRT30[3], CBRT30[4], Zero32 >>
LOCAL KR128 == << CBRT30[1], CBRT30[2], CBRT30[3], Zero32 >>
LOCAL F(n,x,y,z) ==
   CASE n = 1 -> Xor32(Xor32(x,y),z)
     [] n = 2 -> Or32(And32(x,y),And32(Not32(x),z))
     [] n = 3 -> Xor32(Or32(x,Not32(y)),z)
     [] n = 4 -> Or32(And32(x,z),And32(y,Not32(z)))
     [] n = 5 -> Xor32(x,Or32(y,Not32(z)))
LOCAL Idx64 == [i \in 1..64 |-> i]
LOCAL Idx80 == [i \in 1..80 |-> i]

RIPEMD160Init == << <<8961,26437>>, <<43913,61389>>, <<56574,39098>>, <<21622,4146>>, <<57840,50130>> >>
RIPEMD128Init == << <<8961,26437>>, <<43913,61389>>, <<56574,39098>>, <<21622,4146>> >>

RIPEMD160Compress(h, b, off) ==
  LET X == TLCEval([i \in 1..16 |-> LE32At(b, off+4*i-3)])
      line(s,f,x,k,sh) ==
         << s[5], Add32(RotL32(Add32x4(s[1], F(f,s[2],s[3],s[4]), x, k), sh), s[5]), s[2], RotL32(s[3],10), s[4] >>
      stepL(s,i) == LET r == ((i-1) \div 16)+1 IN line(s, r, X[RL[i]], KL[r], SL[i])
      stepR(s,i) == LET r == ((i-1) \div 16)+1 IN line(s, 6-r, X[RR[i]], KR160[r], SR[i])
      L == FoldLeft(stepL, h, Idx80)
      R == FoldLeft(stepR, h, Idx80)
  IN << Add32x3(h[2],L[3],R[4]), Add32x3(h[3],L[4],R[5]), Add32x3(h[4],L[5],R[1]),
        Add32x3(h[5],L[1],R[2]), Add32x3(h[1],L[2],R[3]) >>

RIPEMD128Compress(h, b, off) ==
  LET X == TLCEval([i \in 1..16 |-> LE32At(b, off+4*i-3)])
      line(s,f,x,k,sh) ==
         << s[4], RotL32(Add32x4(s[1], F(f,s[2],s[3],s[4]), x, k), sh), s[2], s[3] >>
      stepL(s,i) == LET r == ((i-1) \div 16)+1 IN line(s, r, X[RL[i]], KL[r], SL[i])
      stepR(s,i) == LET r == ((i-1) \div 16)+1 IN line(s, 5-r, X[RR[i]], KR128[r], SR[i])
      L == FoldLeft(stepL, h, Idx64)
      R == FoldLeft(stepR, h, Idx64)
  IN << Add32x3(h[2],L[3],R[4]), Add32x3(h[3],L[4],R[1]), Add32x3(h[4],L[1],R[2]), Add32x3(h[1],L[2],R[3]) >>
=============================================================================
