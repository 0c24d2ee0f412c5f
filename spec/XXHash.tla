------------------------------- MODULE XXHash -------------------------------
(* xxHash, XXH32 and XXH64 (doc/xxhash_spec.md of the xxHash project). *)
EXTENDS Words, SequencesExt

LOCAL P1 == <<31153,40503>>  LOCAL P2 == <<51831,34283>>  LOCAL P3 == <<44605,49842>>
LOCAL P4 == <<60207,10196>>  LOCAL P5 == <<26545,5718>>

XX32Round(acc, lane) == Mul32(RotL32(Add32(acc, Mul32(lane,P2)),13),P1)
XX32Init(seed) == << Add32x3(seed,P1,P2), Add32(seed,P2), seed, Sub32(seed,P1) >>
XX32Compress(v, b, off) ==
  << XX32Round(v[1],LE32At(b,off+1)), XX32Round(v[2],LE32At(b,off+5)),
     XX32Round(v[3],LE32At(b,off+9)), XX32Round(v[4],LE32At(b,off+13)) >>
LOCAL Avalanche32(h0) ==
  LET h1 == Mul32(Xor32(h0,Shr32(h0,15)),P2)
      h2 == Mul32(Xor32(h1,Shr32(h1,13)),P3)
  IN Xor32(h2,Shr32(h2,16))
RECURSIVE XX32Tail(_,_)
XX32Tail(h, t) ==
  IF Len(t) >= 4 THEN XX32Tail(TLCEval(Mul32(RotL32(Add32(h,Mul32(LE32At(t,1),P3)),17),P4)), SubSeq(t,5,Len(t)))
  ELSE IF Len(t) > 0 THEN XX32Tail(TLCEval(Mul32(RotL32(Add32(h,Mul32(<<t[1],0>>,P5)),11),P1)), Tail(t))
  ELSE h
(* v: accumulators, t: remaining (< 16) bytes, n: total length as a 64-bit word;
   yields the value before and after the final avalanche.  For inputs without a
   complete stripe the third accumulator still is the seed. *)
XX32Final(v, t, n) ==
  LET big == n[1] >= 16 \/ n[2] # 0 \/ n[3] # 0 \/ n[4] # 0
      h0 == IF big THEN Add32x4(RotL32(v[1],1),RotL32(v[2],7),RotL32(v[3],12),RotL32(v[4],18))
            ELSE Add32(v[3],P5)
      h == TLCEval(XX32Tail(TLCEval(Add32(h0, Lo32(n))), t))
  IN [pre |-> h, r |-> Avalanche32(h)]

LOCAL Q1 == <<51847,34283,31153,40503>>  LOCAL Q2 == <<60239,10196,44605,49842>>
LOCAL Q3 == <<31225,40503,26545,5718>>   LOCAL Q4 == <<44643,49842,51831,34283>>
LOCAL Q5 == <<26565,5718,60207,10196>>

XX64Round(acc, lane) == Mul64(RotL64(Add64(acc, Mul64(lane,Q2)),31),Q1)
XX64Init(seed) == << Add64(Add64(seed,Q1),Q2), Add64(seed,Q2), seed, Sub64(seed,Q1) >>
XX64Compress(v, b, off) ==
  << XX64Round(v[1],LE64At(b,off+1)), XX64Round(v[2],LE64At(b,off+9)),
     XX64Round(v[3],LE64At(b,off+17)), XX64Round(v[4],LE64At(b,off+25)) >>
LOCAL Merge(acc, v) == Add64(Mul64(Xor64(acc, XX64Round(Zero64,v)),Q1),Q4)
LOCAL Avalanche64(h0) ==
  LET h1 == Mul64(Xor64(h0,Shr64(h0,33)),Q2)
      h2 == Mul64(Xor64(h1,Shr64(h1,29)),Q3)
  IN Xor64(h2,Shr64(h2,32))
RECURSIVE XX64Tail(_,_)
XX64Tail(h, t) ==
  IF Len(t) >= 8 THEN XX64Tail(TLCEval(Add64(Mul64(RotL64(Xor64(h,XX64Round(Zero64,LE64At(t,1))),27),Q1),Q4)), SubSeq(t,9,Len(t)))
  ELSE IF Len(t) >= 4 THEN XX64Tail(TLCEval(Add64(Mul64(RotL64(Xor64(h,Mul64(Zext64(LE32At(t,1)),Q1)),23),Q2),Q3)), SubSeq(t,5,Len(t)))
  ELSE IF Len(t) > 0 THEN XX64Tail(TLCEval(Mul64(RotL64(Xor64(h,Mul64(<<t[1],0,0,0>>,Q5)),11),Q1)), Tail(t))
  ELSE h
XX64Final(v, t, n) ==
  LET big == n[1] >= 32 \/ n[2] # 0 \/ n[3] # 0 \/ n[4] # 0
      h0 == IF big THEN Merge(Merge(Merge(Merge(
                 Add64x4(RotL64(v[1],1),RotL64(v[2],7),RotL64(v[3],12),RotL64(v[4],18)),v[1]),v[2]),v[3]),v[4])
            ELSE Add64(v[3],Q5)
      h == TLCEval(XX64Tail(TLCEval(Add64(h0, n)), t))
  IN [pre |-> h, r |-> Avalanche64(h)]
=============================================================================
