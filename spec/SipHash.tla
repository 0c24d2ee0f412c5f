------------------------------ MODULE SipHash ------------------------------
(* SipHash-2-4 (64-bit) and HalfSipHash-2-4 (32-bit), Aumasson and Bernstein. *)
EXTENDS Words

(* the ASCII text "somepseudorandomlygeneratedbytes" *)
\* 736f6d6570736575 646f72616e646f6d 6c7967656e657261 7465646279746573
LOCAL SipIV == << <<25973,28787,28005,29551>>, <<28525,28260,29281,25711>>,
                  <<29281,28261,26469,27769>>, <<25971,31092,25698,29797>> >>
SipKeyed(k0,k1) == << Xor64(SipIV[1],k0), Xor64(SipIV[2],k1), Xor64(SipIV[3],k0), Xor64(SipIV[4],k1) >>

SipRound(v) ==
  LET a0 == Add64(v[1],v[2])
      a1 == Xor64(RotL64(v[2],13),a0)
      b0 == RotL64(a0,32)
      a2 == Add64(v[3],v[4])
      a3 == Xor64(RotL64(v[4],16),a2)
      c0 == Add64(b0,a3)
      c3 == Xor64(RotL64(a3,21),c0)
      c2 == Add64(a2,a1)
      c1 == Xor64(RotL64(a1,17),c2)
  IN << c0, c1, RotL64(c2,32), c3 >>
SipWord(v,m) == LET w == SipRound(TLCEval(SipRound(<<v[1],v[2],v[3],Xor64(v[4],m)>>))) IN <<Xor64(w[1],m), w[2], w[3], w[4]>>
SipCompress(v, b, off) == SipWord(v, LE64At(b, off+1))
SipFinal(v) == SipRound(TLCEval(SipRound(TLCEval(SipRound(TLCEval(SipRound(<<v[1],v[2],Xor64(v[3],<<255,0,0,0>>),v[4]>>)))))))

LOCAL HIV == << Zero32, Zero32, <<26469,27769>>, <<25698,29797>> >>       \* 6c796765 74656462
HSipKeyed(k0,k1) == << Xor32(HIV[1],k0), Xor32(HIV[2],k1), Xor32(HIV[3],k0), Xor32(HIV[4],k1) >>
HSipRound(v) ==
  LET a0 == Add32(v[1],v[2])
      a1 == Xor32(RotL32(v[2],5),a0)
      b0 == RotL32(a0,16)
      a2 == Add32(v[3],v[4])
      a3 == Xor32(RotL32(v[4],8),a2)
      c0 == Add32(b0,a3)
      c3 == Xor32(RotL32(a3,7),c0)
      c2 == Add32(a2,a1)
      c1 == Xor32(RotL32(a1,13),c2)
  IN << c0, c1, RotL32(c2,16), c3 >>
HSipWord(v,m) == LET w == HSipRound(TLCEval(HSipRound(<<v[1],v[2],v[3],Xor32(v[4],m)>>))) IN <<Xor32(w[1],m), w[2], w[3], w[4]>>
HSipCompress(v, b, off) == HSipWord(v, LE32At(b, off+1))
HSipFinal(v) == HSipRound(TLCEval(HSipRound(TLCEval(HSipRound(TLCEval(HSipRound(<<v[1],v[2],Xor32(v[3],<<255,0>>),v[4]>>)))))))
=============================================================================
