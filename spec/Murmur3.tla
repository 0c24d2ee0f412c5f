------------------------------ MODULE Murmur3 ------------------------------
(* MurmurHash3_x86_32 and MurmurHash3_x64_128 (Appleby). *)
EXTENDS Words, SequencesExt

LOCAL C1 == <<11601,52382>>  LOCAL C2 == <<13715,7047>>
LOCAL K32(k) == Mul32(RotL32(Mul32(k,C1),15),C2)
Mur32Mix(h,k) == Add32(Mul32(RotL32(Xor32(h,K32(k)),13),<<5,0>>),<<27492,58964>>)
Mur32Compress(h,b,off) == Mur32Mix(h, LE32At(b,off+1))
LOCAL PadTo(t,n) == t \o Zeros(n-Len(t))
Mur32Final(h,t,n) ==
  LET a == Xor32(Xor32(h, K32(LE32At(PadTo(t,4),1))), Lo32(n))
      b == Mul32(Xor32(a,Shr32(a,16)),<<51819,34283>>)
      c == Mul32(Xor32(b,Shr32(b,13)),<<44597,49842>>)
  IN Xor32(c,Shr32(c,16))

LOCAL D1 == <<21461,4418,31633,34755>>  LOCAL D2 == <<37759,10053,44355,19701>>
LOCAL KA(k) == Mul64(RotL64(Mul64(k,D1),31),D2)
LOCAL KB(k) == Mul64(RotL64(Mul64(k,D2),33),D1)
Mur128Compress(h,b,off) ==
  LET h1 == TLCEval(Add64(Mul64(Add64(RotL64(Xor64(h[1],KA(LE64At(b,off+1))),27),h[2]),<<5,0,0,0>>),<<59177,21212,0,0>>))
      h2 == Add64(Mul64(Add64(RotL64(Xor64(h[2],KB(LE64At(b,off+9))),31),h1),<<5,0,0,0>>),<<23221,14409,0,0>>)
  IN <<h1,h2>>
LOCAL Fmix(k) ==
  LET a == Mul64(Xor64(k,Shr64(k,33)),<<36045,60757,45015,65361>>)
      b == Mul64(Xor64(a,Shr64(a,33)),<<60499,6789,47614,50382>>)
  IN Xor64(b,Shr64(b,33))
Mur128Final(h,t,n) ==
  LET q == PadTo(t,16)
      a1 == Xor64(Xor64(h[1],KA(LE64At(q,1))),n)
      a2 == Xor64(Xor64(h[2],KB(LE64At(q,9))),n)
      b1 == Add64(a1,a2)   b2 == Add64(a2,b1)
      c1 == Fmix(b1)       c2 == Fmix(b2)
      d1 == Add64(c1,c2)   d2 == Add64(c2,d1)
  IN <<d1,d2>>
=============================================================================
