-------------------------------- MODULE SHA1 --------------------------------
(* The SHA-1 compression function, FIPS 180-4. *)
EXTENDS Words, Tables, SequencesExt

LOCAL Idx == [i \in 1..80 |-> i]
LOCAL Idx64 == [i \in 1..64 |-> i+16]

SHA1Init == << <<8961,26437>>, <<43913,61389>>, <<56574,39098>>, <<21622,4146>>, <<57840,50130>> >>

LOCAL F(r,x,y,z) ==
   CASE r = 1 -> Xor32(And32(x,y), And32(Not32(x),z))
     [] r = 2 -> Xor32(Xor32(x,y),z)
     [] r = 3 -> Xor32(Xor32(And32(x,y),And32(x,z)),And32(y,z))
     [] r = 4 -> Xor32(Xor32(x,y),z)

SHA1Compress(h, b, off) ==
  LET W0 == TLCEval([i \in 1..16 |-> BE32At(b, off+4*i-3)])
      ext(W,i) == Append(W, RotL32(Xor32(Xor32(W[i-3],W[i-8]),Xor32(W[i-14],W[i-16])),1))
      W == FoldLeft(ext, W0, Idx64)
      step(s,i) == LET r == ((i-1) \div 20) + 1
                   IN << Add32x5(RotL32(s[1],5), F(r,s[2],s[3],s[4]), s[5], SHA1K[r], W[i]),
                         s[1], RotL32(s[2],30), s[3], s[4] >>
      s == FoldLeft(step, h, Idx)
  IN << Add32(h[1],s[1]), Add32(h[2],s[2]), Add32(h[3],s[3]), Add32(h[4],s[4]), Add32(h[5],s[5]) >>
=============================================================================
