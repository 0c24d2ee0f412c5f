-------------------------------- MODULE SHA2 --------------------------------
(* The SHA-256 and SHA-512 compression functions, FIPS 180-4. *)
EXTENDS Words, Tables, SequencesExt

LOCAL Idx64 == [i \in 1..64 |-> i]
LOCAL Idx80 == [i \in 1..80 |-> i]
LOCAL Ext48 == [i \in 1..48 |-> i+16]
LOCAL Ext64 == [i \in 1..64 |-> i+16]

LOCAL s0(x) == Xor32(Xor32(RotR32(x,7),RotR32(x,18)),Shr32(x,3))
LOCAL s1(x) == Xor32(Xor32(RotR32(x,17),RotR32(x,19)),Shr32(x,10))
LOCAL S0(x) == Xor32(Xor32(RotR32(x,2),RotR32(x,13)),RotR32(x,22))
LOCAL S1(x) == Xor32(Xor32(RotR32(x,6),RotR32(x,11)),RotR32(x,25))
LOCAL Ch(x,y,z) == Xor32(And32(x,y),And32(Not32(x),z))
LOCAL Maj(x,y,z) == Xor32(Xor32(And32(x,y),And32(x,z)),And32(y,z))

SHA256Compress(h, b, off) ==
  LET W0 == TLCEval([i \in 1..16 |-> BE32At(b, off+4*i-3)])
      ext(W,i) == Append(W, Add32x4(s1(W[i-2]),W[i-7],s0(W[i-15]),W[i-16]))
      W == FoldLeft(ext, W0, Ext48)
      step(s,i) == LET t1 == Add32x5(s[8],S1(s[5]),Ch(s[5],s[6],s[7]),SHA256K[i],W[i])
                       t2 == Add32(S0(s[1]),Maj(s[1],s[2],s[3]))
                   IN << Add32(t1,t2), s[1], s[2], s[3], Add32(s[4],t1), s[5], s[6], s[7] >>
      s == FoldLeft(step, h, Idx64)
  IN << Add32(h[1],s[1]), Add32(h[2],s[2]), Add32(h[3],s[3]), Add32(h[4],s[4]),
        Add32(h[5],s[5]), Add32(h[6],s[6]), Add32(h[7],s[7]), Add32(h[8],s[8]) >>

LOCAL l0(x) == Xor64(Xor64(RotR64(x,1),RotR64(x,8)),Shr64(x,7))
LOCAL l1(x) == Xor64(Xor64(RotR64(x,19),RotR64(x,61)),Shr64(x,6))
LOCAL L0(x) == Xor64(Xor64(RotR64(x,28),RotR64(x,34)),RotR64(x,39))
LOCAL L1(x) == Xor64(Xor64(RotR64(x,14),RotR64(x,18)),RotR64(x,41))
LOCAL Ch64(x,y,z) == Xor64(And64(x,y),And64(Not64(x),z))
LOCAL Maj64(x,y,z) == Xor64(Xor64(And64(x,y),And64(x,z)),And64(y,z))

SHA512Compress(h, b, off) ==
  LET W0 == TLCEval([i \in 1..16 |-> BE64At(b, off+8*i-7)])
      ext(W,i) == Append(W, Add64x4(l1(W[i-2]),W[i-7],l0(W[i-15]),W[i-16]))
      W == FoldLeft(ext, W0, Ext64)
      step(s,i) == LET t1 == Add64x5(s[8],L1(s[5]),Ch64(s[5],s[6],s[7]),SHA512K[i],W[i])
                       t2 == Add64(L0(s[1]),Maj64(s[1],s[2],s[3]))
                   IN << Add64(t1,t2), s[1], s[2], s[3], Add64(s[4],t1), s[5], s[6], s[7] >>
      s == FoldLeft(step, h, Idx80)
  IN << Add64(h[1],s[1]), Add64(h[2],s[2]), Add64(h[3],s[3]), Add64(h[4],s[4]),
        Add64(h[5],s[5]), Add64(h[6],s[6]), Add64(h[7],s[7]), Add64(h[8],s[8]) >>

(***************************************************************************)
(* SHA-512/t initial values (FIPS 180-4, 5.3.6): SHA-512, with the initial *)
(* value xored with a5a5..a5, of the ASCII name of the function.           *)
(***************************************************************************)
LOCAL A5 == <<42405,42405,42405,42405>>
LOCAL NameBlock(d1,d2,d3) ==
   <<83,72,65,45,53,49,50,47,d1,d2,d3,128>> \o Zeros(114) \o <<0,88>>   \* "SHA-512/ddd", 88 bits
LOCAL IVt(d1,d2,d3) == TLCEval(SHA512Compress(TLCEval([i \in 1..8 |-> Xor64(SHA512IV[i],A5)]), NameBlock(d1,d2,d3), 0))
SHA512_224IV == IVt(50,50,52)
SHA512_256IV == IVt(50,53,54)
=============================================================================
