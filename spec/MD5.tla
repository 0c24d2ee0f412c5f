-------------------------------- MODULE MD5 --------------------------------
(* The MD5 compression function, RFC 1321. *)
EXTENDS Words, Tables, SequencesExt

LOCAL Idx == [i \in 1..64 |-> i]
LOCAL Rot == << <<7,12,17,22>>, <<5,9,14,20>>, <<4,11,16,23>>, <<6,10,15,21>> >>
LOCAL Sel(i) == LET j == i-1 r == j \div 16
          IN CASE r = 0 -> j [] r = 1 -> (5*j+1) % 16 [] r = 2 -> (3*j+5) % 16 [] r = 3 -> (7*j) % 16
LOCAL F(r,x,y,z) ==
   CASE r = 0 -> Or32(And32(x,y), And32(Not32(x),z))
     [] r = 1 -> Or32(And32(x,z), And32(y,Not32(z)))
     [] r = 2 -> Xor32(Xor32(x,y),z)
     [] r = 3 -> Xor32(y, Or32(x,Not32(z)))
(* for step i: round, word index, rotation *)
LOCAL Steps == TLCEval([i \in 1..64 |-> [r |-> (i-1) \div 16, x |-> Sel(i)+1, t |-> MD5T[i],
                        s |-> Rot[((i-1) \div 16)+1][((i-1) % 4)+1]]])

MD5Init == << <<8961,26437>>, <<43913,61389>>, <<56574,39098>>, <<21622,4146>> >>
\* 67452301 efcdab89 98badcfe 10325476

MD5Compress(h, b, off) ==
  LET X == TLCEval([i \in 1..16 |-> LE32At(b, off+4*i-3)])
      step(s,i) == LET st == Steps[i]
                   IN << s[4],
                         Add32(s[2], RotL32(Add32x4(s[1], F(st.r,s[2],s[3],s[4]), X[st.x], st.t), st.s)),
                         s[2], s[3] >>
      s == FoldLeft(step, h, Idx)
  IN << Add32(h[1],s[1]), Add32(h[2],s[2]), Add32(h[3],s[3]), Add32(h[4],s[4]) >>
=============================================================================
