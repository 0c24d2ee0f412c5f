------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* Fixed-width words and byte strings.                                     *)
(*                                                                         *)
(* TLC integers are 32-bit signed, so a word is a tuple of 16-bit limbs,   *)
(* least significant first: a 32-bit word has 2 limbs, a 64-bit word 4.    *)
(* All arithmetic is modulo 2^32 / 2^64.  A byte is 0..255, a byte string  *)
(* is a sequence of bytes.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise, TLC

Byte == 0..255
Limb == 0..65535
W32Type == Limb \X Limb
W64Type == Limb \X Limb \X Limb \X Limb

PowTab == <<1,2,4,8,16,32,64,128,256,512,1024,2048,4096,8192,16384,32768,65536>>
Pw(k) == PowTab[k+1]

-----------------------------------------------------------------------------
(* 32-bit words *)

Zero32 == <<0,0>>
Add32(a,b) == LET l == a[1]+b[1]
              IN <<l % 65536, (a[2]+b[2]+(l \div 65536)) % 65536>>
Add32x3(a,b,c) == LET l == a[1]+b[1]+c[1]
              IN <<l % 65536, (a[2]+b[2]+c[2]+(l \div 65536)) % 65536>>
Add32x4(a,b,c,d) == LET l == a[1]+b[1]+c[1]+d[1]
              IN <<l % 65536, (a[2]+b[2]+c[2]+d[2]+(l \div 65536)) % 65536>>
Add32x5(a,b,c,d,e) == LET l == a[1]+b[1]+c[1]+d[1]+e[1]
              IN <<l % 65536, (a[2]+b[2]+c[2]+d[2]+e[2]+(l \div 65536)) % 65536>>
Neg32(a) == LET l == 65536 - a[1]
            IN <<l % 65536, (65535 - a[2] + (l \div 65536)) % 65536>>
Sub32(a,b) == LET l == 65536 + a[1] - b[1]
              IN <<l % 65536, (65535 + a[2] - b[2] + (l \div 65536)) % 65536>>
Xor32(a,b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
And32(a,b) == <<a[1] & b[1], a[2] & b[2]>>
Or32(a,b)  == <<a[1] | b[1], a[2] | b[2]>>
Not32(a)   == <<65535 - a[1], 65535 - a[2]>>

Shr32(a,k) == IF k >= 16 THEN <<a[2] \div Pw(k-16), 0>>
              ELSE <<(a[1] \div Pw(k)) + (a[2] % Pw(k)) * Pw(16-k), a[2] \div Pw(k)>>

RotR32(a,k) ==
   IF k >= 16
   THEN LET p == Pw(k-16)  q == Pw(32-k)
        IN << (a[2] \div p) + (a[1] % p) * q, (a[1] \div p) + (a[2] % p) * q >>
   ELSE LET p == Pw(k)  q == Pw(16-k)
        IN << (a[1] \div p) + (a[2] % p) * q, (a[2] \div p) + (a[1] % p) * q >>
RotL32(a,k) == RotR32(a, (32-k) % 32)

(* column sums of the schoolbook product of the byte expansions *)
Mul32(a,b) ==
  LET x0 == a[1] % 256  x1 == a[1] \div 256  x2 == a[2] % 256  x3 == a[2] \div 256
      y0 == b[1] % 256  y1 == b[1] \div 256  y2 == b[2] % 256  y3 == b[2] \div 256
      c0 == x0*y0
      c1 == (c0 \div 256) + x0*y1 + x1*y0
      c2 == (c1 \div 256) + x0*y2 + x1*y1 + x2*y0
      c3 == (c2 \div 256) + x0*y3 + x1*y2 + x2*y1 + x3*y0
  IN << (c0 % 256) + 256 * (c1 % 256), (c2 % 256) + 256 * (c3 % 256) >>

-----------------------------------------------------------------------------
(* 64-bit words *)

Zero64 == <<0,0,0,0>>
Add64(a,b) == LET c1 == a[1]+b[1]
                  c2 == a[2]+b[2]+(c1 \div 65536)
                  c3 == a[3]+b[3]+(c2 \div 65536)
                  c4 == a[4]+b[4]+(c3 \div 65536)
              IN <<c1 % 65536, c2 % 65536, c3 % 65536, c4 % 65536>>
Add64x4(a,b,c,d) ==
              LET c1 == a[1]+b[1]+c[1]+d[1]
                  c2 == a[2]+b[2]+c[2]+d[2]+(c1 \div 65536)
                  c3 == a[3]+b[3]+c[3]+d[3]+(c2 \div 65536)
                  c4 == a[4]+b[4]+c[4]+d[4]+(c3 \div 65536)
              IN <<c1 % 65536, c2 % 65536, c3 % 65536, c4 % 65536>>
Add64x5(a,b,c,d,e) ==
              LET c1 == a[1]+b[1]+c[1]+d[1]+e[1]
                  c2 == a[2]+b[2]+c[2]+d[2]+e[2]+(c1 \div 65536)
                  c3 == a[3]+b[3]+c[3]+d[3]+e[3]+(c2 \div 65536)
                  c4 == a[4]+b[4]+c[4]+d[4]+e[4]+(c3 \div 65536)
              IN <<c1 % 65536, c2 % 65536, c3 % 65536, c4 % 65536>>
Sub64(a,b) == LET c1 == 65536 + a[1]-b[1]
                  c2 == 65535 + a[2]-b[2]+(c1 \div 65536)
                  c3 == 65535 + a[3]-b[3]+(c2 \div 65536)
                  c4 == 65535 + a[4]-b[4]+(c3 \div 65536)
              IN <<c1 % 65536, c2 % 65536, c3 % 65536, c4 % 65536>>
Xor64(a,b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4]>>
And64(a,b) == <<a[1] & b[1], a[2] & b[2], a[3] & b[3], a[4] & b[4]>>
Not64(a)   == <<65535-a[1], 65535-a[2], 65535-a[3], 65535-a[4]>>

(* limb i (1..4) of the word, zero above *)
LimbOr0(a,i) == IF i > 4 THEN 0 ELSE a[i]
Shr64(a,k) ==
  LET s == k \div 16
      p == Pw(k % 16)
      q == Pw(16 - (k % 16))
  IN << (LimbOr0(a,1+s) \div p) + (LimbOr0(a,2+s) % p) * q,
        (LimbOr0(a,2+s) \div p) + (LimbOr0(a,3+s) % p) * q,
        (LimbOr0(a,3+s) \div p) + (LimbOr0(a,4+s) % p) * q,
        (LimbOr0(a,4+s) \div p) >>
Shl64(a,k) ==
  LET s == k \div 16
      q == Pw(k % 16)
      p == Pw(16 - (k % 16))
      L(i) == IF i < 1 THEN 0 ELSE a[i]
  IN << (L(1-s) % p) * q,
        (L(2-s) % p) * q + (L(1-s) \div p),
        (L(3-s) % p) * q + (L(2-s) \div p),
        (L(4-s) % p) * q + (L(3-s) \div p) >>
RotR64(a,k) ==
  LET s == k \div 16
      p == Pw(k % 16)
      q == Pw(16 - (k % 16))
      x1 == a[(s % 4) + 1]
      x2 == a[((s+1) % 4) + 1]
      x3 == a[((s+2) % 4) + 1]
      x4 == a[((s+3) % 4) + 1]
  IN << (x1 \div p) + (x2 % p) * q, (x2 \div p) + (x3 % p) * q,
        (x3 \div p) + (x4 % p) * q, (x4 \div p) + (x1 % p) * q >>
RotL64(a,k) == RotR64(a, (64-k) % 64)

Mul64(a,b) ==
  LET x0 == a[1] % 256  x1 == a[1] \div 256  x2 == a[2] % 256  x3 == a[2] \div 256
      x4 == a[3] % 256  x5 == a[3] \div 256  x6 == a[4] % 256  x7 == a[4] \div 256
      y0 == b[1] % 256  y1 == b[1] \div 256  y2 == b[2] % 256  y3 == b[2] \div 256
      y4 == b[3] % 256  y5 == b[3] \div 256  y6 == b[4] % 256  y7 == b[4] \div 256
      c0 == x0*y0
      c1 == (c0 \div 256) + x0*y1 + x1*y0
      c2 == (c1 \div 256) + x0*y2 + x1*y1 + x2*y0
      c3 == (c2 \div 256) + x0*y3 + x1*y2 + x2*y1 + x3*y0
      c4 == (c3 \div 256) + x0*y4 + x1*y3 + x2*y2 + x3*y1 + x4*y0
      c5 == (c4 \div 256) + x0*y5 + x1*y4 + x2*y3 + x3*y2 + x4*y1 + x5*y0
      c6 == (c5 \div 256) + x0*y6 + x1*y5 + x2*y4 + x3*y3 + x4*y2 + x5*y1 + x6*y0
      c7 == (c6 \div 256) + x0*y7 + x1*y6 + x2*y5 + x3*y4 + x4*y3 + x5*y2 + x6*y1 + x7*y0
  IN << (c0 % 256) + 256 * (c1 % 256), (c2 % 256) + 256 * (c3 % 256),
        (c4 % 256) + 256 * (c5 % 256), (c6 % 256) + 256 * (c7 % 256) >>

Lo32(a) == <<a[1], a[2]>>
Hi32(a) == <<a[3], a[4]>>
Zext64(a) == <<a[1], a[2], 0, 0>>
Nat64(n) == << n % 65536, n \div 65536, 0, 0 >>          \* n in Nat, n < 2^31
Nat32(n) == << n % 65536, n \div 65536 >>

-----------------------------------------------------------------------------
(* bytes *)

LE32At(b,i) == << b[i] + 256*b[i+1], b[i+2] + 256*b[i+3] >>
BE32At(b,i) == << b[i+3] + 256*b[i+2], b[i+1] + 256*b[i] >>
LE64At(b,i) == << b[i] + 256*b[i+1], b[i+2] + 256*b[i+3], b[i+4] + 256*b[i+5], b[i+6] + 256*b[i+7] >>
BE64At(b,i) == << b[i+7] + 256*b[i+6], b[i+5] + 256*b[i+4], b[i+3] + 256*b[i+2], b[i+1] + 256*b[i] >>

LEBytes32(w) == << w[1] % 256, w[1] \div 256, w[2] % 256, w[2] \div 256 >>
BEBytes32(w) == << w[2] \div 256, w[2] % 256, w[1] \div 256, w[1] % 256 >>
LEBytes64(w) == << w[1] % 256, w[1] \div 256, w[2] % 256, w[2] \div 256,
                   w[3] % 256, w[3] \div 256, w[4] % 256, w[4] \div 256 >>
BEBytes64(w) == << w[4] \div 256, w[4] % 256, w[3] \div 256, w[3] % 256,
                   w[2] \div 256, w[2] % 256, w[1] \div 256, w[1] % 256 >>

Zeros(n) == [i \in 1..n |-> 0]
Ones(n) == [i \in 1..n |-> 1]

(* the bytes of a sequence of words, in order *)
CatLE32(ws) == IF Len(ws) = 4 THEN LEBytes32(ws[1]) \o LEBytes32(ws[2]) \o LEBytes32(ws[3]) \o LEBytes32(ws[4])
               ELSE LEBytes32(ws[1]) \o LEBytes32(ws[2]) \o LEBytes32(ws[3]) \o LEBytes32(ws[4]) \o LEBytes32(ws[5])
CatBE32(ws) == TLCEval([i \in 1..(4*Len(ws)) |-> BEBytes32(ws[((i-1) \div 4) + 1])[((i-1) % 4) + 1]])
CatBE64(ws) == TLCEval([i \in 1..(8*Len(ws)) |-> BEBytes64(ws[((i-1) \div 8) + 1])[((i-1) % 8) + 1]])
=============================================================================
