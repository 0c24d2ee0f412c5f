------------------------------ MODULE Spooky2 ------------------------------
(* SpookyHash V2, 128 bits (Bob Jenkins). State: 12 64-bit words. *)
EXTENDS Words, SequencesExt

LOCAL SC == <<48879,57005,48879,57005>>     \* deadbeefdeadbeef
SpookyInit(s1,s2) == << s1,s2,SC, s1,s2,SC, s1,s2,SC, s1,s2,SC >>
LOCAL Idx12 == [i \in 1..12 |-> i]
LOCAL R(i) == ((i-1) % 12) + 1

LOCAL MixRot == <<11,32,43,31,17,28,39,57,55,54,22,46>>
(* step i: s[i]+=data; s[i+2]^=s[i+10]; s[i+11]^=s[i]; s[i]=rot(s[i]); s[i+11]+=s[i+1] *)
LOCAL Mix96(v, b, off) ==
  LET step(s,i) ==
        LET j2 == R(i+2)  j10 == R(i+10)  j11 == R(i+11)  j1 == R(i+1)
            x == Add64(s[i], LE64At(b, off+8*i-7))
        IN TLCEval([s EXCEPT ![j2] = Xor64(s[j2],s[j10]),
                             ![i] = RotL64(x,MixRot[i]),
                             ![j11] = Add64(Xor64(s[j11],x),s[j1])])
  IN FoldLeft(step, v, Idx12)
SpookyCompress(v, b, off) == Mix96(TLCEval(Mix96(v,b,off)),b,off+96)     \* one 192-byte block

LOCAL EndRot == <<44,15,34,21,38,33,10,13,38,53,42,54>>
(* step i: h[i+11]+=h[i+1]; h[i+2]^=h[i+11]; h[i+1]=rot(h[i+1]) *)
LOCAL EndPartial(v) ==
  LET step(s,i) ==
        LET j1 == R(i+1)  j2 == R(i+2)  j11 == R(i+11)
            x == Add64(s[j11],s[j1])
        IN TLCEval([s EXCEPT ![j11] = x, ![j2] = Xor64(s[j2],x), ![j1] = RotL64(s[j1],EndRot[i])])
  IN FoldLeft(step, v, Idx12)
LOCAL End(v, b) ==
  LET w == TLCEval([i \in 1..12 |-> Add64(v[i], LE64At(b, 8*i-7))])
  IN EndPartial(EndPartial(EndPartial(w)))

LOCAL ShortMixRot == <<50,52,30,41,54,48,38,37,62,34,5,36>>
(* h = <<h0,h1,h2,h3>>; step i works on x = h[(i+1)%4], y = next, z = the one after y *)
LOCAL Q(i) == (i % 4) + 1
LOCAL ShortMix(h) ==
  LET step(s,i) ==
        LET x == Q(i+1)  y == Q(i+2)  z == Q(i+3)
            nx == Add64(RotL64(s[x],ShortMixRot[i]),s[y])
        IN TLCEval([s EXCEPT ![x] = nx, ![z] = Xor64(s[z],nx)])
  IN FoldLeft(step, h, Idx12)
LOCAL ShortEndRot == <<15,52,26,51,28,9,47,54,32,25,63>>
(* step i: y ^= x; x = rot(x); y += x   with x = h2,h3,h0,h1,...; y the next *)
LOCAL ShortEnd(h) ==
  LET step(s,i) ==
        LET x == Q(i+1)  y == Q(i+2)
            rx == RotL64(s[x],ShortEndRot[i])
        IN TLCEval([s EXCEPT ![x] = rx, ![y] = Add64(Xor64(s[y],s[x]),rx)])
  IN FoldLeft(step, h, [i \in 1..11 |-> i])

RECURSIVE ShortLoop(_,_)
ShortLoop(h, t) ==
  IF Len(t) >= 32
  THEN LET g == ShortMix(<<h[1],h[2],Add64(h[3],LE64At(t,1)),Add64(h[4],LE64At(t,9))>>)
       IN ShortLoop(TLCEval(<<Add64(g[1],LE64At(t,17)),Add64(g[2],LE64At(t,25)),g[3],g[4]>>), SubSeq(t,33,Len(t)))
  ELSE IF Len(t) >= 16
  THEN ShortLoop(TLCEval(ShortMix(<<h[1],h[2],Add64(h[3],LE64At(t,1)),Add64(h[4],LE64At(t,9))>>)), SubSeq(t,17,Len(t)))
  ELSE <<h,t>>
LOCAL Short(s1,s2,m) ==
  LET ht == ShortLoop(<<s1,s2,SC,SC>>, m)
      h == ht[1]  t == ht[2]
      q == t \o Zeros(16-Len(t))
      c == IF Len(t) = 0 THEN Add64(h[3],SC) ELSE Add64(h[3],LE64At(q,1))
      d == IF Len(t) = 0 THEN Add64(h[4],SC) ELSE Add64(h[4],LE64At(q,9))
      e == ShortEnd(<<h[1],h[2],c,Add64(d, <<0,0,0,(Len(m) % 256) * 256>>)>>)
  IN <<e[1],e[2]>>

(* v: state after the complete blocks, t: remaining bytes, n: total length.
   Result: the new state (of which words 1 and 2 are the hash). *)
SpookyFinal(v, t, n) ==
  IF n[1] < 192 /\ n[2] = 0 /\ n[3] = 0 /\ n[4] = 0
  THEN LET e == Short(v[1],v[2],t) IN [v EXCEPT ![1] = e[1], ![2] = e[2]]
  ELSE LET w == IF Len(t) >= 96 THEN Mix96(v,t,0) ELSE v
           u == IF Len(t) >= 96 THEN SubSeq(t,97,Len(t)) ELSE t
       IN End(TLCEval(w), u \o Zeros(95-Len(u)) \o <<Len(u)>>)
=============================================================================
