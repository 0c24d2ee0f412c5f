------------------------------ MODULE HashAlg ------------------------------
(***************************************************************************)
(* The hash algorithms of the library as state machines over abstract      *)
(* states: construction (default, integer seed, byte-sequence seed),       *)
(* update and result, for all 27+3 algorithms.                             *)
(***************************************************************************)
EXTENDS Words, Tables, SequencesExt, MD5, SHA1, SHA2, RIPEMD, SipHash, XXHash, FNV1a, Murmur3, Spooky2

MDAlgs == {"md5_128","sha1_160","sha2_256","sha2_224","sha2_512","sha2_384",
           "sha2_512_224","sha2_512_256","ripemd_160","ripemd_128"}
PlainAlgs == {"fnv1a_32","fnv1a_64","xxhash_32","xxhash_64","siphash_32","siphash_64"} \cup MDAlgs
LegacyAlgs == {"murmur3_32","murmur3_128","spooky2_128"}
HmacOf == [ hmac_md5_128 |-> "md5_128", hmac_sha1_160 |-> "sha1_160", hmac_sha2_256 |-> "sha2_256",
            hmac_sha2_224 |-> "sha2_224", hmac_sha2_512 |-> "sha2_512", hmac_sha2_384 |-> "sha2_384",
            hmac_sha2_512_224 |-> "sha2_512_224", hmac_sha2_512_256 |-> "sha2_512_256",
            hmac_ripemd_160 |-> "ripemd_160", hmac_ripemd_128 |-> "ripemd_128" ]
UserHmacOf == [ hmac_user_8_8 |-> "user_8_8", hmac_user_16_4 |-> "user_16_4", hmac_user_48_20 |-> "user_48_20", hmac_user_200_64 |-> "user_200_64" ]
BaseOf == HmacOf @@ UserHmacOf
HmacAlgs == DOMAIN BaseOf
(* hash algorithms of a user's (harness/driver.cpp): user_B_R has blocks of B bytes for the purposes of HMAC and results of R
   bytes, made of the 64-bit FNV-1a of what it absorbed; a result absorbs a byte *)
UserSize == [ user_8_8 |-> 8, user_16_4 |-> 4, user_48_20 |-> 20, user_200_64 |-> 64 ]
UserBlock == [ user_8_8 |-> 8, user_16_4 |-> 16, user_48_20 |-> 48, user_200_64 |-> 200 ]
UserAlgs == DOMAIN UserSize
UserDigest(a, h) == LET y == LEBytes64(h) IN [k \in 1..UserSize[a] |-> y[((k-1) % 8) + 1] ^^ (k-1)]
DocumentedAlgs == PlainAlgs \cup DOMAIN HmacOf
AllAlgs == DocumentedAlgs \cup LegacyAlgs \cup UserAlgs \cup DOMAIN UserHmacOf

BlockSize(a) ==
  CASE a \in {"md5_128","sha1_160","sha2_256","sha2_224","ripemd_160","ripemd_128"} -> 64
    [] a \in {"sha2_512","sha2_384","sha2_512_224","sha2_512_256"} -> 128
    [] a \in {"fnv1a_32","fnv1a_64"} -> 1
    [] a = "xxhash_32" -> 16   [] a = "xxhash_64" -> 32
    [] a = "siphash_32" -> 4   [] a = "siphash_64" -> 8
    [] a = "murmur3_32" -> 4   [] a = "murmur3_128" -> 16   [] a = "spooky2_128" -> 192
    [] a \in UserAlgs -> UserBlock[a]
    [] a \in DOMAIN UserHmacOf -> UserBlock[BaseOf[a]]
    [] a \in HmacAlgs -> IF BaseOf[a] \in {"sha2_512","sha2_384","sha2_512_224","sha2_512_256"} THEN 128 ELSE 64

DigestSize(a) ==
  CASE a = "md5_128" -> 16 [] a = "sha1_160" -> 20 [] a = "sha2_256" -> 32 [] a = "sha2_224" -> 28
    [] a = "sha2_512" -> 64 [] a = "sha2_384" -> 48 [] a = "sha2_512_224" -> 28 [] a = "sha2_512_256" -> 32
    [] a = "ripemd_160" -> 20 [] a = "ripemd_128" -> 16

InitialH(a) ==
  CASE a = "md5_128" -> MD5Init          [] a = "sha1_160" -> SHA1Init
    [] a = "sha2_256" -> SHA256IV        [] a = "sha2_224" -> SHA224IV
    [] a = "sha2_512" -> SHA512IV        [] a = "sha2_384" -> SHA384IV
    [] a = "sha2_512_224" -> SHA512_224IV [] a = "sha2_512_256" -> SHA512_256IV
    [] a = "ripemd_160" -> RIPEMD160Init [] a = "ripemd_128" -> RIPEMD128Init
    [] a = "fnv1a_32" -> FNV32Init       [] a = "fnv1a_64" -> FNV64Init
    [] a = "xxhash_32" -> XX32Init(Zero32) [] a = "xxhash_64" -> XX64Init(Zero64)
    [] a = "siphash_32" -> HSipKeyed(Zero32,Zero32) [] a = "siphash_64" -> SipKeyed(Zero64,Zero64)
    [] a = "murmur3_32" -> Zero32        [] a = "murmur3_128" -> <<Zero64,Zero64>>
    [] a = "spooky2_128" -> SpookyInit(Zero64,Zero64)
    [] a \in UserAlgs -> FNV64Init

Compress(a, h, b, off) ==
  CASE a = "md5_128" -> MD5Compress(h,b,off)
    [] a = "sha1_160" -> SHA1Compress(h,b,off)
    [] a \in {"sha2_256","sha2_224"} -> SHA256Compress(h,b,off)
    [] a \in {"sha2_512","sha2_384","sha2_512_224","sha2_512_256"} -> SHA512Compress(h,b,off)
    [] a = "ripemd_160" -> RIPEMD160Compress(h,b,off)
    [] a = "ripemd_128" -> RIPEMD128Compress(h,b,off)
    [] a = "fnv1a_32" -> FNV32Compress(h,b,off)
    [] a = "fnv1a_64" -> FNV64Compress(h,b,off)
    [] a = "xxhash_32" -> XX32Compress(h,b,off)
    [] a = "xxhash_64" -> XX64Compress(h,b,off)
    [] a = "siphash_32" -> HSipCompress(h,b,off)
    [] a = "siphash_64" -> SipCompress(h,b,off)
    [] a = "murmur3_32" -> Mur32Compress(h,b,off)
    [] a = "murmur3_128" -> Mur128Compress(h,b,off)
    [] a = "spooky2_128" -> SpookyCompress(h,b,off)

Stream(a) == INSTANCE BlockStream WITH B <- BlockSize(a), Comp <- LAMBDA h,b,o : Compress(a,h,b,o)

-----------------------------------------------------------------------------
(* Merkle-Damgaard padding *)

LenFieldSize(a) == IF BlockSize(a) = 128 THEN 16 ELSE 8
(* the message length in bits, in the algorithm's byte order *)
LenField(a, n) ==
  LET bits == Shl64(n,3)
      hi == Shr64(n,61)
  IN IF a \in {"md5_128","ripemd_160","ripemd_128"} THEN LEBytes64(bits)
     ELSE IF LenFieldSize(a) = 8 THEN BEBytes64(bits)
     ELSE BEBytes64(hi) \o BEBytes64(bits)
(* padding of a message of n bytes whose last incomplete block has m bytes *)
Padding(a, n, m) ==
  LET z == (2*BlockSize(a) - LenFieldSize(a) - 1 - m) % BlockSize(a)
  IN <<128>> \o Zeros(z) \o LenField(a, n)
Truncate(s, k) == SubSeq(s, 1, k)
DigestOf(a, h) ==
  IF a = "md5_128" \/ a = "ripemd_128" \/ a = "ripemd_160" THEN CatLE32(h)
  ELSE IF BlockSize(a) = 128 THEN Truncate(CatBE64(h), DigestSize(a))
  ELSE Truncate(CatBE32(h), DigestSize(a))

-----------------------------------------------------------------------------
(* Plain algorithms: states are [a, h, buf, n] *)

Fresh(a) == [a |-> a, h |-> InitialH(a), buf |-> <<>>, n |-> Zero64]

PlainUpdate(st, bytes) ==
  IF Len(bytes) = 0 THEN st
  ELSE IF st.a \in UserAlgs THEN [st EXCEPT !.h = FoldLeft(LAMBDA h,x : TLCEval(FNV64Byte(h,x)), st.h, bytes)]
  ELSE Stream(st.a)!Absorb(st, bytes)

(* n advanced to the end of the block that result() completes *)
RoundUp(st) == Add64(st.n, Nat64(BlockSize(st.a) - Len(st.buf)))

(* result(): <<bytes of the result, successor state>>; integral results as little-endian bytes *)
PlainResult(st) ==
  LET a == st.a IN
  CASE a \in MDAlgs ->
         LET s2 == TLCEval(Stream(a)!Absorb(st, Padding(a, st.n, Len(st.buf))))
         IN << DigestOf(a, s2.h), s2 >>
    [] a = "fnv1a_32" -> << LEBytes32(st.h), [st EXCEPT !.h = FNV32Byte(st.h,255)] >>
    [] a = "fnv1a_64" -> << LEBytes64(st.h), [st EXCEPT !.h = FNV64Byte(st.h,255)] >>
    [] a \in UserAlgs -> << UserDigest(a, st.h), [st EXCEPT !.h = FNV64Byte(st.h,255)] >>
    [] a = "siphash_64" ->
         LET last == st.buf \o Zeros(7-Len(st.buf)) \o << st.n[1] % 256 >>
             v == TLCEval(SipFinal(TLCEval(SipCompress(st.h, last, 0))))
         IN << LEBytes64(Xor64(Xor64(v[1],v[2]),Xor64(v[3],v[4]))),
               [st EXCEPT !.h = v, !.buf = <<>>, !.n = RoundUp(st)] >>
    [] a = "siphash_32" ->
         LET last == st.buf \o Zeros(3-Len(st.buf)) \o << st.n[1] % 256 >>
             v == TLCEval(HSipFinal(TLCEval(HSipCompress(st.h, last, 0))))
         IN << LEBytes32(Xor32(v[2],v[4])),
               [st EXCEPT !.h = v, !.buf = <<>>, !.n = RoundUp(st)] >>
    [] a = "xxhash_32" ->
         LET f == TLCEval(XX32Final(st.h, st.buf, st.n))
         IN << LEBytes32(f.r),
               [st EXCEPT !.h = << Add32(st.h[1],f.pre), Add32(st.h[2],f.pre), Sub32(st.h[3],f.pre), Sub32(st.h[4],f.pre) >>,
                          !.buf = <<>>, !.n = RoundUp(st)] >>
    [] a = "xxhash_64" ->
         LET f == TLCEval(XX64Final(st.h, st.buf, st.n))
         IN << LEBytes64(f.r),
               [st EXCEPT !.h = << Add64(st.h[1],f.pre), Add64(st.h[2],f.pre), Sub64(st.h[3],f.pre), Sub64(st.h[4],f.pre) >>,
                          !.buf = <<>>, !.n = RoundUp(st)] >>
    [] a = "murmur3_32" ->
         << LEBytes32(Mur32Final(st.h, st.buf, st.n)), [st EXCEPT !.buf = <<>>, !.n = RoundUp(st)] >>
    [] a = "murmur3_128" ->
         LET r == Mur128Final(st.h, st.buf, st.n)
         IN << LEBytes64(r[1]) \o LEBytes64(r[2]), [st EXCEPT !.buf = <<>>, !.n = RoundUp(st)] >>
    [] a = "spooky2_128" ->
         LET v == TLCEval(SpookyFinal(st.h, st.buf, st.n))
         IN << LEBytes64(v[1]) \o LEBytes64(v[2]), [st EXCEPT !.h = v, !.buf = <<>>, !.n = RoundUp(st)] >>

(***************************************************************************)
(* Seeding as documented: zero and the empty sequence mean "no seed"; the  *)
(* key-sized seeds of SipHash are its key; the others are absorbed, and    *)
(* the result discarded (FNV-1a: absorbed only).                           *)
(***************************************************************************)
Absorbed(st, bytes) == PlainResult(TLCEval(PlainUpdate(st, bytes)))[2]

PlainSeedInt(a, w) ==
  IF w = Zero64 THEN Fresh(a) ELSE
  CASE a \in {"fnv1a_32","fnv1a_64"} \cup UserAlgs -> PlainUpdate(Fresh(a), LEBytes64(w))
    [] a \in MDAlgs -> Absorbed(Fresh(a), LEBytes64(w))
    [] a = "siphash_64" -> [Fresh(a) EXCEPT !.h = SipKeyed(w, Zero64)]
    [] a = "siphash_32" -> [Fresh(a) EXCEPT !.h = HSipKeyed(Lo32(w), Hi32(w))]
    [] a = "xxhash_64" -> [Fresh(a) EXCEPT !.h = XX64Init(w)]
    [] a = "xxhash_32" -> LET v == XX32Init(Lo32(w))  k == Hi32(w)
                          IN [Fresh(a) EXCEPT !.h = IF k = Zero32 THEN v
                               ELSE << XX32Round(v[1],k), XX32Round(v[2],k), XX32Round(v[3],k), XX32Round(v[4],k) >>]
    [] a = "murmur3_32" -> [Fresh(a) EXCEPT !.h = IF Hi32(w) = Zero32 THEN Lo32(w) ELSE Mur32Mix(Lo32(w), Hi32(w))]
    [] a = "murmur3_128" -> [Fresh(a) EXCEPT !.h = <<w,w>>]
    [] a = "spooky2_128" -> [Fresh(a) EXCEPT !.h = SpookyInit(w,Zero64)]

(* the two-word seeds of the 128-bit legacy algorithms *)
PlainSeed2(a, w1, w2) == [Fresh(a) EXCEPT !.h = IF a = "murmur3_128" THEN <<w1,w2>> ELSE SpookyInit(w1,w2)]

LOCAL Padded(b,k) == b \o Zeros(k - Len(b))
LOCAL From(b,k) == SubSeq(b, k+1, Len(b))
PlainSeedBytes(a, b) ==
  IF Len(b) = 0 THEN Fresh(a) ELSE
  CASE a \in {"fnv1a_32","fnv1a_64"} \cup UserAlgs -> PlainUpdate(Fresh(a), b)
    [] a = "siphash_64" /\ Len(b) = 16 -> [Fresh(a) EXCEPT !.h = SipKeyed(LE64At(b,1), LE64At(b,9))]
    [] a = "siphash_32" /\ Len(b) = 8 -> [Fresh(a) EXCEPT !.h = HSipKeyed(LE32At(b,1), LE32At(b,5))]
    [] a = "murmur3_32" ->
         LET s == [Fresh(a) EXCEPT !.h = LE32At(Padded(b,Len(b)+4),1)]
         IN IF Len(b) <= 4 THEN s ELSE Absorbed(s, From(b,4))
    [] a = "murmur3_128" ->
         LET q == Padded(b, Len(b)+16)  s == [Fresh(a) EXCEPT !.h = << LE64At(q,1), LE64At(q,9) >>]
         IN IF Len(b) <= 8 THEN [Fresh(a) EXCEPT !.h = << LE64At(q,1), LE64At(q,1) >>]
            ELSE IF Len(b) <= 16 THEN s ELSE Absorbed(s, From(b,16))
    [] a = "spooky2_128" ->
         LET q == Padded(b, Len(b)+16)  s == [Fresh(a) EXCEPT !.h = SpookyInit(LE64At(q,1), LE64At(q,9))]
         IN IF Len(b) <= 16 THEN s ELSE Absorbed(s, From(b,16))
    [] OTHER -> Absorbed(Fresh(a), b)

-----------------------------------------------------------------------------
(* HMAC, RFC 2104: states are [a, inner, outer] *)

HmacKey(a, key) ==       \* key prepared to block size
  LET H == BaseOf[a]
      k == IF Len(key) > BlockSize(H)
           THEN PlainResult(TLCEval(PlainUpdate(Fresh(H), key)))[1] ELSE key
  IN k \o Zeros(BlockSize(H) - Len(k))
XorAll(b, x) == TLCEval([i \in 1..Len(b) |-> b[i] ^^ x])
HmacKeyed(a, key) ==
  LET k == TLCEval(HmacKey(a, key))  H == BaseOf[a]
  IN [a |-> a, inner |-> TLCEval(PlainUpdate(Fresh(H), XorAll(k, 54))),
               outer |-> TLCEval(PlainUpdate(Fresh(H), XorAll(k, 92)))]
HmacResult(st) ==
  LET i == TLCEval(PlainResult(st.inner))
      o == TLCEval(PlainResult(TLCEval(PlainUpdate(st.outer, i[1]))))
  IN << o[1], [st EXCEPT !.inner = i[2], !.outer = o[2]] >>

-----------------------------------------------------------------------------
(* The interface the state machines use *)

New(a) == IF a \in HmacAlgs THEN HmacKeyed(a, <<>>) ELSE Fresh(a)
NewInt(a, w) ==
  IF a \in HmacAlgs THEN HmacKeyed(a, IF w = Zero64 THEN <<>> ELSE LEBytes64(w)) ELSE PlainSeedInt(a, w)
NewBytes(a, b) == IF a \in HmacAlgs THEN HmacKeyed(a, b) ELSE PlainSeedBytes(a, b)
Update(st, b) ==
  IF st.a \in HmacAlgs THEN [st EXCEPT !.inner = PlainUpdate(st.inner, b)] ELSE PlainUpdate(st, b)
Result(st) == IF st.a \in HmacAlgs THEN HmacResult(st) ELSE PlainResult(st)

-----------------------------------------------------------------------------
(***************************************************************************)
(* The published functions of a whole message, defined without reference   *)
(* to any streaming state.                                                 *)
(***************************************************************************)
PublishedPlain(a, m) ==
  CASE a \in MDAlgs -> DigestOf(a, Stream(a)!FoldBlocks(InitialH(a), m \o Padding(a, Nat64(Len(m)), Len(m) % BlockSize(a))))
    [] a = "fnv1a_32" -> LEBytes32(FoldLeft(LAMBDA h,x : TLCEval(FNV32Byte(h,x)), FNV32Init, m))
    [] a = "fnv1a_64" -> LEBytes64(FoldLeft(LAMBDA h,x : TLCEval(FNV64Byte(h,x)), FNV64Init, m))
    [] a \in UserAlgs -> UserDigest(a, FoldLeft(LAMBDA h,x : TLCEval(FNV64Byte(h,x)), FNV64Init, m))
    [] OTHER ->
         LET h == TLCEval(Stream(a)!FoldBlocks(InitialH(a), m))
             t == Stream(a)!Rest(m)
             n == Nat64(Len(m))
         IN CASE a = "siphash_64" ->
                   LET v == SipFinal(TLCEval(SipCompress(h, t \o Zeros(7-Len(t)) \o <<Len(m) % 256>>, 0)))
                   IN LEBytes64(Xor64(Xor64(v[1],v[2]),Xor64(v[3],v[4])))
              [] a = "siphash_32" ->
                   LET v == HSipFinal(TLCEval(HSipCompress(h, t \o Zeros(3-Len(t)) \o <<Len(m) % 256>>, 0)))
                   IN LEBytes32(Xor32(v[2],v[4]))
              [] a = "xxhash_32" -> LEBytes32(XX32Final(h,t,n).r)
              [] a = "xxhash_64" -> LEBytes64(XX64Final(h,t,n).r)
              [] a = "murmur3_32" -> LEBytes32(Mur32Final(h,t,n))
              [] a = "murmur3_128" -> LET r == Mur128Final(h,t,n) IN LEBytes64(r[1]) \o LEBytes64(r[2])
              [] a = "spooky2_128" -> LET v == SpookyFinal(h,t,n) IN LEBytes64(v[1]) \o LEBytes64(v[2])

PublishedHmac(a, key, m) ==
  LET H == BaseOf[a]
      k0 == IF Len(key) > BlockSize(H) THEN PublishedPlain(H, key) ELSE key
      k == TLCEval(k0 \o Zeros(BlockSize(H) - Len(k0)))
  IN PublishedPlain(H, XorAll(k,92) \o PublishedPlain(H, XorAll(k,54) \o m))
Published(a, m) == IF a \in HmacAlgs THEN PublishedHmac(a, <<>>, m) ELSE PublishedPlain(a, m)
=============================================================================
