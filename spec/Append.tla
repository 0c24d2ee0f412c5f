------------------------------- MODULE Append -------------------------------
(***************************************************************************)
(* hash_append: the message a C++ value is converted to.  A type is a      *)
(* description of what the documentation says about it, a value is given   *)
(* by its mathematical content (no representation): integers as sign and   *)
(* magnitude, floating point numbers as sign, exponent and significand,    *)
(* ranges as sequences of values.  Appending is a transition of a hash     *)
(* object; only for unordered ranges does its effect depend on the         *)
(* object's state.                                                         *)
(*                                                                         *)
(*   [k |-> "int",  n]       integral types of n bytes                     *)
(*   [k |-> "enum", e]       enumeration with underlying type e            *)
(*   [k |-> "ptr"]           pointers and nullptr_t                        *)
(*   [k |-> "flt",  n]       float (4), double (8)                         *)
(*   [k |-> "arr",  e]       C array                                       *)
(*   [k |-> "sarr", e]       container or range of constant size           *)
(*   [k |-> "seq",  e]       any other ordered range                       *)
(*   [k |-> "uno",  e]       unordered range                               *)
(*   [k |-> "tup",  es]      tuple-like                                    *)
(*   [k |-> "cls",  bs, ms]  described class: bases, members               *)
(*   [k |-> "usr"]           class with tag_invoke; the value lists the    *)
(*                           calls its overload makes                      *)
(*   [k |-> "raw",  e, ei]   declared trivially equality comparable (and   *)
(*                           endian independent if ei): the value has the  *)
(*                           storage, and the value as of type e           *)
(***************************************************************************)
EXTENDS HashAlg, Integral, FiniteSets

(* the platform: the order and width of its integers that the representation of values depends on.  Configurations for
   the other platforms the library is executed on replace these definitions (harness/bare). *)
NativeOrder == "little"
PointerSize == 8
BigEndian == "big"
FourBytes == 4

-----------------------------------------------------------------------------
(* The recorder: a hash algorithm of ours that meets the requirements and keeps the message.  Its
   result is FNV-1a of the message with its bits spread, truncated to the size in its name, or given as an array. *)
RecAlgs == {"rec64", "rec32", "rec16", "rec8", "recarr"}
RecSize(a) == CASE a = "rec32" -> 4 [] a = "rec16" -> 2 [] a = "rec8" -> 1 [] OTHER -> 8
RecNew(a) == [a |-> a, msg |-> <<>>]
FnvOf(m) == FoldLeft(LAMBDA h,x : TLCEval(FNV64Byte(h,x)), FNV64Init, m)
XorSh(h) == Xor64(h, Shr64(h, 33))
Spread(h) == XorSh(TLCEval(Mul64(TLCEval(XorSh(h)), <<36045,60757,45015,65361>>)))      \* ff51afd7ed558ccd

ANew(a, kind, seed) ==
  IF a \in RecAlgs THEN RecNew(a)
  ELSE CASE kind = "d" -> New(a) [] kind = "i" -> NewInt(a, seed) [] kind = "b" -> NewBytes(a, seed)
AUpdate(st, b) == IF st.a \in RecAlgs THEN [st EXCEPT !.msg = @ \o b] ELSE Update(st, b)
AResult(st) == IF st.a \in RecAlgs THEN << SubSeq(LEBytes64(Spread(FnvOf(st.msg))), 1, RecSize(st.a)), st >> ELSE Result(st)
ArrayLike(a) == a = "recarr" \/ (a \notin RecAlgs /\ a \notin {"fnv1a_32","fnv1a_64","xxhash_32","xxhash_64","siphash_32","siphash_64","murmur3_32"})

-----------------------------------------------------------------------------
(* scalars *)

InOrder(f, b) == IF (IF f.bo = "native" THEN NativeOrder ELSE f.bo) = "big" THEN Reverse(b) ELSE b

(* v = <<neg, l1, l2, l3, l4>>: minus or plus the magnitude *)
IntWord(v) == LET m == <<v[2],v[3],v[4],v[5]>> IN IF v[1] = 1 THEN Sub64(Zero64, m) ELSE m
IntBytes(n, v) == SubSeq(LEBytes64(IntWord(v)), 1, n)

(* v = [c, s, e, m]: c is zero, inf, fin or nan; a finite number is (-1)^s m 2^(e-p+1) with m of exactly
   p bits.  Of a (quiet) NaN m is the payload with the quiet bit, which its message keeps, like the sign;
   NaNs do not equal themselves and occur only where messages, not equality, are judged. *)
FltWord(n, v) ==
  LET p == IF n = 8 THEN 53 ELSE 24
      w == IF n = 8 THEN 11 ELSE 8
      bias == IF n = 8 THEN 1023 ELSE 127
      sgn == IF v.s = 1 THEN Shl64(<<1,0,0,0>>, 8*n-1) ELSE Zero64
      ef(x) == Shl64(Nat64(x), p-1)
      emax == IF n = 8 THEN 2047 ELSE 255
  IN CASE v.c = "zero" -> Zero64                             \* negative zero like positive zero
       [] v.c = "inf" -> Add64(sgn, ef(emax))
       [] v.c = "nan" -> Add64(sgn, Add64(ef(emax), v.m))
       [] v.c = "fin" /\ v.e >= 1-bias ->                    \* normal: the leading bit is implied
            Add64(sgn, Add64(ef(v.e + bias), Sub64(v.m, Shl64(<<1,0,0,0>>, p-1))))
       [] v.c = "fin" -> Add64(sgn, Shr64(v.m, 1-bias-v.e))  \* subnormal
FltBytes(n, v) == SubSeq(LEBytes64(FltWord(n, v)), 1, n)

SizeBytes(f, k) == InOrder(f, SubSeq(LEBytes64(Nat64(k)), 1, f.sz))

-----------------------------------------------------------------------------
RECURSIVE App(_, _, _, _)
AppAll(st, e, vs, f) == FoldLeft(LAMBDA s, x : TLCEval(App(s, e, x, f)), st, vs)
AppEach(st, es, vs, f) == FoldLeftDomain(LAMBDA s, i : TLCEval(App(s, es[i], vs[i], f)), st, es)
AppSize(st, k, f) == AUpdate(st, SizeBytes(f, k))
AppNothing(st) == AUpdate(st, <<0>>)     \* constant size, no constituents

Combine(a, b) == Add64(a, b)
(* the sum, modulo 2^64, of the hashes of the elements, each appended to a copy of the object *)
UnorderedSum(st, e, vs, f) ==
  FoldLeft(LAMBDA w, x : TLCEval(Combine(w,
             LE64At(Project(AResult(TLCEval(App(st, e, x, f)))[1], 8, ArrayLike(st.a)), 1))), Zero64, vs)
AppUnordered(st, e, vs, f) ==
  LET w == TLCEval(UnorderedSum(st, e, vs, f))
  IN AppSize(AUpdate(st, InOrder(f, LEBytes64(w))), Len(vs), f)

(* one documented entry point, as called by a tag_invoke overload or directly *)
Call(st, c, f) ==
  CASE c.op = "value" -> App(st, c.t, c.v, f)
    [] c.op = "range" -> AppAll(st, c.t, c.v, f)
    [] c.op = "sized" -> AppSize(AppAll(st, c.t, c.v, f), Len(c.v), f)
    [] c.op = "unordered" -> AppUnordered(st, c.t, c.v, f)
    [] c.op = "size" -> AUpdate(st, InOrder(f, SubSeq(LEBytes64(IntWord(c.v)), 1, f.sz)))
    [] c.op = "bytes" -> AUpdate(st, c.v)

App(st, T, v, f) ==
  CASE T.k = "int" -> AUpdate(st, InOrder(f, IntBytes(T.n, v)))
    [] T.k = "enum" -> App(st, T.e, v, f)
    [] T.k = "ptr" -> AUpdate(st, InOrder(f, IntBytes(PointerSize, v)))
    [] T.k = "flt" -> AUpdate(st, InOrder(f, FltBytes(T.n, v)))
    [] T.k = "arr" -> AppAll(st, T.e, v, f)
    [] T.k = "sarr" -> IF Len(v) = 0 THEN AppNothing(st) ELSE AppAll(st, T.e, v, f)
    [] T.k = "seq" -> AppSize(AppAll(st, T.e, v, f), Len(v), f)
    [] T.k = "uno" -> AppUnordered(st, T.e, v, f)
    [] T.k = "tup" -> IF Len(T.es) = 0 THEN AppNothing(st) ELSE AppEach(st, T.es, v, f)
    [] T.k = "cls" -> IF Len(T.bs) + Len(T.ms) = 0 THEN AppNothing(st)
                      ELSE AppEach(AppEach(st, T.bs, v.b, f), T.ms, v.m, f)
    [] T.k = "usr" -> FoldLeft(LAMBDA s, c : TLCEval(Call(s, c, f)), st, v)
    [] T.k = "raw" -> IF T.ei \/ f.bo = "native" \/ f.bo = NativeOrder
                      THEN AUpdate(st, v.raw) ELSE App(st, T.e, v.v, f)

(* When two values are equal: a canonical form.  Of classes with tag_invoke only their overload could
   tell, so types containing them have none. *)
RECURSIVE Canon(_, _)
Bag(s) == [x \in {s[i] : i \in DOMAIN s} |-> Len(SelectSeq(s, LAMBDA y : y = x))]
Canon(T, v) ==
  CASE T.k \in {"int","ptr"} -> v
    [] T.k = "enum" -> Canon(T.e, v)
    [] T.k = "flt" -> IF v.c = "zero" THEN [c |-> "zero"] ELSE v
    [] T.k \in {"arr","sarr","seq"} -> [i \in 1..Len(v) |-> TLCEval(Canon(T.e, v[i]))]
    [] T.k = "uno" -> << Len(v), TLCEval(Bag([i \in 1..Len(v) |-> TLCEval(Canon(T.e, v[i]))])) >>
    [] T.k = "tup" -> [i \in 1..Len(v) |-> TLCEval(Canon(T.es[i], v[i]))]
    [] T.k = "cls" -> << [i \in 1..Len(v.b) |-> TLCEval(Canon(T.bs[i], v.b[i]))], [i \in 1..Len(v.m) |-> TLCEval(Canon(T.ms[i], v.m[i]))] >>
    [] T.k = "raw" -> Canon(T.e, v.v)

(* The messages of a set of values of one type: equal exactly for equal values, never empty, and none
   the end of another (so that values appended one after another can be told apart from the end). *)
Faithful(cm) ==      \* cm: the set of pairs <<canonical form, message>>
  LET ms == {p[2] : p \in cm}
      cs == {p[1] : p \in cm}
  IN /\ Cardinality(cm) = Cardinality(ms) /\ Cardinality(cm) = Cardinality(cs)
     /\ <<>> \notin ms
     /\ \A m \in ms : \A k \in 2..Len(m) : SubSeq(m, k, Len(m)) \notin ms

(* the message of a value on its own *)
Message(T, v, f) == App(RecNew("rec64"), T, v, f).msg
=============================================================================
