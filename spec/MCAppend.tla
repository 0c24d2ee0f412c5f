------------------------------ MODULE MCAppend ------------------------------
(***************************************************************************)
(* Exhaustive check of Append on a universe of small types: all values of  *)
(* each type (small ranges of scalars, sequences up to length 2) under     *)
(* each flavor.  One behaviour per type and flavor.  The universe can be   *)
(* exported, for the values to be appended by the real code.               *)
(***************************************************************************)
EXTENDS Append, SequencesExt, Json, IOUtils

CONSTANTS Deep,       \* number of levels of constructors (1 to 3)
          Cap         \* types with more values than this are left out

IntT(n, c) == [k |-> "int", n |-> n, c |-> c]
TBool == IntT(1, "bool")
TChar == IntT(1, "signed char")
TShort == IntT(2, "short")
TFlt == [k |-> "flt", n |-> 4, c |-> "float"]

I(x) == IF x < 0 THEN <<1, -x, 0,0,0>> ELSE <<0, x, 0,0,0>>
RECURSIVE Vals(_), NVals(_), Prod(_)
(* all tuples with components from a sequence of sets *)
Prod(ss) == IF ss = <<>> THEN {<<>>} ELSE {Append(p, x) : p \in Prod(Front(ss)), x \in Last(ss)}
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
Vals(T) ==
  CASE T = TBool -> {I(0), I(1)}
    [] T = TChar -> {I(0), I(1), I(-1)}
    [] T = TShort -> {I(0), I(1), I(256), I(-1)}
    [] T.k = "flt" -> {[c |-> "zero", s |-> 0], [c |-> "zero", s |-> 1], [c |-> "fin", s |-> 1, e |-> 0, m |-> <<0,128,0,0>>], [c |-> "inf", s |-> 0]}
    [] T.k = "sarr" -> [1..T.len -> Vals(T.e)]
    [] T.k \in {"seq","uno"} -> SeqsUpTo(Vals(T.e), 2)
    [] T.k = "tup" -> Prod([i \in DOMAIN T.es |-> Vals(T.es[i])])
    [] T.k = "cls" -> {[b |-> x, m |-> y] : x \in Prod([i \in DOMAIN T.bs |-> Vals(T.bs[i])]), y \in Prod([i \in DOMAIN T.ms |-> Vals(T.ms[i])])}
(* how many they are, or Cap+1 *)
Min2(a, b) == IF a < b THEN a ELSE b
NVals(T) ==
  LET prod(es) == FoldLeft(LAMBDA a, e : Min2(Cap+1, a * NVals(e)), 1, es) IN
  CASE T.k \in {"int","flt"} -> Cardinality(Vals(T))
    [] T.k = "sarr" -> prod([i \in 1..T.len |-> T.e])
    [] T.k \in {"seq","uno"} -> LET n == NVals(T.e) IN IF n > Cap THEN Cap+1 ELSE Min2(Cap+1, 1 + n + n*n)
    [] T.k = "tup" -> prod(T.es)
    [] T.k = "cls" -> prod(T.bs \o T.ms)

Seq_(e) == [k |-> "seq", e |-> e]
Uno(e) == [k |-> "uno", e |-> e]
SArr(e, n) == [k |-> "sarr", e |-> e, len |-> n]
Tup(es) == [k |-> "tup", es |-> es]
Cls(bs, ms) == [k |-> "cls", bs |-> bs, ms |-> ms]

One(e) == {Seq_(e), Uno(e), SArr(e, 0), SArr(e, 1), SArr(e, 2), Tup(<<e>>), Cls(<<>>, <<e>>)}
Two(a, b) == {Tup(<<a, b>>), Cls(<<>>, <<a, b>>)} \cup (IF a.k = "cls" THEN {Cls(<<a>>, <<b>>), Cls(<<a>>, <<>>)} ELSE {})
Base == {TBool, TChar, TFlt, TShort}
Fit(S) == {T \in S : NVals(T) <= Cap}
L1 == Fit(Base \cup UNION {One(e) : e \in Base} \cup UNION {Two(a, b) : a \in Base, b \in {TBool, TShort}} \cup {Tup(<<>>), Cls(<<>>, <<>>)})
L2 == L1 \cup Fit(UNION {One(e) : e \in L1} \cup UNION {Two(a, b) : a \in L1, b \in {Seq_(TBool), Seq_(TShort), TBool, Tup(<<>>)}} \cup UNION {Two(b, a) : a \in L1, b \in {Seq_(TBool), SArr(TChar, 0)}})
L3 == L2 \cup Fit(UNION {One(e) : e \in L2} \cup UNION {Two(a, Seq_(TBool)) : a \in L2})
Universe == CASE Deep = 1 -> L1 [] Deep = 2 -> L2 [] Deep = 3 -> L3

Flavors == { [bo |-> "little", sz |-> 8], [bo |-> "big", sz |-> 4] }

VARIABLES T, f, done
Init == T \in Universe /\ f \in Flavors /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<T, f>>
Spec == Init /\ [][Next]_<<T, f, done>>

Holds == done => Faithful({<<TLCEval(Canon(T, v)), TLCEval(Message(T, v, f))>> : v \in Vals(T)})

Export == "OUT" \in DOMAIN IOEnv =>
  ndJsonSerialize(IOEnv.OUT, SetToSeq({[t |-> X, vs |-> SetToSeq(Vals(X))] : X \in Universe}))

-----------------------------------------------------------------------------
(* Serializations that do not have the property, for the check to refute. *)
M_NoSize(st, k, g) == st
M_NoZeroByte(st) == st
M_Xor(a, b) == Xor64(a, b)
M_SizeLow(g, k) == InOrder(g, SubSeq(LEBytes64(Nat64(k % 2)), 1, g.sz))
M_RawFloat(n, v) == IF v.c = "zero" THEN Shl64(<<v.s,0,0,0>>, 31) ELSE IF v.c = "inf" THEN <<0,32640,0,0>> ELSE <<0,49024,0,0>>
M_Abs(v) == <<v[2],v[3],v[4],v[5]>>
M_NoFloat(n, v) == Zero64
=============================================================================
