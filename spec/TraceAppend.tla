---------------------------- MODULE TraceAppend -----------------------------
(***************************************************************************)
(* Trace validation for hash_append.  The store of TraceHash, with two     *)
(* kinds of objects: the library's algorithms, seen through their results, *)
(* and recorders, which show the message they were fed.                    *)
(*   app   append value v of type t under flavor f; m: the set of distinct *)
(*         byte strings recorders received for it, over every container,   *)
(*         iterator, storage, hash class and build the value was tried in  *)
(*         (empty for a library algorithm)                                 *)
(***************************************************************************)
EXTENDS Append, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES objs, t, l
vars == <<objs, t, l>>
Events == Traces[t].ev
Ev == Events[l]
IsEvent(op) == l <= Len(Events) /\ Ev.op = op /\ l' = l + 1 /\ t' = t
Put(f, o, v) == [x \in DOMAIN f \cup {o} |-> IF x = o THEN v ELSE f[x]]

TInit == objs = [o \in {} |-> <<>>] /\ t \in 1..Len(Traces) /\ l = 1

TNew == IsEvent("new") /\ objs' = Put(objs, Ev.o, TLCEval(ANew(Ev.a, Ev.k, Ev.s)))
TUpd == IsEvent("upd") /\ objs' = [objs EXCEPT ![Ev.o] = TLCEval(AUpdate(@, Ev.b))]
TRes ==
  /\ IsEvent("res")
  /\ LET f == TLCEval(AResult(objs[Ev.o])) IN Ev.r = <<f[1]>> /\ objs' = [objs EXCEPT ![Ev.o] = f[2]]
TCopy == IsEvent("copy") /\ objs' = Put(objs, Ev.p, objs[Ev.o])

(* what a value feeds, and that it feeds something *)
TApp ==
  /\ IsEvent("app")
  /\ LET s == TLCEval(App(objs[Ev.o], Ev.t, Ev.v, Ev.f)) IN
     /\ objs' = [objs EXCEPT ![Ev.o] = s]
     /\ s.a \in RecAlgs =>
          LET b == SubSeq(s.msg, Len(objs[Ev.o].msg)+1, Len(s.msg))
          IN Ev.m = <<b>> /\ Len(b) > 0
(* the free functions: hash_append_range and so on; an empty range may feed nothing *)
TCall ==
  /\ IsEvent("call")
  /\ LET s == TLCEval(Call(objs[Ev.o], Ev.c, Ev.f)) IN
     /\ objs' = [objs EXCEPT ![Ev.o] = s]
     /\ s.a \in RecAlgs => Ev.m = << SubSeq(s.msg, Len(objs[Ev.o].msg)+1, Len(s.msg)) >>

(* many values of one type, each on its own *)
TScalars ==
  /\ IsEvent("scalars")
  /\ Len(Ev.vs) = Len(Ev.ms) /\ Len(Ev.vs) > 0
  /\ TRUE = \A i \in 1..Len(Ev.vs) : Ev.ms[i] = Message(Ev.t, Ev.vs[i], Ev.f)     \* (as a value: TLC unrolls an action)
  /\ UNCHANGED objs

(* many values of one type: moreover, equal values and only those feed the same bytes *)
TInject ==
  /\ IsEvent("inject")
  /\ Len(Ev.vs) = Len(Ev.ms) /\ Len(Ev.vs) > 0
  /\ TRUE = \A i \in 1..Len(Ev.vs) : Ev.ms[i] = Message(Ev.t, Ev.vs[i], Ev.f)     \* (as a value: TLC unrolls an action)
  /\ TRUE = Faithful({<<TLCEval(Canon(Ev.t, Ev.vs[i])), Ev.ms[i]>> : i \in 1..Len(Ev.vs)})
  /\ UNCHANGED objs

TDistinct ==
  /\ IsEvent("distinct")
  /\ Len(Ev.rs) > 1
  /\ Cardinality({Ev.rs[i] : i \in 1..Len(Ev.rs)}) = Len(Ev.rs)
  /\ UNCHANGED objs

(* The customization traits.  te: trivially equality comparable, ei: endian independent, nat/le/be:
   contiguously hashable under that order, cs: has constant size; with c: of the const type, with a: of
   an array of the type. *)
TrivEq(T) == T.k \in {"int","raw"} \/ (T.k = "enum" /\ "slow" \notin DOMAIN T) \/ (T.k = "ptr" /\ ~T.nul)
EndianIndep(T, size) == IF T.k = "raw" /\ T.ei THEN TRUE ELSE IF "ei" \in DOMAIN T THEN T.ei ELSE size = 1
RECURSIVE Contig(_,_,_)
Contig(T, size, bo) ==
  IF T.k = "arr" THEN Contig(T.e, size, bo)       \* size: of the innermost element
  ELSE TrivEq(T) /\ (bo \in {"native", NativeOrder} \/ EndianIndep(T, size))
ConstantSize(T) == T.k \in {"sarr","tup"} \/ "cs" \in DOMAIN T
TTrait ==
  /\ IsEvent("trait")
  /\ LET T == Ev.t IN
     /\ Ev.te = TrivEq(T) /\ Ev.tec = TrivEq(T)
     /\ Ev.ei = EndianIndep(T, Ev.size) /\ Ev.eic = Ev.ei
     /\ Ev.nat = Contig(T, Ev.esize, "native") /\ Ev.le = Contig(T, Ev.esize, "little") /\ Ev.be = Contig(T, Ev.esize, "big")
     /\ Ev.natc = Ev.nat /\ Ev.nata = Ev.nat /\ Ev.bec = Ev.be /\ Ev.bea = Ev.be
     /\ Ev.cs = ConstantSize(T) /\ Ev.csc = Ev.cs
  /\ UNCHANGED objs

(* a trait or other compile-time fact, with its documented value *)
TFact == IsEvent("fact") /\ Ev.is = Ev.doc /\ UNCHANGED objs

(* long ranges of non-negative integers, given by a formula *)
Formula(g) == [i \in 1..g.n |-> LET x == (g.a*(i-1) + g.b) % g.m IN <<0, x % 65536, x \div 65536, 0, 0>>]
TBulk ==
  /\ IsEvent("bulk")
  /\ LET v == TLCEval(Formula(Ev.g))
     IN objs' = [objs EXCEPT ![Ev.o] = TLCEval(IF "c" \in DOMAIN Ev THEN Call(@, [op |-> Ev.c, t |-> Ev.t, v |-> v], Ev.f) ELSE App(@, Ev.t, v, Ev.f))]
(* a range of n elements of the given size, too long to write down: the number of bytes fed, and the first
   and the last of them; first, last: those of the range *)
THuge ==
  /\ IsEvent("huge")
  /\ LET count == IF Ev.kind = "range" THEN <<>> ELSE InOrder(Ev.f, SubSeq(LEBytes64(Ev.n), 1, Ev.f.sz))
         b == Ev.last \o count
     IN /\ Ev.total = Add64(Mul64(Ev.n, Nat64(Ev.size)), Nat64(Len(count)))
        /\ Ev.head = Ev.first
        /\ Ev.tail = SubSeq(b, Len(b)-15, Len(b))
  /\ UNCHANGED objs

(* get_integral_result of each r, for signed and unsigned targets of n bytes *)
TProject ==
  /\ IsEvent("proj")
  /\ Len(Ev.rs) = Len(Ev.ts) /\ Len(Ev.rs) > 0
  /\ TRUE = \A i \in 1..Len(Ev.rs) : Ev.ts[i] = Project(Ev.rs[i], Ev.n, Ev.arr)
  /\ UNCHANGED objs
(* over all 2^(8r) results, the smallest and the largest number of results that give the same value *)
TUniform ==
  /\ IsEvent("uniform")
  /\ Ev.min = Ev.max /\ Ev.min = 2^(8*(Ev.from - Ev.to)) /\ Ev.values = 2^(8*Ev.to)
  /\ UNCHANGED objs

Done == l = Len(Events) + 1 /\ UNCHANGED vars
TNext == TNew \/ TUpd \/ TRes \/ TCopy \/ TApp \/ TCall \/ TScalars \/ TInject \/ TDistinct \/ TTrait \/ TFact \/ TProject \/ TUniform \/ TBulk \/ THuge \/ Done
TSpec == TInit /\ [][TNext]_vars

Total == FoldLeft(LAMBDA s,x : s + Len(x.ev) + 1, 0, Traces)
TraceAccepted == TLCGet("distinct") = Total /\ Len(Traces) > 0

Alias == [ record |-> Traces[t].id, position |-> l, t |-> t,
           event |-> IF l <= Len(Events) THEN Ev ELSE [op |-> "end"],
           expected |-> IF l > Len(Events) THEN <<>>
                        ELSE IF Ev.op = "res" THEN AResult(objs[Ev.o])[1]
                        ELSE IF Ev.op = "app" /\ objs[Ev.o].a \in RecAlgs THEN App(objs[Ev.o], Ev.t, Ev.v, Ev.f).msg
                        ELSE IF Ev.op = "call" /\ objs[Ev.o].a \in RecAlgs THEN Call(objs[Ev.o], Ev.c, Ev.f).msg
                        ELSE <<>> ]
=============================================================================
