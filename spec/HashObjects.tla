---------------------------- MODULE HashObjects ----------------------------
(***************************************************************************)
(* Hash objects as values in a store: the abstract state machine of the    *)
(* library's public interface.  An object is created by one of the         *)
(* constructors, absorbs bytes, gives results, is copied and destroyed.    *)
(* Nothing but the object named by an action changes, and what an object   *)
(* does is a function of its own state alone.                              *)
(*                                                                         *)
(* hist and last are history variables: hist[o] is the way o was made and  *)
(* everything it absorbed, last the latest result.  They let properties    *)
(* that speak about whole messages be stated as invariants.                *)
(***************************************************************************)
EXTENDS HashAlg

VARIABLES objs,   \* function from live object names to algorithm states
          hist,   \* [o |-> [a, kind, seed, msg, results]]
          last    \* [o, r]: the object and bytes of the latest result, or NoResult
ovars == <<objs, hist, last>>

NoResult == [o |-> -1, r |-> <<>>]
OInit == objs = [o \in {} |-> <<>>] /\ hist = [o \in {} |-> <<>>] /\ last = NoResult

Put(f, o, v) == [x \in DOMAIN f \cup {o} |-> IF x = o THEN v ELSE f[x]]
Drop(f, o) == [x \in DOMAIN f \ {o} |-> f[x]]

Constructed(a, kind, seed) ==
  CASE kind = "d" -> New(a)
    [] kind = "i" -> NewInt(a, seed)
    [] kind = "b" -> NewBytes(a, seed)
    [] kind = "2" -> PlainSeed2(a, seed[1], seed[2])

Construct(o, a, kind, seed) ==
  /\ objs' = Put(objs, o, Constructed(a, kind, seed))
  /\ hist' = Put(hist, o, [a |-> a, kind |-> kind, seed |-> seed, msg |-> <<>>, results |-> 0])
  /\ last' = NoResult

UpdateObj(o, bytes) ==
  /\ o \in DOMAIN objs
  /\ objs' = [objs EXCEPT ![o] = Update(@, bytes)]
  /\ hist' = [hist EXCEPT ![o].msg = IF hist[o].results = 0 THEN @ \o bytes ELSE @]
  /\ last' = NoResult

(* the result r is the one the object's state determines *)
ResultObj(o, r) ==
  /\ o \in DOMAIN objs
  /\ LET f == TLCEval(Result(objs[o])) IN
     /\ r = f[1]
     /\ objs' = [objs EXCEPT ![o] = f[2]]
  /\ hist' = [hist EXCEPT ![o].results = @ + 1]
  /\ last' = [o |-> o, r |-> r]

CopyObj(o, p) ==
  /\ o \in DOMAIN objs
  /\ objs' = Put(objs, p, objs[o])
  /\ hist' = Put(hist, p, hist[o])
  /\ last' = NoResult

FreeObj(o) ==
  /\ o \in DOMAIN objs
  /\ objs' = Drop(objs, o)
  /\ hist' = Drop(hist, o)
  /\ last' = NoResult

-----------------------------------------------------------------------------
(* Whole-message properties *)

KeyOf(h) == CASE h.kind = "d" -> <<>>
              [] h.kind = "i" -> IF h.seed = Zero64 THEN <<>> ELSE LEBytes64(h.seed)
              [] h.kind = "b" -> h.seed

(* the first result of an unseeded object is the published function of what it absorbed *)
FirstResultPublished ==
  (last # NoResult /\ hist[last.o].results = 1 /\ hist[last.o].kind = "d" /\ hist[last.o].a \notin HmacAlgs)
    => last.r = PublishedPlain(hist[last.o].a, hist[last.o].msg)
(* the first result of an HMAC object is RFC 2104's function of key and message *)
FirstResultHmac ==
  (last # NoResult /\ hist[last.o].results = 1 /\ hist[last.o].a \in HmacAlgs)
    => last.r = PublishedHmac(hist[last.o].a, KeyOf(hist[last.o]), hist[last.o].msg)
=============================================================================
