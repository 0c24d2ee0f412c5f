----------------------------- MODULE TraceHash -----------------------------
(***************************************************************************)
(* Trace validation: every line of the file named by the environment       *)
(* variable TRACES is the record of one execution of the library.  Each is *)
(* an initial state; an event is consumed by the HashObjects action it     *)
(* names, with the logged arguments and result.  A record that is not a    *)
(* behaviour of the specification stops before its end: a deadlock.        *)
(***************************************************************************)
EXTENDS HashObjects, Json, IOUtils, FiniteSets

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES t, l         \* which record, position in it
tvars == <<objs, hist, last, t, l>>

Events == Traces[t].ev
Ev == Events[l]
IsEvent(op) == l <= Len(Events) /\ Ev.op = op /\ l' = l + 1 /\ t' = t

TInit == OInit /\ t \in 1..Len(Traces) /\ l = 1

TNew == IsEvent("new") /\ Construct(Ev.o, Ev.a, Ev.k, Ev.s)
TUpd == IsEvent("upd") /\ UpdateObj(Ev.o, Ev.b)
(* Ev.r lists the distinct results seen, over all ways of cutting and placing the updates *)
TRes == IsEvent("res") /\ Len(Ev.r) = 1 /\ ResultObj(Ev.o, Ev.r[1])
TCopy == IsEvent("copy") /\ CopyObj(Ev.o, Ev.p)
TFree == IsEvent("free") /\ FreeObj(Ev.o)

(* A message fed under every division into mode parts; one observation for all of them: two
   results, then a further update and its result *)
Probe == <<112,114,111,98,101>>
SweepOf(a, m) ==
  LET r1 == TLCEval(Result(TLCEval(Update(New(a), m))))
      r2 == TLCEval(Result(r1[2]))
      r3 == TLCEval(Result(TLCEval(Update(r2[2], Probe))))
  IN r1[1] \o r2[1] \o r3[1]
TSweep ==
  /\ IsEvent("sweep")
  /\ LET n == Len(Ev.m) IN Ev.cuts = (IF Ev.mode = 2 THEN n + 1 ELSE ((n+1)*(n+2)) \div 2)
  /\ Len(Ev.r) = 1
  /\ Ev.r[1] = SweepOf(Ev.a, Ev.m)
  /\ UNCHANGED ovars

(* After result(), no byte of the object follows a byte of message or key in all trials *)
TErase ==
  /\ IsEvent("erase")
  /\ Ev.trials >= 6 /\ Ev.inbytes > 0 /\ Ev.objbytes > 0
  /\ Ev.leaks = <<>>
  /\ UNCHANGED ovars

(* Lengths no message in this world has: the object's count is raised by a multiple of the block size
   (the harness writes it into the object's representation).  The state is the one after some message
   that is longer by Ev.n bytes and happens to have the same chaining value. *)
Skipped(st, n) == [st EXCEPT !.n = Add64(@, n)]
TSkip ==
  /\ IsEvent("skip")
  /\ Ev.o \in DOMAIN objs /\ Ev.n[1] % BlockSize(objs[Ev.o].a) = 0
  /\ LET st == objs[Ev.o]
     IN objs' = [objs EXCEPT ![Ev.o] = IF st.a \in HmacAlgs THEN [st EXCEPT !.inner = Skipped(@, Ev.n)] ELSE Skipped(st, Ev.n)]
  /\ UNCHANGED <<hist, last>>

(* Observations that have to differ from each other: the results of one object one after another
   (C05), the functions selected by different seeds (C04). *)
TDistinct ==
  /\ IsEvent("distinct")
  /\ Len(Ev.rs) > 1
  /\ Cardinality({Ev.rs[i] : i \in 1..Len(Ev.rs)}) = Len(Ev.rs)
  /\ UNCHANGED ovars

(* There is no action for "fault": a crash, a sanitizer report, a data race. *)

Done == l = Len(Events) + 1 /\ UNCHANGED tvars

TNext == TNew \/ TUpd \/ TRes \/ TCopy \/ TFree \/ TSweep \/ TErase \/ TDistinct \/ TSkip \/ Done
TSpec == TInit /\ [][TNext]_tvars

(* every record was consumed to its end: one state per event and one initial state per record *)
Total == FoldLeft(LAMBDA s,x : s + Len(x.ev) + 1, 0, Traces)
TraceAccepted == TLCGet("distinct") = Total /\ Len(Traces) > 0

(* shown with a rejected record *)
Alias == [ t |-> t, record |-> Traces[t].id, position |-> l,
           event |-> IF l <= Len(Events) THEN Ev ELSE [op |-> "end"],
           expected |-> IF l > Len(Events) THEN <<>>
                        ELSE IF Ev.op = "res" /\ Ev.o \in DOMAIN objs THEN Result(objs[Ev.o])[1]
                        ELSE IF Ev.op = "sweep" THEN SweepOf(Ev.a, Ev.m) ELSE <<>> ]
=============================================================================
