---------------------------- MODULE TraceDigest -----------------------------
(* Trace validation for digests.  Every event that yields or changes an object shows what its
   accessors give afterwards: the set of distinct byte strings seen through operator[], iterators,
   data(), front() and back(), const and not, and sizes. *)
EXTENDS Digest, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
vars == <<ds, t, l>>
Events == Traces[t].ev
Ev == Events[l]
Is(op) == l <= Len(Events) /\ Ev.op = op /\ l' = l + 1 /\ t' = t
TInit == DInit /\ t \in 1..Len(Traces) /\ l = 1

Shown(o) == Ev.see = <<ds'[o]>> /\ Ev.size = Len(ds'[o])
TNew == Is("new") /\ (IF Ev.k = "default" THEN Default(Ev.o, Ev.n) ELSE FromArray(Ev.o, Ev.b)) /\ Shown(Ev.o)
TCopy == Is("copy") /\ Copy(Ev.o, Ev.p) /\ Shown(Ev.p)
TSet == Is("set") /\ Set(Ev.o, Ev.i, Ev.b) /\ Shown(Ev.o)
TFill == Is("fill") /\ Fill(Ev.o, Ev.b) /\ Shown(Ev.o)
TSee == Is("see") /\ UNCHANGED ds /\ Shown(Ev.o)
TEq == Is("eq") /\ Ev.eq = Equal(Ev.o, Ev.p) /\ Ev.ne = ~Ev.eq /\ UNCHANGED ds
TChars == Is("chars") /\ Chars(ds[Ev.o], Ev.lead, Ev.n, Ev.pre, Ev.post, Ev.ret) /\ UNCHANGED ds
TArr == Is("arr") /\ CharsArray(ds[Ev.o], Ev.pre, Ev.post) /\ UNCHANGED ds
TStr == Is("str") /\ Ev.s = Text(ds[Ev.o]) /\ UNCHANGED ds
TOut == Is("out") /\ Ev.s = Streamed(ds[Ev.o], Ev.width, Ev.fill, Ev.adjust) /\ Ev.after = 0 /\ Ev.good = TRUE /\ UNCHANGED ds
TFact == Is("fact") /\ Ev.is = Ev.doc /\ UNCHANGED ds
Done == l = Len(Events) + 1 /\ UNCHANGED vars
TNext == TNew \/ TCopy \/ TSet \/ TFill \/ TSee \/ TEq \/ TChars \/ TArr \/ TStr \/ TOut \/ TFact \/ Done
TSpec == TInit /\ [][TNext]_vars
Total == FoldLeft(LAMBDA s,x : s + Len(x.ev) + 1, 0, Traces)
TraceAccepted == TLCGet("distinct") = Total /\ Len(Traces) > 0
Alias == [ record |-> Traces[t].id, position |-> l, t |-> t, event |-> IF l <= Len(Events) THEN Ev ELSE [op |-> "end"] ]
=============================================================================
