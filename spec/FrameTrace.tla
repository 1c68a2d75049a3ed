---- MODULE FrameTrace ----
(***************************************************************************)
(* Judges recorded histories against Frame.tla.  Each event has the list   *)
(* of components which differ before and after the call (found by walking  *)
(* the trees without the library), and the outcome.  For "save", it also   *)
(* has three readings of the document: in memory, reopened, in the file.   *)
(***************************************************************************)
EXTENDS TraceBase, Frame, SequencesExt

VARIABLES h, i, bad

(* fields which are sets are recorded as sequences *)
Op(e) == [e EXCEPT !.p = ToSet(e.p), !.k = ToSet(e.k)]

Clauses(e0) ==
    LET e == Op(e0)
        d == ToSet(e.diff)
    IN { <<"C04", "something other than the target changed",
              e.r = "ok" /\ e.op # "save" => \A c \in d : MayChange(e, Comp(c.o, c.p))>>,
         <<"C04", "reading or saving changed something", e.op \in {"read", "save"} => d = {}>>,
         <<"C06", "a call which failed changed something", e.r # "ok" => d = {}>>,
         <<"C06", "an argument which is not acceptable was accepted", MustRefuse(e) => e.r # "ok">>,
         <<"C03", "the reopened document does not read the same", e.op = "save" => e.r = "ok" /\ e.api = "same">>,
         <<"C03", "the file does not contain what is in memory", e.op = "save" => e.xml = "same">> }

TInit == h \in 1..Len(Histories) /\ i = 0 /\ bad = {}
TNext == /\ i < Len(Histories[h].ev)
         /\ bad = {}
         /\ bad' = FailingHere(Clauses(Histories[h].ev[i+1]))
         /\ i' = i+1
         /\ UNCHANGED h
Conforms == \A b \in bad : b[1] # IOEnv.PROP
====
