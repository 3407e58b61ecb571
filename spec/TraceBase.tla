----------------------------- MODULE TraceBase -----------------------------
(* Batch validation of recorded traces. A file of traces (a JSON array of     *)
(* arrays of event records) is read, the initial state chooses a trace, and   *)
(* the longest prefix of each trace that some behaviour of the specification  *)
(* explains is noted in a TLC register. A trace is accepted when every one of *)
(* its events is explained.                                                   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
NTraces == Len(Traces)
ASSUME \A i \in 1..NTraces : TLCSet(i, 0)

Max(a, b) == IF a > b THEN a ELSE b
(* used as a CONSTRAINT: l is the position of the next event to explain *)
NotePos(tr, l) == TLCSet(tr, Max(TLCGet(tr), l))
Rejected == { i \in 1..NTraces : TLCGet(i) < Len(Traces[i]) + 1 }
Report ==
  /\ \A i \in Rejected : PrintT(<<"VFBAD", i, TLCGet(i)>>)
  /\ PrintT(<<"VFDONE", NTraces>>)
=============================================================================
