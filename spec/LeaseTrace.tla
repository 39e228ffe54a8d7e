---------------------------- MODULE LeaseTrace ----------------------------
(* Validates recorded traces against Lease: every line must be a step.   *)
EXTENDS Lease, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VERIF_TRACES)
VARIABLES tid, l
TraceInit == Init /\ tid \in 1..Len(Traces) /\ l = 1
TraceNext ==
  /\ l <= Len(Traces[tid].trace)
  /\ Step(Traces[tid].trace[l])
  /\ l' = l + 1
  /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tid, l>>
Track == TLCSet(tid, l)
Accepted ==
  /\ PrintT(<<"TRACES", Len(Traces)>>)
  /\ \A t \in 1..Len(Traces) :
       TLCGet(t) = Len(Traces[t].trace) + 1 \/ PrintT(<<"REJECTED", t, Traces[t].id, TLCGet(t)>>)
=============================================================================
