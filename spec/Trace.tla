-------------------------------- MODULE Trace --------------------------------
(* Validates a recorded execution of the real library, one public operation    *)
(* per step, against the specification of the operations (Ops, Query, ...).    *)
(*                                                                              *)
(* State: heap = the graphframes alive in the scenario (their full observable   *)
(* state), grp = which of them share data, ctx = the scenario's context, aux =  *)
(* the state of profilers, timers and their files.                              *)
(* A step is accepted iff Err = {}; failing clauses are printed and the trace    *)
(* goes on from the observed state, so one deviation does not hide others.       *)
EXTENDS Steps, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, heap, grp, ctx, aux
vars == <<l, heap, grp, ctx, aux>>

Init == l = 1 /\ heap = Empty /\ grp = Empty /\ ctx = [name |-> ""] /\ aux = Aux0
Step(x) ==
  LET h == IF x.op = "begin" THEN Empty ELSE heap
      g == IF x.op = "begin" THEN Empty ELSE grp
      e == Err(x, h, grp, ctx, aux)
  IN /\ IF e = {} THEN TRUE ELSE PrintT(<<"BAD", l, e>>)
     /\ heap' = Put(x.chg, h)
     /\ grp' = [i \in DOMAIN x.chg \cup DOMAIN g |-> IF i \in DOMAIN g THEN g[i] ELSE NewGrp(x, i, grp)]
     /\ ctx' = IF x.op = "begin" THEN x.a ELSE ctx
     /\ aux' = AuxNext(aux, x, h)
     /\ l' = l + 1
Next == l <= Len(Trace) /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars

Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
            ELSE PrintT(<<"STUCK", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
