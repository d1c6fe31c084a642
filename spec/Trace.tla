-------------------------------- MODULE Trace --------------------------------
(* Checks recorded traces of the library. Each line of the file named by the  *)
(* environment variable TRACES is a program with the events of one run of it. *)
(* Every event must be one that Machine allows. The first one of a trace that *)
(* is not is printed, and ends that trace.                                    *)
EXTENDS Machine, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Programs == TLCEval([i \in 1..Len(Traces) |->
                        TLCEval(<<ResolveAt(Traces[i].prog, 0), ResolveAt(Traces[i].prog, 1)>>)])

VARIABLES tid, l, objs, time
vars == <<tid, l, objs, time>>

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1
        /\ time = 0
        /\ objs = [i \in 1..Traces[tid].slots |-> Nil]

Report(kind, detail) == PrintT("@@" \o ToJson(<<kind, tid, l, detail>>))

Next ==
    /\ l <= Len(Traces[tid].ev)
    /\ LET ev   == Traces[tid].ev[l]
           P    == Programs[tid][time + 1]
           outs == Outcomes(P, objs, ev)
           st   == IF ev.st = <<>> THEN objs ELSE ev.st     \* left out if nothing changed
           fits == {o \in outs : Disagreement(o, ev.res, st) = ""}
       IN  IF fits = {}
           THEN /\ LET o == CHOOSE o \in outs : TRUE IN
                   Report("MISMATCH", <<Disagreement(o, ev.res, st), o.res,
                                        IF o.outs = {} THEN <<>> ELSE o.outs, o.pos, o.objs>>)
                /\ l' = Len(Traces[tid].ev) + 2
                /\ UNCHANGED <<tid, objs, time>>
           ELSE /\ objs' = st
                /\ l' = l + 1
                /\ time' = IF ev.op = "tick" THEN 1 - time ELSE time
                /\ UNCHANGED tid

Done(t) == l = Len(Traces[t].ev) + 1
Spec == Init /\ [][Next]_vars

\* Printed for the harness, which checks that every trace was gone through.
Finished == l > Len(Traces[tid].ev) => (Done(tid) => Report("DONE", 0))
=============================================================================
