------------------------------- MODULE JBase --------------------------------
(* Common part of the trace specifications: reads the recorded events.  Each *)
(* trace specification defines                                               *)
(*   Failing(e, st)  the clauses of the specification that event e violates  *)
(*   Step(st, e)     the specification state after e                         *)
(* and steps through the events one by one; JDone demands that every event   *)
(* was consumed.                                                             *)
EXTENDS TLC, TLCExt, Json, IOUtils, Integers, Sequences, FiniteSets, SequencesExt
Tr == ndJsonDeserialize(IOEnv.TRACE)
Report(i, F) == IF F = {} THEN TRUE
                ELSE PrintT("FAIL " \o ToJson([at |-> i, clauses |-> SetToSeq(F)]))
JDone == TLCGet("stats").distinct = Len(Tr) + 1
(* clauses: a sequence of <<name, holds>>; the names of those that do not hold *)
Violated(cs) == { cs[k][1] : k \in { m \in 1 .. Len(cs) : ~cs[m][2] } }
=============================================================================
