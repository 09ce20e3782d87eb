------------------------------- MODULE TraceUtil ------------------------------
(* Is a recorded list of compile-time facts what Util says?  The trace must name every *)
(* type name once.                                                                      *)
EXTENDS Util, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l, bad>>

Init == l = 1 /\ bad = 0
Accept == LET ev == Trace[l] IN
    CASE ev.o = "end" -> l = Len(Trace)
      [] ev.o = "util" -> UtilOk(ev)
      [] ev.o = "names" -> Cardinality({Trace[i].name : i \in {j \in 1..Len(Trace) : Trace[j].o = "util" /\ Trace[j].q = "name"}}) = AllNames
      [] OTHER -> FALSE
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ IF Accept THEN bad' = bad
           ELSE bad' = bad + 1 /\ PrintT(<<"REJECT", l>>)
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace) /\ Trace[Len(Trace)].o = "end"
=============================================================================
