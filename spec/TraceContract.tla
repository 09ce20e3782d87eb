----------------------------- MODULE TraceContract -----------------------------
(* Is a recorded sequence of calls, inside and outside their contracts, specified by Contract? *)
(* Every line of the trace is one step; a line that is not a step of the           *)
(* specification is printed and remembered, and the rest is still checked.         *)
EXTENDS Contract, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l, bad>>

Init == l = 1 /\ bad = 0
Accept == LET ev == Trace[l] IN IF ev.o = "end" THEN l = Len(Trace) ELSE ev.o # "crash" /\ ContractOk(ev)
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ IF Accept THEN bad' = bad
           ELSE bad' = bad + 1 /\ PrintT(<<"REJECT", l>>)
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace) /\ Trace[Len(Trace)].o = "end"
=============================================================================
