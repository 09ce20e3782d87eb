------------------------------ MODULE TraceCtor  ------------------------------
(* Is a recorded sequence of calls a behaviour of the library specified by Ctor?   *)
(* Every line of the trace is one step; a line that is not a step of the           *)
(* specification is printed and remembered, and the rest is still checked.         *)
EXTENDS Offers, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l, bad>>

Init == l = 1 /\ bad = 0
Accept == LET ev == Trace[l] IN IF ev.o = "end" THEN l = Len(Trace) ELSE 
    CASE ev.o = "ctor" -> CtorOk(ev)
      [] ev.o = "offer" -> OfferedOk(ev)
      [] ev.o = "moffer" -> MatOfferedOk(ev)
      [] ev.o = "may" -> MayOk(ev)
      [] ev.o = "refuse" -> ThrowsOk(ev)
      [] ev.o = "nullptr" -> NullOk(ev)
      [] ev.o = "overlap" -> OverlapOk(ev)
      [] OTHER -> AnyCallOk(ev)
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ IF Accept THEN bad' = bad
           ELSE IF Trace[l].o = "may" /\ KnownMay(Trace[l]) THEN bad' = bad /\ PrintT(<<"KNOWN", l, "repeated-swizzle-self-type">>)
           ELSE bad' = bad + 1 /\ PrintT(<<"REJECT", l>>)
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace) /\ Trace[Len(Trace)].o = "end"
=============================================================================
