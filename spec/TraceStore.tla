------------------------------ MODULE TraceStore ------------------------------
(* Is the recorded history of a program a behaviour of the memory model?             *)
(* Every event carries the whole memory and all bindings after the operation, what   *)
(* it returned, whether it threw, whether the returned reference was the destination *)
(* and what every view shows when read.                                              *)
EXTENDS Store, BigWorld, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, bad
vars == <<l, st, bad>>

Get(ev, f, default) == IF f \in DOMAIN ev THEN ev[f] ELSE default
Logged(ev) == [m |-> ev.m, b |-> ev.b]
ShownPlace(v) == IF v \in DOMAIN Fixed THEN [ob |-> v, ix |-> Fixed[v]] ELSE Whole(v)

Observed(ev, post) ==
    /\ Logged(ev) = post
    /\ \A v \in DOMAIN World.views : ev.s2[v] = Vals(post.m, post.b, ShownPlace(v))
    /\ Get(ev, "r", <<>>) = Returns(st, ev)
    /\ Get(ev, "threw", 0) = (IF Throws(st, ev) THEN 1 ELSE 0)
    /\ Get(ev, "self", 1) = 1

Step(ev) == Observed(ev, Effect(st, ev))
Known(ev) == ev.o = "assign" /\ "dev" \in DOMAIN ev /\ Observed(ev, WholeOwnerCopy(st, ev))

Init == l = 1 /\ st = [m |-> <<>>, b |-> InitBind] /\ bad = 0
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET ev == Trace[l] IN
           CASE ev.o = "end" -> UNCHANGED <<st, bad>>
             [] ev.o = "crash" -> PrintT(<<"REJECT", l>>) /\ bad' = bad + 1 /\ UNCHANGED st
             [] ev.o = "init" -> st' = Logged(ev) /\ UNCHANGED bad       \* a new program starts
             [] OTHER ->
                /\ st' = Logged(ev)
                /\ IF Step(ev) THEN bad' = bad
                   ELSE IF Known(ev) THEN bad' = bad /\ PrintT(<<"KNOWN", l, "same-type-swizzle-assignment">>)
                   ELSE bad' = bad + 1 /\ PrintT(<<"REJECT", l>>)
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace) /\ Trace[Len(Trace)].o = "end"
=============================================================================
