------------------------------- MODULE TraceCx -------------------------------
(* Calls evaluated twice: at run time, and by the compiler in a constant expression.  *)
(* The run-time evaluation is an ordinary call (r) which has to be a step of the      *)
(* specification; the value of the constant expression (ct) has to be the same        *)
(* number, component by component.  A call that is not a constant expression (nocx)   *)
(* is a step only where the result leaves the finite numbers, or where it compares    *)
(* numbers under a compiler (nocx 2) whose std::isless() and the like are no constant *)
(* expressions, which they need not be in C++20.                                      *)
EXTENDS Ctor, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l, bad>>

Finite(t, x) == IsFloat(t) => Exact(t, x)
Comparing == {"lessThan", "lessThanEqual", "greaterThan", "greaterThanEqual", "equal", "notEqual", "==", "!=", "clamp", "smoothstep"}
CtOk(ev) ==
    IF "nocx" \in DOMAIN ev THEN (ev.nocx = 2 /\ ev.o \in Comparing) \/ \E i \in 1..Len(ev.r.v) : ~Finite(ev.r.t, ev.r.v[i])
    ELSE Len(ev.ct) = Len(ev.r.v) /\ \A i \in 1..Len(ev.ct) : SameNum(ev.r.t, ev.ct[i], ev.r.v[i])
(* calls on plain scalars are traced for C17 and C22 and are not repeated here *)
RtOk(ev) == IF ev.o = "ctor" THEN CtorOk(ev) ELSE AnyCallOk([s |-> ev.r.v] @@ ev)

Init == l = 1 /\ bad = 0
Accept == LET ev == Trace[l] IN
          CASE ev.o = "end" -> l = Len(Trace)
            [] ev.o = "crash" -> FALSE
            [] OTHER -> CtOk(ev) /\ RtOk(ev)
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ IF Accept THEN bad' = bad
           ELSE bad' = bad + 1 /\ PrintT(<<"REJECT", l>>)
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace) /\ Trace[Len(Trace)].o = "end"
=============================================================================
