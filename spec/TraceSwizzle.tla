----------------------------- MODULE TraceSwizzle -----------------------------
(* Is a recorded sequence of accesses a behaviour of Swizzle, and is no accessor missing? *)
EXTENDS Swizzle, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l, bad>>
Init == l = 1 /\ bad = 0
(* every word of every kind of object was read (and written, where it can be) *)
AllSeen(ev) ==
    LET seen == {<<Trace[i].a[1].k, Trace[i].nm>> : i \in {j \in 1..(l - 1) : Trace[j].o = ev.what}}
    IN \A k \in 1..Len(ev.kinds) :
        {<<ev.kinds[k], w>> : w \in (IF ev.what = "swread" THEN Words(ev.n) ELSE WriteWords(ev.n))} \subseteq seen
Accept == LET ev == Trace[l] IN
    CASE ev.o = "swread" -> ReadOk(ev)
      [] ev.o = "swset" -> WriteOk(ev)
      [] ev.o = "refuse" -> RefuseOk(ev)
      [] ev.o = "all" -> AllSeen(ev)
      [] ev.o = "end" -> l = Len(Trace)
      [] OTHER -> FALSE
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ IF Accept THEN bad' = bad
           ELSE bad' = bad + 1 /\ PrintT(<<"REJECT", l>>)
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace) /\ Trace[Len(Trace)].o = "end"
=============================================================================
