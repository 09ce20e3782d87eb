------------------------------ MODULE TraceIter ------------------------------
(* Is the recorded use of real iterators a behaviour of Iter?  Each event carries the  *)
(* two positions (as distance from begin) and all components (by index) afterwards.    *)
EXTENDS Iter, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, bad
vars == <<l, s, bad>>
Init == l = 1 /\ bad = 0 /\ s = [n |-> 0, rev |-> 0, v |-> <<>>, p |-> <<0, 0>>]
Logged(e) == [s EXCEPT !.v = e.v, !.p = e.p]
Step(e) == Enabled(s, e) /\ Logged(e) = After(s, e) /\ e.r = Answer(s, e)
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           CASE e.o = "end" -> UNCHANGED <<s, bad>>
             [] e.o = "crash" -> PrintT(<<"REJECT", l>>) /\ bad' = bad + 1 /\ UNCHANGED s
             [] e.o = "new" ->                                 \* fresh iterators: begin and end of n components
                LET t == [n |-> e.n, rev |-> e.rev, v |-> e.w, p |-> <<0, e.n>>] IN
                /\ s' = t
                /\ IF e.v = e.w /\ e.p = t.p THEN bad' = bad ELSE bad' = bad + 1 /\ PrintT(<<"REJECT", l>>)
             [] OTHER -> /\ s' = IF Len(e.v) = s.n THEN Logged(e) ELSE s
                         /\ IF Step(e) THEN bad' = bad ELSE bad' = bad + 1 /\ PrintT(<<"REJECT", l>>)
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace) /\ Trace[Len(Trace)].o = "end"
=============================================================================
