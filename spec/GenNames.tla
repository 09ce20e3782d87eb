------------------------------- MODULE GenNames -------------------------------
(* Prints every accessor word of a vector of N components, for the driver. *)
EXTENDS Swizzle, Json, IOUtils, SequencesExt
VARIABLE done
N == atoi(IOEnv.N)
Init == done = FALSE
Next == ~done /\ done' = TRUE /\ PrintT("WORDS " \o ToJson(SetToSeq(IndexWords(N))))
Spec == Init /\ [][Next]_done
=============================================================================
