----------------------------- MODULE ChunksTrace -----------------------------
EXTENDS TraceLib
VARIABLES l
C == INSTANCE Chunks WITH N <- 0, MaxLen <- 0, MaxChunk <- 0, len <- <<>>, size <- 0,
                          num <- 0, at <- <<>>, out <- <<>>
Allowed(r) == r.ev = "chunks" /\ r.ok /\ Len(r.items) = r.n /\ C!Good(r.items, r.chunk, r.out)
Init == l = 1
Next == l <= Len(Trace) /\ Allowed(Trace[l]) = TRUE /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
