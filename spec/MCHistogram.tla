----------------------------- MODULE MCHistogram -----------------------------
EXTENDS Histogram, Json
CONSTANTS Vals, MaxLen, MaxChunk
VARIABLES raw, st, job
vars == <<raw, st, job>>
Vs == {IF v = 777 THEN NaN ELSE v : v \in Vals}
Chunk == UNION {[1..n -> Vs] : n \in 0..MaxChunk}
Cat(cs) == Flat([k \in 1..Len(cs) |-> <<Len(cs[k])>> \o cs[k]])
Init == \E n \in 1..MaxLen : \E cs \in [1..n -> Chunk] : raw = Cat(cs) /\ st = InitSt(raw) /\ job = <<>>
Ask == job = <<>> /\ \E nb \in {None, 1, 2, 4}, lo \in {None, 0, 2}, hi \in {None, 4, 6} :
         Defined(st, nb, lo, hi) /\ job' = <<nb, lo, hi>> /\ UNCHANGED <<raw, st>>
Next == Ask
W == Whole(st, job[1], job[2], job[3])
ChunkingIrrelevant == job # <<>> => W.c = Adding(st, W.n, W.lo, W.hi)
EveryReadingOnce == job # <<>> =>
  SumSeq(W.c) = Cardinality({i \in 1..Len(Flat(st)) : Flat(st)[i] # NaN /\ Flat(st)[i] >= W.lo /\ Flat(st)[i] <= W.hi})
Emit == job # <<>> => PrintT(ToJson(<<[op |-> "begin", a |-> raw, res |-> <<>>], [op |-> "hist", a |-> job, res |-> Obs(W)]>>))
=============================================================================
