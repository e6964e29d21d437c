--------------------------- MODULE MCActivations ---------------------------
EXTENDS Activations, Json
CONSTANTS N, Vals, Gaps, Offs, Ons, Borders
VARIABLES st, raw, job
RECURSIVE Times(_, _)
Times(t, gaps) == IF gaps = <<>> THEN <<t>> ELSE <<t>> \o Times(t + Head(gaps), Tail(gaps))
V(x) == IF x = 777 THEN NaN ELSE x
\* every pattern of readings; one place may have a gap
Init == \E n \in 1..N : \E v \in [1..n -> Vals], g \in Gaps : \E at \in 1..(IF g = 1 THEN 1 ELSE n) :
          LET ts == Times(0, [i \in 1..(n - 1) |-> IF i = at THEN g ELSE 1])
          IN raw = <<1, 2, 1, 2, 777>> \o Flat([i \in 1..n |-> <<ts[i], V(v[i])>>]) /\ st = InitSt(raw) /\ job = <<>>
Ask == \E off \in Offs, on \in Ons, b \in Borders : job' = <<60, off, on, b>>
Next == job = <<>> /\ UNCHANGED <<st, raw>> /\ Ask
s == st.s
A == Activations(s, job[1], job[2], job[3], job[4])
Core == Long(s, Bridge(s, Runs(s, job[1]), job[2]), job[3])
\* each activation lies between off readings, with no off stretch of the minimum duration inside
BetweenOff == job # <<>> => \A k \in 1..Len(Core) : LET r == Core[k] IN
   /\ ~On(s, r[1] - 1, 60) /\ On(s, r[1], 60) /\ ~On(s, r[2], 60) /\ On(s, r[2] - 1, 60)
   /\ T(s, r[2]) - T(s, r[1]) >= job[3]
   /\ \A i, j \in r[1]..(r[2] - 1) : (i < j /\ On(s, j, 60) /\ \A x \in i..(j - 1) : ~On(s, x, 60)) => T(s, j) - T(s, i) < job[2]
Apart == job # <<>> => \A k \in 1..(Len(Core) - 1) : Core[k][2] < Core[k + 1][1]
                          /\ (job[2] > 0 /\ job[3] = 0) => T(s, Core[k + 1][1]) - T(s, Core[k][2]) >= job[2]
\* no complete run long enough by itself is missed
Complete == job # <<>> => \A k \in 1..Len(Runs(s, 60)) : LET r == Runs(s, 60)[k] IN
   T(s, r[2]) - T(s, r[1]) >= job[3] => \E j \in 1..Len(Core) : Core[j][1] <= r[1] /\ r[2] <= Core[j][2]
NoMissing == job # <<>> => \A k \in 1..Len(A) : \A i \in 1..Len(A[k]) : A[k][i][2] # NaN
Ev(o, a) == [op |-> o, a |-> a, res |-> Apply(st, [op |-> o, a |-> a]).res]
Emit == job # <<>> => PrintT(ToJson(<<[op |-> "begin", a |-> raw, res |-> <<>>], Ev("activations", job)>>))
===========================================================================
