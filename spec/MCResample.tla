----------------------------- MODULE MCResample -----------------------------
EXTENDS Resample, Json
CONSTANTS MaxRows, Gaps, Vals, Periods, MaxPs
VARIABLES st, raw, job
V == {IF v = 777 THEN NaN ELSE v : v \in Vals}
RECURSIVE Times(_, _)
Times(t, gaps) == IF gaps = <<>> THEN <<t>> ELSE <<t>> \o Times(t + Head(gaps), Tail(gaps))
Init == \E n \in 0..(MaxRows - 1) : \E gaps \in [1..n -> Gaps], vs \in [1..(n + 1) -> V], t0 \in {0, 1}, mp \in MaxPs :
          LET ts == Times(t0, gaps) IN
          /\ raw = <<mp, 1>> \o Flat([i \in 1..(n + 1) |-> <<ts[i], vs[i]>>])
          /\ st = InitSt(raw) /\ job = <<>>
Ask == job = <<>> /\ \E p \in Periods : job' = <<p, 1000>> /\ UNCHANGED <<st, raw>>
Next == Ask
Rs == Resampled(st.tab, 1, job[1], Limit(st.maxp, job[1]))
D == Dedup(st.tab)
\* one row per period, from the first to the last reading, on multiples of the period
Regular == job # <<>> => /\ \A k \in 1..Len(Rs) : Rs[k][1] = Rs[1][1] + (k - 1) * job[1]
                         /\ Rs[1][1] % job[1] = 0
                         /\ Rs[1][1] <= D[1][1] /\ D[1][1] < Rs[1][1] + job[1]
                         /\ Rs[Len(Rs)][1] <= D[Len(D)][1] /\ D[Len(D)][1] < Rs[Len(Rs)][1] + job[1]
\* every value lies between readings that are at most the allowed gap older
NoInvention == job # <<>> => \A k \in 1..Len(Rs) : Rs[k][2] # NaN =>
   \E i, j \in 1..Len(D) : /\ D[i][2] # NaN /\ D[j][2] # NaN /\ D[i][2] <= Rs[k][2] /\ Rs[k][2] <= D[j][2]
                           /\ D[i][1] < Rs[k][1] + job[1]
                           /\ D[i][1] >= Rs[k][1] - Limit(st.maxp, job[1]) * job[1]
By(h) == ResampledBy(st.tab, 1, job[1], Limit(st.maxp, job[1]), h, FALSE)
\* whatever stands for the readings of a bin lies between the least and the greatest of them
Ordered == job # <<>> => LET lo == By(2) hi == By(1) IN
   \A h \in {0, 3, 4} : LET x == By(h) IN \A k \in 1..Len(x) :
      (x[k][2] = NaN) = (lo[k][2] = NaN) /\ (x[k][2] # NaN => lo[k][2] <= x[k][2] /\ x[k][2] <= hi[k][2])
Ev(o, a, r) == [op |-> o, a |-> a, res |-> r]
H == (job[1] + Len(st.tab) + SumSeq([i \in 1..Len(D) |-> D[i][1]])) % 10
JobBy == job \o <<H % 5, H \div 5, H % 3>>
Emit == job # <<>> => PrintT(ToJson(<<Ev("begin", raw, <<>>), Ev("load", job, LoadObs(st, job)),
                                      Ev("loadby", JobBy, Apply(st, [op |-> "loadby", a |-> JobBy]).res)>>))
===========================================================================
