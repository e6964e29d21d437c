------------------------------ MODULE MCMetrics ------------------------------
EXTENDS Metrics, Json
CONSTANTS MaxN, Vals, MaxRows, Gaps
VARIABLES raw, st
RECURSIVE Times(_, _)
Times(t, gaps) == IF gaps = <<>> THEN <<t>> ELSE <<t>> \o Times(t + Head(gaps), Tail(gaps))
Pow == <<4, 40, 8, 60, 12, 20>>
Other == <<60, 6, 12, 14, 30, 8>>
Table(t0, gaps, ps, skip) == LET ts == Times(t0, gaps) IN
  Flat([i \in 1..Len(ts) |-> <<ts[i], IF i = skip THEN NaN ELSE ps[i]>>])
GapSeqs == UNION {[1..n -> Gaps] : n \in 2..(MaxRows - 1)}
Init ==
  /\ \/ \E n \in 1..MaxN : \E g \in [1..n -> Vals], p \in [1..n -> Vals] : raw = <<1, n>> \o g \o p
     \/ \E gp \in GapSeqs, gt \in {[i \in 1..5 |-> 1], [i \in 1..3 |-> 2]}, off \in {0, 3}, skip \in {0, 2}, sp \in {1, 2} :
          raw = <<2, 1, 2, sp, Len(gp) + 1, Len(gt) + 1>> \o Table(0, gp, Pow, skip) \o Table(off, gt, Other, 0)
  /\ st = InitSt(raw)
Next == FALSE /\ UNCHANGED <<raw, st>>
Perfect == st.k = 1 /\ st.g = st.p =>
  /\ Mae(st.g, st.p) = 0 /\ SqErr(st.g, st.p) = 0 /\ Rel(st.g, st.p) = 0
  /\ (Total(st.g) > 0 => Nep(st.g, st.p) = 0)
  /\ F1(st.g, st.p, 10, 3) = (IF \E i \in 1..Len(st.g) : st.g[i] >= 10 THEN 1000 ELSE 0)
OnlyPerfect == st.k = 1 /\ st.g # st.p => AbsErr(st.g, st.p) > 0 /\ SqErr(st.g, st.p) > 0 /\ Rel(st.g, st.p) > 0
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
OrderIrrelevant == st.k = 1 =>
  /\ AbsErr(Rev(st.g), Rev(st.p)) = AbsErr(st.g, st.p) /\ SqErr(Rev(st.g), Rev(st.p)) = SqErr(st.g, st.p)
  /\ F1(Rev(st.g), Rev(st.p), 10, 3) = F1(st.g, st.p, 10, 3) /\ Rel(Rev(st.g), Rev(st.p)) = Rel(st.g, st.p)
\* the mean absolute error never exceeds the root of the mean square
MaeBelowRms == st.k = 1 => Sq(AbsErr(st.g, st.p)) <= Len(st.g) * SqErr(st.g, st.p)
F1Symmetric == st.k = 1 => F1(st.g, st.p, 10, 3) = F1(st.p, st.g, 10, 3) /\ F1(st.g, st.p, 10, 3) \in 0..1000
\* only instants inside good sections of the prediction are compared, and no bin is compared twice
Inside == st.k = 2 => \A k \in 1..Len(st.m) :
  LET m == st.m[k] g == Good(m) IN
  /\ \A i \in 1..Len(g) : \A j \in 1..Len(Part(m.pred, g[i][1], g[i][2], TRUE)) - 1 :
       LET x == Part(m.pred, g[i][1], g[i][2], TRUE) IN x[j + 1][1] - x[j][1] <= m.maxp \/ x[j][2] = NaN \/ x[j + 1][2] = NaN
  /\ Len(Both(m)) <= Len(m.truth)
Ev(o) == [op |-> o, a |-> <<>>, res |-> <<>>]
Emit == PrintT(ToJson(<<[op |-> "begin", a |-> raw, res |-> <<>>]>> \o
          IF st.k = 1 THEN <<Ev("mae"), Ev("rmse"), Ev("f1"), Ev("rel"), Ev("nde"), Ev("nep"), Ev("r2")>>
          ELSE <<Ev("g_mne"), Ev("g_rms"), Ev("g_f1"), Ev("g_energy"), Ev("g_fraction")>>))
=============================================================================
