----------------------------- MODULE MCDropout -----------------------------
EXTENDS Dropout, Json
CONSTANTS MinRows, MaxRows, Gaps, Periods, Sizes
VARIABLES tab, job
vars == <<tab, job>>
RECURSIVE Times(_, _)
Times(t, gaps) == IF gaps = <<>> THEN <<t>> ELSE <<t>> \o Times(t + Head(gaps), Tail(gaps))
Init == \E gaps \in UNION {[1..n -> Gaps] : n \in (MinRows - 1)..(MaxRows - 1)} :
          \E miss \in 0..Len(gaps) :       \* one row without a reading, or none
            tab = [i \in 1..(Len(gaps) + 1) |-> <<Times(0, gaps)[i], IF i = miss THEN 0 ELSE 1, 0>>] /\ job = <<>>
Last == tab[Len(tab)][1]
AskRate == job = <<>> /\ UNCHANGED tab /\ \E sp \in Periods : job' = <<"rate", <<sp>>>>
AskDropout == job = <<>> /\ UNCHANGED tab /\
              \E sp \in Periods, n \in Sizes, g \in {0, 1} : \E o \in {"dropout", "full"} : job' = <<o, <<sp, 2 * sp, n, g>>>>
Next == AskRate \/ AskDropout
Answer == Apply(tab, [op |-> job[1], a |-> job[2]]).res[1]
InUnitInterval == job # <<>> => (Answer = NaN \/ (0 <= Answer /\ Answer <= Unit))
\* no sample is missing when every gap is the sample period
Perfect == (job # <<>> /\ \A i \in 1..(Len(tab) - 1) : tab[i + 1][1] - tab[i][1] = job[2][1])
             => Answer \in {0, NaN}
TooFew == (job # <<>> /\ Len(tab) < MinSamples) => Answer = NaN
Ev(o, a, r) == [op |-> o, a |-> a, res |-> r]
Emit == job # <<>> => PrintT(ToJson(<<Ev("begin", Flat(tab), <<>>), Ev(job[1], job[2], <<Answer>>)>>))
===========================================================================
