----------------------------- MODULE MCDisagg -------------------------------
EXTENDS Disagg, Json
CONSTANTS Levels, MaxApps, Top
VARIABLES raw, st
StateSets == {<<0>>} \cup {<<0, x>> : x \in Levels} \cup {<<0, x, y>> : x \in Levels, y \in Levels}
Legit == {s \in StateSets : \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]}
Init == \E n \in 1..MaxApps : \E f \in [1..n -> Legit] :
          raw = Flat([k \in 1..n |-> <<k, Len(f[k])>> \o f[k]]) /\ st = InitSt(raw)
Next == FALSE /\ UNCHANGED <<raw, st>>
S0 == SortedSeq(Sums(st.m))
\* searching the sorted sums finds an optimal combination
SearchWorks == \A x \in 0..Top : /\ NearBySearch(S0, x) \in Sums(st.m)
                                 /\ Abs(x - NearBySearch(S0, x)) = Best(st.m, x)
OffIncluded == 0 \in Sums(st.m) /\ \A x \in Sums(st.m) : Best(st.m, x) = 0
A == <<Top + 1>> \o [i \in 1..(Top + 1) |-> i - 1]
N == <<Len(S0)>> \o S0 \o [i \in 1..(Top + 1) |-> i - 1]
Emit == PrintT(ToJson(<<[op |-> "begin", a |-> raw, res |-> <<>>], [op |-> "predict", a |-> A, res |-> <<>>],
                        [op |-> "nearest", a |-> N, res |-> <<>>]>>))
=============================================================================
