----------------------------- MODULE MCCompare -----------------------------
EXTENDS Compare, Json
CONSTANTS N, Vals, MaxV
VARIABLES st, raw, step
Meter(i, site, vs, k) == <<i, site, Len(vs)>> \o Flat([j \in 1..Len(vs) |-> <<(j - 1) * k, vs[j]>>])
Init == \E x \in [1..N -> Vals], y \in [1..N -> Vals \ {1}], k \in {1, 3} :
        /\ raw = <<4, 3>> \o Meter(1, 1, [j \in 1..N |-> x[j] + y[j] + (j % 2)], k) \o Meter(2, 0, x, k) \o Meter(3, 0, y, k)
        /\ st = InitSt(raw) /\ step = k
Next == UNCHANGED <<st, raw, step>>
Half == (N \div 2) * step
Ops == <<<<"corr", <<1, 2>>>>, <<"corr", <<2, 3>>>>, <<"corr", <<2, 3, 0, Half, Half, N * step>>>>, <<"corr", <<3, 1, step, N * step>>>>,
         <<"mains", <<0, Half + 1>>>>, <<"mains", <<0, N * step>>>>, <<"pairs", <<0>>>>, <<"switches", <<0>>>>, <<"switches", <<1>>>>,
         <<"activity", <<2, 1, 1, 4>>>>, <<"activity", <<3, 2, 2, 3>>>>, <<"activity", <<1, 3, 1, 2>>>>, <<"table", <<>>>>,
         <<"table", <<0, Half, Half, N * step>>>>, <<"least", <<2>>>>>>
Res(k) == Apply(st, [op |-> Ops[k][1], a |-> Ops[k][2]]).res
Two == st.meters[2].tab
Three == st.meters[3].tab
Symmetric == Corr(Two, Three) = Corr(Three, Two)
WithinOne == \A p \in {Corr(Two, Three), Corr(st.meters[1].tab, Two)} : p \in {<<-98>>, <<Unknown>>} \/ Abs(p[1]) <= Root * Root
OfItself == Corr(Two, Two) \in {<<-98>>, <<Unknown>>, <<Root * Root>>}
SwitchesTogether == LET s == Simultaneous(Who(st, 101), 0) IN \A k \in 1..s[1] : s[2 * k] \in Switches(Two, 0) \cap Switches(Three, 0)
ActivityCountsOn == LET h == Activity(Two, 1, step, 4, 0) IN h # <<-98>> => SumSeq(h) = Cardinality({k \in 1..N : Two[k][2] >= 1})
Ev(o, a, r) == [op |-> o, a |-> a, res |-> r]
Emit == PrintT(ToJson(<<Ev("begin", raw, <<>>)>> \o [k \in 1..Len(Ops) |-> Ev(Ops[k][1], Ops[k][2], Res(k))]))
===========================================================================
