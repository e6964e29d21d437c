----------------------------- MODULE MCDerived -----------------------------
(* Every small building: mains and two meters with their columns, gaps and    *)
(* loads; every statistic asked for.                                          *)
EXTENDS Derived, Json
CONSTANTS Gaps, Loads
VARIABLES st, raw, step
RECURSIVE Times(_, _)
Times(t, gaps) == IF gaps = <<>> THEN <<t>> ELSE <<t>> \o Times(t + Head(gaps), Tail(gaps))
\* readings: power 10 or 20 times a load, the second column more; cumulative energy grows
Value(c, k, load, i) == IF c \div 10 = 3 THEN 10 * k * load ELSE (10 + 10 * ((i + k) % 2)) * load + 5 * ((c % 10) - 1)
RowsFor(ts, cols, load, i) == Flat([k \in 1..Len(ts) |-> <<ts[k]>> \o [j \in 1..Len(cols) |-> Value(cols[j], k, load, i)]])
Meter(i, site, sub, cols, start, gaps, load) ==
  LET ts == Times(start, gaps) IN
  <<i, site, sub, Len(cols)>> \o cols \o <<Len(ts)>> \o RowsFor(ts, cols, load, i)
GapSets == {<<1, 1, g, 1>> : g \in Gaps} \cup {<<g, 2, 1>> : g \in Gaps}
Init == \E mc \in {<<11>>, <<12>>, <<12, 11>>, <<31>>}, mg \in GapSets,
           c2 \in {<<11>>, <<12>>, <<13>>, <<11, 12>>}, g2 \in GapSets, s2 \in {0, 3},
           c3 \in {<<11>>, <<31, 32>>}, s3 \in {0, 1, 2}, l2 \in Loads :
        /\ raw = <<2, 3>> \o Meter(1, 1, 0, mc, 0, mg, 4) \o Meter(2, 0, 1, c2, s2, g2, l2) \o Meter(3, 0, s3, c3, 1, <<1, 1, 1>>, 1)
        /\ st = InitSt(raw) /\ step = 0
Next == UNCHANGED <<st, raw, step>>
Ops == <<<<"uptime", <<1>>>>, <<"uptime", <<2>>>>, <<"average", <<2, 60, 1>>>>, <<"average", <<100, 60, 0>>>>, <<"average", <<0, 60, 1>>>>,
         <<"total", <<100>>>>, <<"total", <<101>>>>, <<"proportion", <<2, 0>>>>, <<"proportion", <<3, 2>>>>, <<"proportion", <<1, 1>>>>,
         <<"proportion", <<101, 0>>>>, <<"upstream", <<2>>>>, <<"upstream", <<3>>>>, <<"upstream", <<1>>>>, <<"submetered", <<0>>>>,
         <<"permeter", <<100>>>>, <<"perperiod", <<101, 60>>>>, <<"fraction", <<101>>>>, <<"remainder", <<101>>>>,
         <<"top", <<100, 1, 0, 0>>>>, <<"top", <<100, 2, 1, 0>>>>, <<"top", <<101, 1, 0, 1>>>>,
         <<"dropout", <<2>>>>, <<"dropout", <<100>>>>, <<"droptable", <<101>>>>, <<"shares", <<101>>>>, <<"describe", <<100>>>>>>
Res(k) == Apply(st, [op |-> Ops[k][1], a |-> Ops[k][2]]).res

UptimeWithinRecord == \A k \in 1..3 : LET m == <<st.meters[k]>> IN Uptime(st, m) >= 0 /\ Uptime(st, m) <= Extent(m)
OwnProportionIsWhole == LET p == Proportion(st, Who(st, 1), Who(st, 1)) IN p \in {<<Scale>>, <<Missing>>}
FractionsAddUp == LET f == Fractions(st, st.meters) IN f # <<-98>> =>
   Abs(SumSeq([k \in 1..3 |-> f[2 * k]]) - Scale) <= 3
GroupIsSum == \A ac \in 1..3 : OwnTotal(st, st.meters, ac) = SumSeq([k \in 1..3 |-> OwnTotal(st, <<st.meters[k]>>, ac)])
RemainderAddsUp == \A x \in Remainders(st, Who(st, 101)) : \E ac \in OwnTypes(Who(st, 0)) : x + AllBest(st, Who(st, 101)) = OwnTotal(st, Who(st, 0), ac)
TopExists == \A k \in 1..3 : \E p \in SUBSET {1, 2, 3} : TopOk(st, st.meters, k, 0, p)
UpstreamIsProportion == \A k \in 2..3 : LET m == st.meters[k] up == Upstream(st, m) p == OfUpstream(st, m) IN
   (Cardinality(OwnTypes(up)) = 1 /\ p # <<Missing>> /\ p # <<-98>>) => p = Proportion(st, <<m>>, up)
\* the shares of all meters are those of each; the mean rate lies between the rates
DropMeanBetween == LET d == [k \in 1..3 |-> DropOf(st, st.meters[k])] m == DropMean(st, st.meters) IN
   m # <<-98>> => m[1] >= SetMin({d[k] : k \in 1..3}) /\ m[1] <= SetMax({d[k] : k \in 1..3})
Ev(o, a, r) == [op |-> o, a |-> a, res |-> r]
Emit == PrintT(ToJson(<<Ev("begin", raw, <<>>)>> \o [k \in 1..Len(Ops) |-> Ev(Ops[k][1], Ops[k][2], Res(k))]))
===========================================================================
