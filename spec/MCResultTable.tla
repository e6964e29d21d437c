--------------------------- MODULE MCResultTable ---------------------------
EXTENDS ResultTable, Json
CONSTANTS MaxLen, Kinds, Last
VARIABLES st, hist
vars == <<st, hist>>
Do(o, a) == LET r == Apply(st, [op |-> o, a |-> a]) IN
            st' = r.st /\ hist' = Append(hist, [op |-> o, a |-> a, res |-> r.res])
Init == hist = <<>> /\ \E k \in Kinds : st = InitSt(<<k>>)
Room == Len(hist) < MaxLen
N == Len(hist) + 1
Val(s, e) == CASE st.k = 0 -> <<N, 10 * N>>
               [] st.k = 1 -> <<128 * N, 5 + N>>
               [] st.k = 2 -> <<s, Min2(s + N, e)>>
AppendOne == Room /\ \E x \in 1..2, s \in 0..(Last - 1), e \in 1..Last : s < e /\ Do("append", <<x, s, e>> \o Val(s, e))
Merge2 == Room /\ \E x, y \in 1..2 : Do("update", <<x, y>>)
Unify2 == Room /\ \E x \in 1..2 : Do("unify", <<x>>)
Next == AppendOne \/ Merge2 \/ Unify2

\* no time is covered twice, entries are in order
Sound == \A x \in 1..2 : \A i, j \in 1..Len(st.t[x]) : i < j => st.t[x][i].e <= st.t[x][j].s
\* refused operations change nothing
RefusedChangesNothing == [][(Len(hist') > Len(hist) /\ IsExc(hist'[Len(hist')].res)) => st' = st]_vars
\* nothing is lost: total of kind 0 grows by what was accepted
NothingLost == [][(hist'[Len(hist')].op = "update" /\ hist'[Len(hist')].res = <<1>>) =>
                   LET e == hist'[Len(hist')] IN
                   st.k = 0 => Total(st'.t[e.a[1]], 1) = Total(st.t[e.a[1]], 1) + Total(st.t[e.a[2]], 1)]_vars
Ask(o, a) == [op |-> o, a |-> a, res |-> Apply(st, [op |-> o, a |-> a]).res]
Probe == Flat([x \in 1..2 |-> <<Ask("foreign", <<x, (st.k + x + Len(st.t[1]) + 2 * Len(st.t[2])) % 4>>), Ask("rows", <<x>>), Ask("combined", <<x>>), Ask("timeframes", <<x>>)>>])
Emit == Len(hist) = MaxLen => PrintT(ToJson(<<[op |-> "begin", a |-> <<st.k>>, res |-> <<>>]>> \o hist \o Probe))
===========================================================================
