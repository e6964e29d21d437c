------------------------------ MODULE MCStore ------------------------------
(* Every bounded history of writes, removals and reopenings of a store.     *)
EXTENDS Store, Json
CONSTANTS Kind, MaxLen
VARIABLES st, hist
vars == <<st, hist>>

Do(o, a) == LET r == Apply(st, [op |-> o, a |-> a]) IN
            st' = r.st /\ hist' = Append(hist, [op |-> o, a |-> a, res |-> r.res])
Init == st = InitSt(<<Kind>>) /\ hist = <<>>
Room == Len(hist) < MaxLen
N == Len(hist) + 1
Put == Room /\ \E k \in Keys : Do("put", <<k, N>>)
AppendRows == Room /\ \E k \in Keys : Do("append", <<k, N>>)
Remove == Room /\ \E k \in Keys : Do("remove", <<k>>)
RemoveBuilding == Room /\ \E b \in Blds : Do("remove_building", <<b>>)
Save == Room /\ \E b \in 0..2 : Do("save", <<b, N>>)
Reopen == Room /\ Len(hist) > 0 /\ Do("reopen", <<>>)
Next == Put \/ AppendRows \/ Remove \/ RemoveBuilding \/ Save \/ Reopen

(* ---- laws, read off the history alone ---- *)
Done(i) == hist[i].res = <<0>>
Touches(i, k) == hist[i].op \in {"put", "append", "remove"} /\ hist[i].a[1] = k
Clears(i, k) == Done(i) /\ \/ hist[i].op \in {"put", "remove"} /\ hist[i].a[1] = k
                           \/ hist[i].op = "remove_building" /\ hist[i].a[1] = BldOf(k)
LastClear(k) == LET S == {i \in 1..Len(hist) : Clears(i, k)} IN IF S = {} THEN 0 ELSE SetMax(S)
WrittenSince(k) == LET c == LastClear(k)
                       S == {i \in 1..Len(hist) : /\ i >= c /\ hist[i].op \in {"put", "append"}
                                                  /\ hist[i].a[1] = k}
                   IN SortedSeq(S)
LastWriteWins == \A k \in Keys : st.tab[k] = WrittenSince(k)
HasIffWritten == \A k \in Keys : st.has[k] <=> WrittenSince(k) # <<>>
MetaLastSaved == \A b \in 0..2 : st.meta[b] >= 0 =>
    LET S == {i \in 1..Len(hist) : hist[i].op = "save" /\ hist[i].a[1] = b /\ Done(i)}
    IN S # {} /\ st.meta[b] = hist[SetMax(S)].a[2]
IndependentKeys == [][\A k \in Keys :
    (Len(hist') > Len(hist) /\ hist'[Len(hist')].op \in {"put", "append", "remove"}
       /\ hist'[Len(hist')].a[1] # k) => (st'.tab[k] = st.tab[k] /\ st'.meta = st.meta)]_vars

Ask(o, a) == [op |-> o, a |-> a, res |-> Apply(st, [op |-> o, a |-> a]).res]
Probe == <<Ask("load", <<1>>), Ask("load", <<2>>), Ask("get", <<3>>), Ask("meta", <<0>>),
           Ask("meta", <<1>>), Ask("meta", <<2>>), Ask("buildings", <<>>), Ask("utilities", <<1>>),
           Ask("meters", <<1>>), Ask("meters", <<2>>), Ask("convert", <<1 - Kind>>)>>
Emit == Len(hist) = MaxLen => PrintT(ToJson(<<[op |-> "begin", a |-> <<Kind>>, res |-> <<>>]>> \o hist \o Probe))
===========================================================================
