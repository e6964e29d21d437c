----------------------------- MODULE MCConvert ------------------------------
(* Every order and repetition of up to N readings over the stamps 1..T is   *)
(* dealt out to the files of raw directories of each layout.                *)
EXTENDS Convert, Json
CONSTANTS N, T, Kinds
VARIABLES job
RECURSIVE AllSeqs(_)
AllSeqs(n) == IF n = 0 THEN <<<<>>>>
              ELSE LET p == AllSeqs(n - 1) IN
                   Flat([i \in 1..Len(p) |-> [x \in 1..T |-> Append(p[i], x)]])
Pool == TLCEval(Flat([n \in 1..N |-> AllSeqs(n)]))
Pick(i) == Pool[((i - 1) % Len(Pool)) + 1]
\* readings of file number i with n values each; every value occurs once
Rows(i, n) == LET p == Pick(i) IN
  [j \in 1..Len(p) |-> <<p[j]>> \o [v \in 1..n |-> i * 200 + j * 20 + v]]
Holes(rows, w) == [j \in 1..Len(rows) |-> [v \in 1..Len(rows[j]) |->
                    IF v > 1 /\ (j * 3 + v * 5 + w) % 7 = 0 THEN Missing ELSE rows[j][v]]]
ReddFiles(b) == [i \in 1..18 |-> <<((i - 1) \div 3) + 1, <<1, 2, 12>>[((i - 1) % 3) + 1], 1, Rows(b + i, 1)>>]
UkTypes == <<<<1, 1, 1>>, <<1, 2, 2>>, <<1, 10, 1>>, <<1, 54, 3>>, <<2, 1, 2>>, <<2, 2, 3>>, <<3, 1, 1>>>>
UkFiles(b) == [i \in 1..7 |-> LET t == UkTypes[i] IN
                <<t[1], t[2], IF t[3] = 3 THEN 2 ELSE 1, Rows(b + i, IF t[3] = 3 THEN 3 ELSE 1)>>]
              \o <<<<1, 54, 1, Rows(b + 8, 1)>>>>
DredFiles(b) == <<<<1, 0, 1, Rows(b, 13)>>>>
AmpdsFiles(b) == [i \in 1..4 |-> LET k == <<2, 1, 3, 2>>[i] IN
                   <<1, <<3, 0, 7, 1>>[i], k, Holes(Rows(b + i, Len(AmpdsCols(k))), b)>>]
Asc(i) == LET p == SortedSeq({Pick(i)[j] : j \in 1..Len(Pick(i))}) IN [j \in 1..Len(p) |-> <<p[j], i * 200 + j>>]
CombedFiles(b) == [i \in 1..8 |-> <<<<1, 1, 1, 1, 1, 2, 2, 2>>[i], <<1, 1, 1, 4, 4, 1, 7, 7>>[i],
                                    <<1, 2, 3, 1, 2, 3, 1, 3>>[i], Asc(b * 3 + i * 5)>>]
RefitFiles(b) == [i \in 1..20 |-> <<RefitHouses[i], 0, 1, LET r == Rows(b + i, 10) IN SubSeq(r, 1, Min2(2, Len(r)))>>]
Files(k, b) == CASE k = Redd -> ReddFiles(b) [] k = UkDale -> UkFiles(b) [] k = Refit -> RefitFiles(b)
                 [] k = Dred -> DredFiles(b) [] k = Ampds -> AmpdsFiles(b) [] k = Combed -> CombedFiles(b)
Starts(k) == CASE k = Redd -> {18 * i : i \in 0..(Len(Pool) \div 18)}
               [] k = UkDale -> {8 * i : i \in 0..(Len(Pool) \div 8)}
               [] k = Refit -> {0}
               [] k = Dred -> {7 * i + 3 : i \in 1..(Len(Pool) \div 8)}
               [] k = Ampds -> {4 * i : i \in 1..(Len(Pool) \div 9)}
               [] k = Combed -> {6 * i : i \in 1..(Len(Pool) \div 9)}
Types(k) == IF k = UkDale THEN UkTypes ELSE <<>>
Init == \E k \in Kinds : \E b \in Starts(k) : \E d \in (IF k = UkDale THEN {0, 1} ELSE {0}) :
          job = <<k, d, Types(k), Files(k, b)>>
Next == FALSE /\ UNCHANGED job
Tabs == TLCEval(Tables(job[1], job[2], job[3], job[4]))
Elems(s) == {s[i] : i \in 1..Len(s)}
RawVals == UNION {UNION {{f[4][j][v] : v \in 2..Len(f[4][j])} : j \in 1..Len(f[4])} : f \in Elems(job[4])}
StoredVals == UNION {UNION {{t.rows[j][v] : v \in 2..Len(t.rows[j])} : j \in 1..Len(t.rows)} : t \in Tabs}
Readings(t) == {<<t.rows[j][1], t.rows[j][v]>> : j \in 1..Len(t.rows), v \in 2..(Len(t.cols) + 1)}
RawReadings == UNION {{<<f[4][j][1], f[4][j][v]>> : j \in 1..Len(f[4]), v \in 2..Len(f[4][1])} : f \in Elems(job[4])}
\* one table per meter, no reading invented or moved in time
OneEach == \A s, t \in Tabs : (s.b = t.b /\ s.m = t.m) => s = t
Honest == \A t \in Tabs : \A r \in Readings(t) : r[2] = Missing \/ r \in RawReadings
\* no reading appears under two meters
Apart == \A s, t \in Tabs : s # t => \A x \in Readings(s) : x[2] # Missing => x \notin Readings(t)
\* nothing is lost, except what the layout says is dropped
Whole == job[1] \in {Redd, Refit, Dred, Combed} => RawVals = StoredVals \ {Missing}
Sorted == job[1] \in {Redd, Refit, Dred, Combed} =>
            \A t \in Tabs : \A i \in 1..(Len(t.rows) - 1) : t.rows[i][1] <= t.rows[i + 1][1]
Unique == (job[1] = UkDale /\ job[2] = 1) =>
            \A t \in Tabs : \A i, j \in 1..Len(t.rows) : i # j => t.rows[i][1] # t.rows[j][1]
NoHoles == job[1] = Ampds => Missing \notin StoredVals
Emit == PrintT(ToJson(<<[op |-> "begin", a |-> <<>>, res |-> <<>>],
                        [op |-> "convert", a |-> job, res |-> Stored(Tabs)]>>))
=============================================================================
