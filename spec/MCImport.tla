------------------------------ MODULE MCImport ------------------------------
(* Every order and repetition of up to N readings over the stamps 1..T is    *)
(* dealt out to the files of raw directories of each layout.                 *)
EXTENDS Import, Json
CONSTANTS N, T, Kinds
VARIABLES job
RECURSIVE AllSeqs(_)
AllSeqs(n) == IF n = 0 THEN <<<<>>>>
              ELSE LET p == AllSeqs(n - 1) IN
                   Flat([i \in 1..Len(p) |-> [x \in 1..T |-> Append(p[i], x)]])
Deck == TLCEval(Flat([n \in 1..N |-> AllSeqs(n)]))
Pick(i) == Deck[((i - 1) % Len(Deck)) + 1]
\* readings of file number i with n values each; every value occurs once
Val(i, j, v) == i * 100 + j * 10 + v
Rows(i, n) == LET p == Pick(i) IN [j \in 1..Len(p) |-> <<p[j]>> \o [v \in 1..n |-> Val(i, j, v)]]
Once(i, n, o) == LET s == SortedSeq(Elems(Pick(i))) IN [j \in 1..Len(s) |-> <<o + s[j]>> \o [v \in 1..n |-> Val(i, j, v)]]
Homes == <<61, 62, 63, 65, 73, 90, 96, 105, 106, 128, 136, 139, 140, 145, 146, 162, 168, 169, 171, 175, 208, 212,
           225, 227, 228, 231, 238, 242, 249, 255, 259, 262, 263, 264, 266, 268, 276, 311, 328>>
IdealFiles(b) == [i \in 1..78 |-> <<Homes[((i - 1) \div 2) + 1], i, ((i - 1) % 2) + 1, Rows(b + i, 1)>>]
                 \o <<<<7, 1, 1, Rows(b, 1)>>, <<8, 2, 2, Rows(b + 1, 1)>>, <<8, 3, 3, Rows(b + 2, 1)>>>>
\* year y of a home is later than the years before it
SmartFiles(b) == LET o == <<<<1, 0, 1, 1>>, <<1, 0, 2, 1>>, <<1, 1, 2, 0>>, <<1, 1, 3, 1>>, <<2, 2, 1, 0>>, <<2, 2, 2, 1>>,
                            <<3, 0, 3, 1>>, <<3, 1, 1, 1>>, <<3, 1, 3, 1>>>>
                     same == <<1, 1, 2, 2, 3, 3, 4, 5, 5>>
                     k(i) == Once(b + same[i], 1, 10 * o[i][2])
                 IN [i \in 1..9 |-> o[i] \o <<LET r == k(i) IN [j \in 1..Len(r) |-> r[j] \o <<1000 + Val(i, j, 2), 1000 + Val(i, j, 3)>>]>>]
\* two files, two buildings; the second has other columns, solar panels and an appliance less
DataFiles(b, w) ==
  LET c1 == <<5, 1, 4, 99, 2>>  c2 == <<1, 2, 4, 6>>
      f1(i, h, sun) == LET r == Once(i, 4, 0) IN [j \in 1..Len(r) |-> <<h>> \o r[j] \o <<IF sun THEN Val(i, j, 5) ELSE Missing>>]
      f2(i, h, sun) == LET r == Once(i, 4, 10) IN [j \in 1..Len(r) |-> <<h, r[j][1], r[j][2], IF sun THEN r[j][3] ELSE Missing, IF w = 1 THEN Missing ELSE r[j][4], r[j][5]>>]
  IN <<<<c1, f1(b, 12, FALSE) \o f1(b + 1, 26, w = 1)>>, <<c2, f2(b + 2, 26, w = 1) \o (IF w = 2 THEN <<>> ELSE f2(b + 3, 12, FALSE))>>>>
EcoRuns(i, n) == LET p == Pick(i)
                     len(j) == IF j = Len(p) THEN Day - SumSeq([k \in 1..(j - 1) |-> 7000 * p[k]]) ELSE 7000 * p[j]
                     v(j, k) == IF (p[j] + k + j) % 4 = 0 THEN -1 ELSE 10 * p[j] + k
                 IN [j \in 1..Len(p) |-> <<len(j)>> \o [k \in 1..n |-> v(j, k)] \o (IF n = 3 THEN <<p[j] % 2>> ELSE <<>>)]
EcoFiles(b) == <<<<1, 1, 0, 0, EcoRuns(b, 3)>>, <<1, 1, 0, 1, EcoRuns(b + 1, 3)>>, <<1, 2, 1, 1, EcoRuns(b + 2, 1)>>, <<1, 2, 1, 0, EcoRuns(b, 1)>>>>
\* the stamps of two minutes and the readings within them
IaweFiles(b) == [m \in 1..11 |-> <<m, <<<<1, 3>>, <<3, 1>>, <<5, 2, 4>>>>[(m % 3) + 1],
                  LET p == Pick(b + m) n == IF m % 3 = 2 THEN 3 ELSE 2 IN
                  [j \in 1..Len(p) |-> <<p[j] * 40>> \o [v \in 1..n |-> IF j = 2 /\ v = 1 /\ m % 2 = 0 THEN Missing ELSE 12 * Val(m, j, v)]]>>]
HipeFiles(b) == [m \in 1..11 |-> <<m, LET r == Rows(b + m, 1) IN [j \in 1..Len(r) |-> <<r[j][1], IF j % 2 = 0 THEN -r[j][2] ELSE r[j][2]>>]>>]
GreendFiles(b) == LET bl(i, cols, o) == <<cols, Once(i, Len(cols), o)>>
                      hol(x) == <<x[1], [j \in 1..Len(x[2]) |-> IF j = 2 THEN [x[2][j] EXCEPT ![2] = Missing] ELSE x[2][j]]>>
                  IN <<<<4, 9, <<bl(b, <<3, 1>>, 30), bl(b + 1, <<1, 2>>, 40)>>>>, <<4, 1, <<hol(bl(b + 2, <<2, 3>>, 0))>>>>,
                       <<0, 31, <<bl(b + 3, <<5>>, 10), hol(bl(b + 4, <<6, 5>>, 20)), bl(b + 5, <<5>>, 30)>>>>>>
HesFiles(b) == LET r(i, h, c) == LET p == Pick(i) IN [j \in 1..Len(p) |-> <<h, c, p[j], 1000 * c + (i % 30) * 30 + j>>]
               IN <<<<0, r(b, 203, 5) \o r(b + 1, 202, 240) \o r(b + 2, 202, 0)>>,
                    <<2, r(b + 3, 202, 0) \o r(b + 4, 203, 251) \o r(b + 5, 203, 17) \o r(b + 6, 202, 49)>>>>
\* the stamps of two minutes
CaxeFiles(b) == LET p == Pick(b) IN <<<<[j \in 1..Len(p) |-> <<p[j] * 25>> \o [v \in 1..6 |-> IF j = 2 /\ v = 1 + (b % 6) /\ b % 2 = 0 THEN Missing ELSE 12 * Val(b, j, v)]]>>>>
Opts(k) == CASE k \in {Dataport, Hes} -> {1, 2, 1000} [] OTHER -> {0}
Lists(k) == CASE k = Dataport -> {<<12, 26>>, <<26>>} [] k = Hes -> {<<202, 203>>} [] OTHER -> {<<>>}
Sets(k, b) == CASE k = Ideal -> {IdealFiles(b)} [] k = Smart -> {SmartFiles(b)}
               [] k = Dataport -> {DataFiles(b, w) : w \in 0..2}
               [] k = Eco -> {EcoFiles(b)} [] k = Iawe -> {IaweFiles(b)} [] k = Hipe -> {HipeFiles(b)}
               [] k = Greend -> {GreendFiles(b)} [] k = Hes -> {HesFiles(b)}
               [] k = Caxe -> IF NoHoles(CaxeFiles(b)[1]) THEN {CaxeFiles(b)} ELSE {}
Starts(k) == CASE k = Ideal -> {1} [] k = Smart -> {5 * i : i \in 1..(Len(Deck) \div 5)}
               [] k = Dataport -> {9 * i : i \in 1..(Len(Deck) \div 9)} [] k = Eco -> {6 * i + 1 : i \in 1..(Len(Deck) \div 8)}
               [] k = Iawe -> {11 * i + 4 : i \in 0..(Len(Deck) \div 11)} [] k = Hipe -> {11 * i : i \in 1..(Len(Deck) \div 11)}
               [] k = Greend -> {3 * i : i \in 1..(Len(Deck) \div 3)} [] k = Hes -> {4 * i : i \in 1..(Len(Deck) \div 4)}
               [] k = Caxe -> 1..Len(Deck)
Init == \E k \in Kinds : \E b \in Starts(k), o \in Opts(k), l \in Lists(k) : \E fs \in Sets(k, b) : job = <<k, o, l, fs>>
Next == FALSE /\ UNCHANGED job
Tabs == TLCEval(Tables(job[1], job[3], job[4]))
RowSets == CASE job[1] = Ideal -> {<<f[4], 1>> : f \in Elems(job[4])} [] job[1] = Smart -> {<<f[5], 1000>> : f \in Elems(job[4])}
             [] job[1] = Hipe -> {<<f[2], 1000>> : f \in Elems(job[4])}
             [] job[1] = Greend -> {<<x[2], 1>> : x \in UNION {Elems(f[3]) : f \in Elems(job[4])}}
             [] job[1] = Hes -> {<<[j \in 1..Len(f[2]) |-> SubSeq(f[2][j], 3, 4)], 10>> : f \in Elems(job[4])}
             [] OTHER -> {}
Plain == job[1] \in {Ideal, Smart, Hipe, Greend, Hes}
RawReadings == UNION {UNION {{<<x[1][j][1], x[2] * Abs(x[1][j][v])>> : v \in 2..Len(x[1][j])} : j \in 1..Len(x[1])} : x \in RowSets}
Readings(t) == {r \in {<<t.rows[j][1], t.rows[j][v]>> : j \in 1..Len(t.rows), v \in 2..(Len(t.cols) + 1)} : r[2] # Missing}
\* one table per meter, no reading invented or moved in time
OneEach == \A s, t \in Tabs : (s.b = t.b /\ s.m = t.m) => s = t
Honest == Plain => \A t \in Tabs : Readings(t) \subseteq RawReadings
\* no reading appears under two meters
Apart == Plain => \A s, t \in Tabs : s # t => Readings(s) \cap Readings(t) = {}
\* nothing is lost, except what the layout says is dropped
Whole == job[1] \in {Hipe, Greend, Hes} => {r \in RawReadings : r[2] # Missing} = UNION {Readings(t) : t \in Tabs}
InTime == \A t \in Tabs : \A i \in 1..(Len(t.rows) - 1) : t.rows[i][1] <= t.rows[i + 1][1]
Emit == PrintT(ToJson(<<[op |-> "begin", a |-> <<>>, res |-> <<>>],
                        [op |-> "convert", a |-> job, res |-> Stored(Tabs)]>>))
=============================================================================
