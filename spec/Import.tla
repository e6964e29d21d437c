------------------------------- MODULE Import -------------------------------
(* What the converters of datasets kept in daily, yearly or shared files     *)
(* store (see Convert for the datasets with one file per meter).             *)
(*                                                                          *)
(* Input: <<kind, option, list, files>>.  Output: one table per meter, its   *)
(* columns in canonical order, rows in time order (equal stamps in canonical *)
(* order).  Meters of datasets whose descriptions the converter generates    *)
(* are named by their description, not by their number.                      *)
(*                                                                          *)
(*  IDEAL    file <<home, sensor, class, rows>>, class 1 mains 2 appliance   *)
(*           (3, 4: something else); homes with both mains and appliance     *)
(*  SMART    file <<home, year, no, half hourly?, rows>>, row <<t, use, a, b>>*)
(*           meter 1 is the use, then every circuit of the half-hourly files *)
(*           in order; years one after the other; kilowatts                  *)
(*  Dataport file <<columns, rows>>, row <<building, t, v...>>; list: the    *)
(*           eligible buildings; use = grid + solar; kilowatts               *)
(*  ECO      file <<building, class, no, day, runs>>: class 1: three phases, *)
(*           run <<seconds, p1, p2, p3, shifted?>>; class 2: plug, run       *)
(*           <<seconds, p>>; readings of -1 are missing                      *)
(*  iAWE     file <<meter, columns, rows>>: means per minute on a fixed grid,*)
(*           the rest filled with zero power and the median of other columns *)
(*  HIPE     file <<meter, rows>>: kilowatts, the sign is dropped            *)
(*  GREEND   file <<house, day, blocks>>, block <<columns, rows>>: one meter *)
(*           per column, in order of appearance; one reading per stamp       *)
(*  HES      file <<no, rows>>, row <<house, code, t, v>>: one meter per     *)
(*           appliance of a house; only appliances are described             *)
(*  CAXE     file <<rows>>, row <<seconds, reactive, apparent, current,      *)
(*           frequency, voltage, active>>: means per minute of what is whole *)
EXTENDS Codes
C == INSTANCE Convert
Ideal == 1
Smart == 2
Dataport == 3
Eco == 4
Iawe == 5
Hipe == 6
Greend == 7
Hes == 8
Caxe == 9
Act == 1
App == 2
Volt == 3
React == 4
Curr == 5
Freq == 7
Pf == 8
Phase == 9
Missing == 777777

Elems(s) == {s[i] : i \in 1..Len(s)}
Idx(s, x) == SetMin({i \in 1..Len(s) : s[i] = x})
RECURSIVE Firsts(_)
\* distinct elements in order of first appearance
Firsts(s) == IF s = <<>> THEN <<>>
             ELSE LET r == Firsts(SubSeq(s, 1, Len(s) - 1)) x == s[Len(s)]
                  IN IF x \in Elems(r) THEN r ELSE Append(r, x)
Tab(b, m, cols, rows) == C!Tab(b, m, cols, rows)
Sorted(rows) == C!LexSort(rows)
\* files ordered by their first numbers
Ordered(fs, n) == LET k == C!LexSort([i \in 1..Len(fs) |-> SubSeq(fs[i], 1, n) \o <<i>>]) IN [i \in 1..Len(k) |-> fs[k[i][n + 1]]]

(* ---- IDEAL ---- *)
BothHomes(fs) == {h \in {f[1] : f \in Elems(fs)} : \A k \in {1, 2} : \E f \in Elems(fs) : f[1] = h /\ f[3] = k}
IdealTabs(fs) == {Tab(f[1], f[2], <<IF f[3] = 1 THEN App ELSE Act>>, Sorted(f[4])) :
                    f \in {g \in Elems(fs) : g[3] \in {1, 2} /\ g[1] \in BothHomes(fs)}}

(* ---- SMART ---- *)
SmartTabs(fs) ==
  LET used(h) == Ordered(SelectSeq(fs, LAMBDA f : f[1] = h /\ f[4] = 1), 3)
      years(h) == SortedSeq({f[2] : f \in Elems(used(h))})
      \* circuits: <<file no, column>>
      circ(h) == LET u == used(h) IN Firsts(Flat([i \in 1..Len(u) |-> <<<<u[i][3], 1>>, <<u[i][3], 2>>>>]))
      ofyear(h, y) == SelectSeq(used(h), LAMBDA f : f[2] = y)
      usage(h) == Flat([i \in 1..Len(years(h)) |-> LET r == ofyear(h, years(h)[i])[1][5]
                                                 IN [j \in 1..Len(r) |-> <<r[j][1], 1000 * r[j][2]>>]])
      line(h, c) == Flat([i \in 1..Len(years(h)) |->
                       LET fy == ofyear(h, years(h)[i])
                           at == {k \in 1..Len(fy) : fy[k][3] = c[1]}
                           r == fy[1][5]
                       IN [j \in 1..Len(r) |-> <<r[j][1], IF at = {} THEN Missing ELSE 1000 * fy[SetMin(at)][5][j][2 + c[2]]>>]])
      homes == {f[1] : f \in Elems(fs)}
  IN {Tab(h, 1, <<Act>>, usage(h)) : h \in homes}
     \cup UNION {{Tab(h, 1 + Idx(circ(h), c), <<Act>>, line(h, c)) : c \in Elems(circ(h))} : h \in homes}

(* ---- Dataport: columns 1 grid, 2 solar, 3 second solar, 4.. appliances, 99 something else ---- *)
RowsOf(f, b) == SelectSeq(f[2], LAMBDA r : r[1] = b)
Filled(f, b, c) == \E i \in 1..Len(f[1]) : f[1][i] = c /\ \E k \in 1..Len(RowsOf(f, b)) : RowsOf(f, b)[k][2 + i] # Missing
At(f, r, c) == r[2 + Idx(f[1], c)]
Sun(f, r, c) == IF c \in Elems(f[1]) /\ At(f, r, c) # Missing THEN At(f, r, c) ELSE 0
UseOf(f, r) == 1000 * (At(f, r, 1) + Sun(f, r, 2) + Sun(f, r, 3))
Watts(x) == IF x = Missing THEN Missing ELSE 1000 * x
DataTabs(list, fs) ==
  LET present == {b \in Elems(list) : \E f \in Elems(fs) : RowsOf(f, b) # <<>>}
      cols(b) == {c \in UNION {Elems(f[1]) : f \in Elems(fs)} : c >= 4 /\ c # 99 /\ \E f \in Elems(fs) : Filled(f, b, c)}
      rows(b, c) == Flat([i \in 1..Len(fs) |-> LET rs == RowsOf(fs[i], b) IN
                      IF c = 1 THEN [k \in 1..Len(rs) |-> <<rs[k][2], UseOf(fs[i], rs[k])>>]
                      ELSE IF Filled(fs[i], b, c) THEN [k \in 1..Len(rs) |-> <<rs[k][2], Watts(At(fs[i], rs[k], c))>>]
                      ELSE <<>>])
  IN UNION {{Tab(b, c, <<Act>>, Sorted(rows(b, c))) : c \in {1} \cup cols(b)} : b \in present}

(* ---- ECO: rows are runs <<start second, seconds, values...>> ---- *)
Day == 86400
EcoCols == <<Act, Volt, React, Curr, Phase>>
\* what the smart meter says beside the power p: voltage, reactive power, current, phase angle
Beside(p, shifted) == <<p, 5 * p + 2, IF shifted = 1 THEN p ELSE 0, 3 * p + 1, IF shifted = 1 THEN 45 ELSE 0>>
RunsOf(f, ph) ==
  LET rs == f[5]
      start(i) == f[4] * Day + SumSeq([k \in 1..(i - 1) |-> rs[k][1]])
      vals(i) == IF f[2] = 2 THEN <<rs[i][2]>> ELSE Beside(rs[i][1 + ph], rs[i][5])
  IN SelectSeq([i \in 1..Len(rs) |-> <<start(i), rs[i][1]>> \o vals(i)], LAMBDA r : r[3] # -1)
RECURSIVE Merge(_)
Merge(s) == IF Len(s) < 2 THEN s
            ELSE LET a == s[1] b == s[2] IN
                 IF a[1] + a[2] = b[1] /\ SubSeq(a, 3, Len(a)) = SubSeq(b, 3, Len(b))
                 THEN Merge(<<<<a[1], a[2] + b[2]>> \o SubSeq(a, 3, Len(a))>> \o SubSeq(s, 3, Len(s)))
                 ELSE <<a>> \o Merge(Tail(s))
EcoTabs(fs) ==
  LET o == Ordered(fs, 4)
      mine(b, k, n) == SelectSeq(o, LAMBDA f : f[1] = b /\ f[2] = k /\ (k = 1 \/ f[3] = n))
      runs(b, k, n) == LET m == mine(b, k, n) IN Merge(Flat([i \in 1..Len(m) |-> RunsOf(m[i], n)]))
  IN {Tab(f[1], ph, EcoCols, runs(f[1], 1, ph)) : f \in {g \in Elems(fs) : g[2] = 1}, ph \in 1..3}
     \cup {Tab(f[1], f[3] + 3, <<Act>>, runs(f[1], 2, f[3])) : f \in {g \in Elems(fs) : g[2] = 2}}

(* ---- iAWE: the first row gives the fill, then the minutes that differ from it ---- *)
IsPower(c) == c \in {Act, App, React}
IaweTab(f) ==
  LET good == SelectSeq(C!KeepFirst(f[3]), LAMBDA r : \A i \in 1..Len(r) : r[i] # Missing)
      ms == SortedSeq({r[1] \div 60 : r \in Elems(good)})
      within(m) == SelectSeq(good, LAMBDA r : r[1] \div 60 = m)
      mean(m, j) == LET w == within(m) IN SumSeq([i \in 1..Len(w) |-> w[i][1 + j]]) \div Len(w)
      \* the median of the minutes
      median(j) == LET s == C!LexSort([i \in 1..Len(ms) |-> <<mean(ms[i], j)>>]) n == Len(s)
                   IN (s[(n + 1) \div 2][1] + s[(n + 2) \div 2][1]) \div 2
      ord == SortedSeq(Elems(f[2]))
      pos(i) == Idx(f[2], ord[i])
      fill == [i \in 1..Len(ord) |-> IF IsPower(ord[i]) THEN 0 ELSE median(pos(i))]
      row(m) == [i \in 1..Len(ord) |-> mean(m, pos(i))]
      said == SelectSeq([i \in 1..Len(ms) |-> <<ms[i]>> \o row(ms[i])], LAMBDA r : SubSeq(r, 2, Len(r)) # fill)
  IN Tab(1, f[1], ord, <<<<-1>> \o fill>> \o said)

(* ---- CAXE: no minute may be without a reading ---- *)
CaxeMinutes(f) == {r[1] \div 60 : r \in {x \in Elems(f[1]) : \A i \in 1..Len(x) : x[i] # Missing}}
NoHoles(f) == CaxeMinutes(f) # {} /\ Cardinality(CaxeMinutes(f)) = SetMax(CaxeMinutes(f)) - SetMin(CaxeMinutes(f)) + 1
CaxeTab(f) ==
  LET good == SelectSeq(f[1], LAMBDA r : \A i \in 1..Len(r) : r[i] # Missing)
      ms == SortedSeq(CaxeMinutes(f))
      within(m) == SelectSeq(good, LAMBDA r : r[1] \div 60 = m)
      mean(m, j) == LET w == within(m) IN SumSeq([i \in 1..Len(w) |-> w[i][j]]) \div Len(w)
  IN Tab(1, 1, <<Act, App, Volt, React, Curr, Freq>>,
         [i \in 1..Len(ms) |-> <<ms[i], mean(ms[i], 7), mean(ms[i], 3), mean(ms[i], 6), mean(ms[i], 2), mean(ms[i], 4), mean(ms[i], 5)>>])

(* ---- HIPE ---- *)
HipeTab(f) == Tab(1, f[1], <<IF f[1] < 2 THEN App ELSE Act>>, Sorted([i \in 1..Len(f[2]) |-> <<f[2][i][1], 1000 * Abs(f[2][i][2])>>]))

(* ---- GREEND ---- *)
GreendTabs(fs) ==
  LET hs == SortedSeq({f[1] : f \in Elems(fs)})
      blocks(h) == LET m == Ordered(SelectSeq(fs, LAMBDA f : f[1] = h), 2) IN Flat([i \in 1..Len(m) |-> m[i][3]])
      names(h) == LET b == blocks(h) IN Firsts(Flat([i \in 1..Len(b) |-> b[i][1]]))
      rows(h, c) == LET b == blocks(h) IN
        C!LexSort(C!KeepFirst(Flat([i \in 1..Len(b) |-> [k \in 1..Len(b[i][2]) |->
          <<b[i][2][k][1], IF c \in Elems(b[i][1]) THEN b[i][2][k][1 + Idx(b[i][1], c)] ELSE Missing>>]])))
  IN UNION {{Tab(i, Idx(names(hs[i]), c), <<Act>>, rows(hs[i], c)) : c \in Elems(names(hs[i]))} : i \in 1..Len(hs)}

(* ---- HES ---- *)
IsAppliance(c) == c \notin (208..217) \cup {222, 240, 241} \cup (251..255)
HesTabs(fs) ==
  LET all == Flat([i \in 1..Len(fs) |-> fs[i][2]])
      pairs == {<<r[1], r[2]>> : r \in Elems(all)}
      rows(h, c) == LET s == SelectSeq(all, LAMBDA r : r[1] = h /\ r[2] = c) IN Sorted([i \in 1..Len(s) |-> <<s[i][3], 10 * s[i][4]>>])
  IN {Tab(p[1], IF IsAppliance(p[2]) THEN p[2] ELSE 900 + p[2], <<Act>>, rows(p[1], p[2])) : p \in pairs}

Tables(kind, list, fs) ==
  CASE kind = Ideal -> IdealTabs(fs)
    [] kind = Smart -> SmartTabs(fs)
    [] kind = Dataport -> DataTabs(list, fs)
    \* of a meter without a reading nothing is stored
    [] kind = Eco -> {t \in EcoTabs(fs) : t.rows # <<>>}
    [] kind = Iawe -> {IaweTab(f) : f \in Elems(fs)}
    [] kind = Hipe -> {HipeTab(f) : f \in Elems(fs)}
    [] kind = Greend -> GreendTabs(fs)
    [] kind = Hes -> HesTabs(fs)
    [] kind = Caxe -> {CaxeTab(f) : f \in Elems(fs)}
Code(t) == <<t.b, t.m, Len(t.cols)>> \o t.cols \o <<Len(t.rows)>> \o Flat(t.rows)
Stored(tabs) == LET ks == SortedSeq({100000 * t.b + t.m : t \in tabs})
                IN Flat([i \in 1..Len(ks) |-> Code(CHOOSE t \in tabs : 100000 * t.b + t.m = ks[i])])

InitSt(a) == <<>>
Apply(st, ev) ==
  CASE ev.op = "begin" -> R(st, <<>>)
    [] ev.op = "convert" /\ ev.a[1] = Caxe /\ ~NoHoles(ev.a[4][1]) -> R(st, <<-98>>)
    [] ev.op = "convert" -> R(st, Stored(Tables(ev.a[1], ev.a[3], ev.a[4])))
Accepts(st, ev, r) == r.res = ev.res \/ r.res = <<-98>>
=============================================================================
