------------------------------ MODULE Compare ------------------------------
(* Meters compared over time: correlation, simultaneous switches, activity    *)
(* over the period of a day or an hour, all meters side by side.              *)
(*                                                                            *)
(* A meter: [i, site, tab], rows <<time, power>> in order, one per tick at    *)
(* most, no reading missing.                                                  *)
EXTENDS Chunking
Unknown == NaN
Who(st, w) == IF w = 0 THEN SelectSeq(st.meters, LAMBDA m : m.site = 1)
              ELSE IF w = 100 THEN st.meters
              ELSE IF w = 101 THEN SelectSeq(st.meters, LAMBDA m : m.site = 0)
              ELSE SelectSeq(st.meters, LAMBDA m : m.i = w)
\* the readings inside the sections, in order
InSecs(tab, secs) == IF secs = <<>> THEN tab
                     ELSE Flat([k \in 1..Len(secs) |-> LET r == Rows(tab, secs[k]) IN [j \in 1..Len(r) |-> tab[r[j]]]])
TimesOf(s) == {s[k][1] : k \in 1..Len(s)}
At(s, t) == SelectSeq(s, LAMBDA x : x[1] = t)
\* several meters: the sum at every instant
SumOf(ms, secs) ==
  LET ss == [k \in 1..Len(ms) |-> InSecs(ms[k].tab, secs)]
      ts == SortedSeq(UNION {TimesOf(ss[k]) : k \in 1..Len(ms)})
      at(t) == SumSeq([k \in 1..Len(ms) |-> LET h == At(ss[k], t) IN IF h = <<>> THEN 0 ELSE h[1][2]])
  IN [k \in 1..Len(ts) |-> <<ts[k], at(ts[k])>>]

(* ---- correlation of two aligned series, squared, with its sign ---- *)
\* only where every tick has a reading is nothing filled in
Dense(st) == \A k \in 1..Len(st.meters) : LET t == st.meters[k].tab IN \A j \in 2..Len(t) : t[j][1] - t[j - 1][1] = 1
Root == 100                             \* scale of the correlation: its square is scaled by 10000
Corr(x, y) ==
  LET n == Len(x)
      sx == SumSeq([k \in 1..n |-> x[k][2]])
      sy == SumSeq([k \in 1..n |-> y[k][2]])
      xy == n * SumSeq([k \in 1..n |-> x[k][2] * y[k][2]]) - sx * sy
      xx == n * SumSeq([k \in 1..n |-> x[k][2] * x[k][2]]) - sx * sx
      yy == n * SumSeq([k \in 1..n |-> y[k][2] * y[k][2]]) - sy * sy
  IN IF n <= 1 THEN <<Unknown>>
     ELSE IF TimesOf(x) # TimesOf(y) \/ xx = 0 \/ yy = 0 THEN <<-98>>
     ELSE <<(IF xy < 0 THEN -1 ELSE 1) * ((xy * xy * Root * Root) \div (xx * yy))>>

(* ---- switches ---- *)
Switches(tab, th) == {tab[k][1] : k \in {j \in 2..Len(tab) : Abs(tab[j][2] - tab[j - 1][2]) > th}}
Simultaneous(ms, th) ==
  LET sw == [k \in 1..Len(ms) |-> Switches(ms[k].tab, th)]
      n(t) == Cardinality({k \in 1..Len(ms) : t \in sw[k]})
      ts == SortedSeq({t \in UNION {sw[k] : k \in 1..Len(ms)} : n(t) >= 2})
  IN <<Len(ts)>> \o Flat([k \in 1..Len(ts) |-> <<ts[k], n(ts[k])>>])

(* ---- activity: in how many periods the meter is on during each part of the period ---- *)
\* the greatest reading of every part from the first to the last; a part without readings repeats the
\* last one if at most lim parts back
BinMax(s, b, w) == LET v == {s[k][2] : k \in {j \in 1..Len(s) : s[j][1] \div w = b}} IN IF v = {} THEN Unknown ELSE SetMax(v)
Filled(s, b, w, lim) == LET back == {d \in 0..lim : (b - d) >= (s[1][1] \div w) /\ BinMax(s, b - d, w) # Unknown}
                        IN IF back = {} THEN Unknown ELSE BinMax(s, b - SetMin(back), w)
Activity(s, th, w, n, lim) ==
  IF s = <<>> THEN [k \in 1..n |-> 0]
  ELSE LET lo == s[1][1] \div w
           hi == s[Len(s)][1] \div w
           on == {b \in lo..hi : Filled(s, b, w, lim) # Unknown /\ Filled(s, b, w, lim) >= th}
       IN IF hi - lo + 1 < 5 THEN <<-98>>
          ELSE [k \in 1..n |-> Cardinality({b \in on : b % n = k - 1})]

(* ---- interface ---- *)
\* begin: maximum sample period, number of meters, then instance, site, number of rows, rows
RECURSIVE Parse(_, _, _)
Parse(a, i, n) ==
  IF n = 0 THEN <<>>
  ELSE LET nr == a[i + 2] IN
       <<[i |-> a[i], site |-> a[i + 1], tab |-> [k \in 1..nr |-> <<a[i + 1 + 2 * k], a[i + 2 + 2 * k]>>]]>>
       \o Parse(a, i + 3 + 2 * nr, n - 1)
InitSt(a) == IF a = <<>> THEN [maxp |-> 0, meters |-> <<>>] ELSE [maxp |-> a[1], meters |-> Parse(a, 3, a[2])]
Secs(a, i) == [k \in 1..((Len(a) - i + 1) \div 2) |-> Frame(a[i + 2 * (k - 1)], a[i + 2 * (k - 1) + 1], FALSE, FALSE)]
Apply(st, ev) ==
  LET a == ev.a IN
  \* corr: who, who, sections;  mains: mains with the sum of its submeters, sections
  CASE ev.op \in {"corr", "mains", "pairs"} /\ ~Dense(st) -> R(st, <<-98>>)
    [] ev.op = "corr" -> R(st, Corr(SumOf(Who(st, a[1]), Secs(a, 3)), SumOf(Who(st, a[2]), Secs(a, 3))))
    [] ev.op = "mains" -> R(st, Corr(SumOf(Who(st, 0), Secs(a, 1)), SumOf(Who(st, 101), Secs(a, 1))))
    \* pairs: every pair of meters
    [] ev.op = "pairs" ->
         LET n == Len(st.meters) IN
         R(st, Flat([k \in 1..(n * n) |-> Corr(st.meters[((k - 1) \div n) + 1].tab, st.meters[((k - 1) % n) + 1].tab)]))
    [] ev.op = "switches" -> R(st, Simultaneous(Who(st, 101), a[1]))
    \* activity: who, threshold, length of a part, number of parts, sections
    [] ev.op = "activity" ->
         LET m == Who(st, a[1])[1]
             secs == Secs(a, 5)
             lim == (st.maxp + a[3] - 1) \div a[3]
             hs == IF secs = <<>> THEN <<Activity(m.tab, a[2], a[3], a[4], lim)>>
                   ELSE [k \in 1..Len(secs) |-> Activity(InSecs(m.tab, <<secs[k]>>), a[2], a[3], a[4], lim)]
         IN R(st, IF \E k \in 1..Len(hs) : hs[k] = <<-98>> THEN <<-98>>
                  ELSE [j \in 1..a[4] |-> SumSeq([k \in 1..Len(hs) |-> hs[k][j]])])
    \* table: every stored reading of every meter in the column of that meter
    [] ev.op = "table" ->
         R(st, Flat([k \in 1..Len(st.meters) |-> LET s == InSecs(st.meters[k].tab, Secs(a, 1)) IN <<st.meters[k].i>> \o Flat(s)]))
    [] ev.op = "least" -> LET t == Who(st, a[1])[1].tab IN R(st, <<SetMin({t[k][2] : k \in 1..Len(t)})>>)
    [] OTHER -> R(st, <<-99>>)
CloseTo(x, y) == x = y \/ x = -98 \/ (Abs(x) <= 10000 /\ Abs(x - y) <= 1)
Accepts(st, ev, r) ==
  \/ r.res = <<-98>>
  \/ IF ev.op \in {"corr", "mains", "pairs"}
     THEN Len(r.res) = Len(ev.res) /\ \A k \in 1..Len(ev.res) : CloseTo(r.res[k], ev.res[k])
     ELSE r.res = ev.res
===========================================================================
