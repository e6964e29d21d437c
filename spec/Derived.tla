------------------------------ MODULE Derived ------------------------------
(* Statistics of meters and groups that follow from their total energy and    *)
(* good sections: uptime, average energy per period, proportions, energy per  *)
(* meter, remainders, the meters using most.                                  *)
(*                                                                            *)
(* A meter: [i, site, sub, cols, tab]; its columns all record one quantity;   *)
(* rows <<time, values...>>, no reading missing.  sub: the meter it hangs off *)
(* (0: the site meters).  Ratios are scaled by 10000.                         *)
EXTENDS Chunking
En == INSTANCE Energy
GS == INSTANCE GoodSections
Dr == INSTANCE Dropout
Scale == 10000
Missing == NaN

(* ---- one meter ---- *)
Whole(m) == <<Frame(m.tab[1][1], m.tab[Len(m.tab)][1], FALSE, TRUE)>>
Flag(tab) == [k \in 1..Len(tab) |-> <<tab[k][1], 1, 0>>]
GoodOf(st, m) == GS!Good(Flag(m.tab), st.maxp, Whole(m))
\* good sections as sections to load: the last instant belongs to the last one only
Frames_(g) == [k \in 1..Len(g) |-> Frame(g[k][1], g[k][2], FALSE, k = Len(g))]
SomeData(m, secs) == \E k \in 1..Len(secs) : Rows(m.tab, secs[k]) # <<>>
TypesOf(m) == {m.cols[k] % 10 : k \in 1..Len(m.cols)}
Best(types) == SetMin(types)            \* 1 active, 2 apparent, 3 reactive
EnergyOf(st, m, ac, secs) == LET j == CHOOSE k \in 1..Len(m.cols) : m.cols[k] % 10 = ac
                             IN En!Total(m.tab, m.cols, j, secs, st.maxp)

(* ---- several meters together (one meter: a sequence of one) ---- *)
Who(st, w) == IF w = 0 THEN SelectSeq(st.meters, LAMBDA m : m.site = 1)
              ELSE IF w = 100 THEN st.meters
              ELSE IF w = 101 THEN SelectSeq(st.meters, LAMBDA m : m.site = 0)
              ELSE SelectSeq(st.meters, LAMBDA m : m.i = w)
Types(ms, secs) == UNION {IF SomeData(ms[k], secs) THEN TypesOf(ms[k]) ELSE {} : k \in 1..Len(ms)}
Energy_(st, ms, ac, secs) ==
  SumSeq([k \in 1..Len(ms) |-> IF ac \in TypesOf(ms[k]) /\ SomeData(ms[k], secs) THEN EnergyOf(st, ms[k], ac, secs) ELSE 0])
\* each meter over its own record
OwnTotal(st, ms, ac) == SumSeq([k \in 1..Len(ms) |-> IF ac \in TypesOf(ms[k]) THEN EnergyOf(st, ms[k], ac, Whole(ms[k])) ELSE 0])
OwnTypes(ms) == UNION {TypesOf(ms[k]) : k \in 1..Len(ms)}
GoodW(st, ms) == GoodOf(st, ms[1])     \* of a group: those of its first meter
Uptime(st, ms) == LET g == GoodW(st, ms) IN SumSeq([k \in 1..Len(g) |-> g[k][2] - g[k][1]])
Extent(ms) == SetMax({ms[k].tab[Len(ms[k].tab)][1] : k \in 1..Len(ms)}) - SetMin({ms[k].tab[1][1] : k \in 1..Len(ms)})
ByType(types, f(_)) == LET s == SortedSeq(types) IN Flat([k \in 1..Len(s) |-> <<s[k] * 1000, f(s[k])>>])

(* ---- proportions: a missing value, a scaled ratio, or <<-98>> where undefined ---- *)
Ratio(x, y) == (x * Scale) \div y
Proportion(st, ms, other) ==
  LET secs == Frames_(GoodW(st, other))
      ot == Types(other, secs)
      t == Types(ms, secs)
      both == ot \cap t
      e(ac) == Energy_(st, ms, ac, secs)
      o(ac) == Energy_(st, other, ac, secs)
      all == SumSeq([k \in 1..3 |-> IF k \in ot THEN o(k) ELSE 0])
  IN IF all = 0 THEN <<Missing>>
     ELSE IF t = {} THEN <<0>>
     ELSE IF both = {} THEN (IF o(Best(ot)) = 0 THEN <<-98>> ELSE <<Ratio(e(Best(t)), o(Best(ot)))>>)
     ELSE IF \E ac \in both : o(ac) = 0 THEN <<-98>>
     ELSE LET s == SortedSeq(both)
          IN <<SumSeq([k \in 1..Len(s) |-> Ratio(e(s[k]), o(s[k]))]) \div Len(s)>>
Upstream(st, m) == IF m.site = 1 THEN <<>> ELSE IF m.sub = 0 THEN Who(st, 0) ELSE Who(st, m.sub)
OfUpstream(st, m) ==
  LET up == Upstream(st, m)
      secs == Frames_(GoodW(st, up))
      both == Types(up, secs) \cap Types(<<m>>, secs)
      o == Energy_(st, up, Best(both), secs)
  IN IF up = <<>> THEN OtherErr
     ELSE IF both = {} THEN <<Missing>>
     ELSE IF o = 0 THEN <<-98>>
     ELSE <<Ratio(Energy_(st, <<m>>, Best(both), secs), o)>>
\* the meters wired directly to the mains
Downstream(st) == SelectSeq(st.meters, LAMBDA m : m.site = 0 /\ (m.sub = 0 \/ (Len(Who(st, 0)) = 1 /\ m.sub = Who(st, 0)[1].i)))
Submetered(st) ==
  LET ds == Downstream(st)
      ps == [k \in 1..Len(ds) |-> Proportion(st, <<ds[k]>>, Who(st, 0))]
      known == SelectSeq(ps, LAMBDA p : p # <<Missing>>)
  IN IF \E k \in 1..Len(ps) : ps[k] = <<-98>> THEN <<-98>>
     ELSE IF known = <<>> THEN <<Missing>> ELSE <<SumSeq([k \in 1..Len(known) |-> known[k][1]])>>

(* ---- meter by meter ---- *)
BestEnergy(st, m) == EnergyOf(st, m, Best(TypesOf(m)), Whole(m))
PerMeter(st, ms) == Flat([k \in 1..Len(ms) |-> <<ms[k].i * 1000, Best(TypesOf(ms[k])) * 1000, BestEnergy(st, ms[k])>>])
AllBest(st, ms) == SumSeq([k \in 1..Len(ms) |-> BestEnergy(st, ms[k])])
Fractions(st, ms) == LET all == AllBest(st, ms) IN
  IF all = 0 THEN <<-98>> ELSE Flat([k \in 1..Len(ms) |-> <<ms[k].i * 1000, Ratio(BestEnergy(st, ms[k]), all)>>])
\* the AC types most meters report
Common(ms) == LET n(ac) == Cardinality({k \in 1..Len(ms) : Best(TypesOf(ms[k])) = ac})
              IN {ac \in 1..3 : n(ac) > 0 /\ \A x \in 1..3 : n(x) <= n(ac)}
MainsType(st, ac) == LET t == OwnTypes(Who(st, 0)) IN IF ac \in t THEN ac ELSE Best(t)
Remainders(st, ms) == {OwnTotal(st, Who(st, 0), MainsType(st, ac)) - AllBest(st, ms) : ac \in Common(ms)}
\* k meters such that none of the others uses more (least: less)
TopOk(st, ms, k, least, picked) ==
  LET in == {j \in 1..Len(ms) : ms[j].i \in picked}
      e(j) == BestEnergy(st, ms[j])
  IN Cardinality(in) = Min2(k, Len(ms)) /\ Cardinality(in) = Cardinality(picked)
     /\ \A x \in in : \A y \in (1..Len(ms)) \ in : IF least = 1 THEN e(x) <= e(y) ELSE e(x) >= e(y)

(* ---- dropout (in 1/100000) and description ---- *)
DropOf(st, m) == Dr!Combined(Dr!Stretches(Flag(m.tab), Frames_(GoodOf(st, m)), 1000000), 1)
DropAll(m) == Dr!Rate(<<Len(m.tab), m.tab[Len(m.tab)][1] - m.tab[1][1]>>, 1)
MeanOf(ds) == IF \E k \in 1..Len(ds) : ds[k] = NaN THEN <<-98>> ELSE <<SumSeq(ds) \div Len(ds)>>
\* of a group: the mean of the rates of its meters
DropMean(st, ms) == IF Len(ms) = 1 THEN <<DropOf(st, ms[1])>> ELSE MeanOf([k \in 1..Len(ms) |-> DropOf(st, ms[k])])
\* from the table of results over one stretch, gaps counted: all meters must be recorded over the same stretch
SameExtent(ms) == \A k \in 1..Len(ms) : Extent(<<ms[k]>>) = Extent(ms)
DropTable(ms) == IF Len(ms) > 1 /\ ~SameExtent(ms) THEN <<-98>> ELSE MeanOf([k \in 1..Len(ms) |-> DropAll(ms[k])])
Shares(st) ==
  LET ms == Who(st, 101)
      p == [k \in 1..Len(ms) |-> OfUpstream(st, ms[k])]
  IN IF \E k \in 1..Len(p) : p[k] = <<-98>> THEN <<-98>>
     ELSE Flat([k \in 1..Len(ms) |-> <<ms[k].i * 1000>> \o p[k]])
Describe(st) ==
  LET ms == st.meters  mains == Who(st, 0)  up == Uptime(st, mains) IN
  <<Len(ms) * 1000, Len(mains) * 1000, SetMin({ms[k].tab[1][1] : k \in 1..Len(ms)}) * 1000, Extent(ms) * 1000, up * 1000>>
  \o <<IF Extent(ms) = 0 THEN Missing ELSE (up * Scale) \div Extent(ms)>>

(* ---- interface ---- *)
\* begin: maximum sample period, number of meters, then instance, site, sub, number of columns, columns, number of rows, rows
RECURSIVE Parse(_, _, _)
Parse(a, i, n) ==
  IF n = 0 THEN <<>>
  ELSE LET nc == a[i + 3]
           nr == a[i + 4 + nc]
           o == i + 4 + nc
           row(k) == SubSeq(a, o + 1 + (k - 1) * (nc + 1), o + k * (nc + 1))
       IN <<[i |-> a[i], site |-> a[i + 1], sub |-> a[i + 2], cols |-> SubSeq(a, i + 4, i + 3 + nc), tab |-> [k \in 1..nr |-> row(k)]]>>
          \o Parse(a, o + 1 + nr * (nc + 1), n - 1)
InitSt(a) == IF a = <<>> THEN [maxp |-> 0, meters |-> <<>>] ELSE [maxp |-> a[1], meters |-> Parse(a, 3, a[2])]
Apply(st, ev) ==
  LET a == ev.a
      ms == Who(st, a[1])
  IN
  CASE ev.op = "uptime" -> R(st, <<Uptime(st, ms)>>)
    \* average: who, length of the period, over the uptime (or the whole record)
    [] ev.op = "average" ->
         LET td == IF a[3] = 1 THEN Uptime(st, ms) ELSE Extent(ms)
         IN R(st, IF td = 0 THEN <<Missing>> ELSE ByType(OwnTypes(ms), LAMBDA ac : (OwnTotal(st, ms, ac) * a[2]) \div td))
    [] ev.op = "total" -> R(st, ByType(OwnTypes(ms), LAMBDA ac : OwnTotal(st, ms, ac)))
    [] ev.op = "proportion" -> R(st, Proportion(st, ms, Who(st, a[2])))
    [] ev.op = "upstream" -> R(st, OfUpstream(st, ms[1]))
    [] ev.op = "submetered" -> R(st, Submetered(st))
    [] ev.op = "permeter" -> R(st, PerMeter(st, ms))
    [] ev.op = "perperiod" ->       \* per meter and period, over the whole record
         R(st, Flat([k \in 1..Len(ms) |-> <<ms[k].i * 1000, Best(TypesOf(ms[k])) * 1000, (BestEnergy(st, ms[k]) * a[2]) \div Extent(<<ms[k]>>)>>]))
    [] ev.op = "fraction" -> R(st, Fractions(st, ms))
    [] ev.op = "remainder" -> R(st, PerMeter(st, ms))
    [] ev.op = "top" -> R(st, <<>>)
    [] ev.op = "dropout" -> R(st, DropMean(st, ms))
    [] ev.op = "droptable" -> R(st, DropTable(ms))
    [] ev.op = "shares" -> R(st, Shares(st))
    [] ev.op = "describe" -> R(st, Describe(st))
    [] OTHER -> R(st, <<-99>>)
Close(x, y) == Len(x) = Len(y) /\ \A k \in 1..Len(x) : Abs(x[k] - y[k]) <= 3
Exact == {"uptime", "total", "permeter"}
Accepts(st, ev, r) ==
  LET ms == Who(st, ev.a[1]) IN
  CASE ev.op = "remainder" ->        \* what each meter used, then the remainder
         LET n == Len(ev.res) IN n > 0 /\ SubSeq(ev.res, 1, n - 1) = (Flat([k \in 1..Len(ms) |-> <<ms[k].i * 1000, BestEnergy(st, ms[k])>>]))
           /\ \E x \in Remainders(st, ms) : ev.res[n] = x
    \* top: who, k, least; the instances picked and those left over
    [] ev.op = "top" -> LET n == ev.a[2] p == {ev.res[j] : j \in 1..Min2(n, Len(ev.res))}
                            rest == {ev.res[j] : j \in (n + 1)..Len(ev.res)} IN
         /\ ~IsExc(ev.res) /\ TopOk(st, ms, n, ev.a[3], p)
         /\ ev.a[4] = 0 => rest = {}
         /\ ev.a[4] = 1 => /\ Len(ev.res) = Len(ms) /\ p \cup rest = {ms[k].i : k \in 1..Len(ms)}
    [] ev.op \in Exact -> r.res = ev.res
    [] OTHER -> r.res = <<-98>> \/ Close(r.res, ev.res)
===========================================================================
