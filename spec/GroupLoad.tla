----------------------------- MODULE GroupLoad -----------------------------
(* Loading a group of meters: every meter is resampled, then power is added    *)
(* and voltage averaged, step by step.                                         *)
(* A meter: [sp, maxp, cols, tab]; columns coded as in Energy.                 *)
EXTENDS Chunking
RS == INSTANCE Resample
En == INSTANCE Energy

Period(ms) == SetMax({ms[i].sp : i \in 1..Len(ms)})
Averaged(c) == c \div 10 = 4
AllCols(ms, q) == LET all == UNION {{ms[i].cols[k] : k \in 1..Len(ms[i].cols)} : i \in 1..Len(ms)}
                  IN SortedSeq({c \in all : q = 0 \/ c \div 10 = q})
\* reading of column c of meter m in the step starting at t (NaN if none), from the rows in frame f
StepRows(m, f, p) == LET r == Rows(m.tab, f)
                     IN IF r = <<>> THEN <<>>
                        ELSE RS!Resampled(SubSeq(m.tab, r[1], r[Len(r)]), Len(m.cols), p, RS!Limit(m.maxp, p))
ReadingAt(m, rs, c, t) ==
  LET k == SelectSeq([i \in 1..Len(m.cols) |-> i], LAMBDA i : m.cols[i] = c)
      r == SelectSeq(rs, LAMBDA x : x[1] = t)
  IN IF k = <<>> \/ r = <<>> THEN NaN ELSE r[1][1 + k[1]]
Total(vs, c) == LET has == SelectSeq(vs, LAMBDA v : v # NaN) IN
                IF has = <<>> THEN NaN
                ELSE IF Averaged(c) THEN SumSeq(has) \div Len(has) ELSE SumSeq(has)
\* all steps of a frame: <<time, one value per column>>
Steps(ms, f, p, cols) ==
  LET b0 == f.s \div p
      n == (f.e - 1) \div p - b0 + 1
      rs == [i \in 1..Len(ms) |-> StepRows(ms[i], f, p)]
      val(k, c) == Total([i \in 1..Len(ms) |-> ReadingAt(ms[i], rs[i], c, (b0 + k - 1) * p)], c)
  IN [k \in 1..n |-> <<(b0 + k - 1) * p>> \o [j \in 1..Len(cols) |-> val(k, cols[j])]]

\* a section is loaded in stretches of at most size steps
Stretches(f, p, size) == LET t0 == (f.s \div p) * p
                             q == Pieces(t0, f.e, p * size)
                         IN [i \in 1..Len(q) |-> Frame(Max2(f.s, q[i][1]), q[i][2], FALSE, FALSE)]
Hull2(ms) == Frame(SetMin({ms[i].tab[1][1] : i \in 1..Len(ms)}),
                   SetMax({ms[i].tab[Len(ms[i].tab)][1] : i \in 1..Len(ms)}), FALSE, FALSE)

(* ---- interface ---- *)
\* begin: number of meters, then sample period, maximum sample period, number of columns, columns, number of rows, rows
RECURSIVE Parse(_, _, _)
Parse(a, i, n) ==
  IF n = 0 THEN <<>>
  ELSE LET nc == a[i + 2]
           nr == a[i + 3 + nc]
           off == i + 3 + nc
       IN <<[sp |-> a[i], maxp |-> a[i + 1], cols |-> SubSeq(a, i + 3, i + 2 + nc),
             tab |-> [r \in 1..nr |-> [k \in 1..(nc + 1) |-> a[off + (r - 1) * (nc + 1) + k]]]]>>
          \o Parse(a, off + nr * (nc + 1) + 1, n - 1)
InitSt(a) == IF a = <<>> THEN <<>> ELSE Parse(a, 2, a[1])
Secs(a, i) == [k \in 1..((Len(a) - i + 1) \div 2) |-> Frame(a[i + 2 * (k - 1)], a[i + 2 * (k - 1) + 1], FALSE, FALSE)]
\* load: period (0: that of the slowest meter), chunk size, quantity (0: all), sections
LoadObs(ms, a) ==
  LET p == IF a[1] = 0 THEN Period(ms) ELSE a[1]
      cols == AllCols(ms, a[3])
      secs == IF Len(a) < 4 THEN <<Hull2(ms)>> ELSE Secs(a, 4)
      pieces == Flat([i \in 1..Len(secs) |-> Stretches(secs[i], p, a[2])])
      one(f) == LET s == Steps(ms, f, p, cols) IN <<Len(s)>> \o Flat(s)
  IN cols \o Flat([i \in 1..Len(pieces) |-> one(pieces[i])])
\* energy of the whole group: sum over the meters of each AC type
EnergyObs(ms) ==
  LET per(i) == LET m == ms[i] IN En!EnergyObs([maxp |-> m.maxp, cols |-> m.cols, tab |-> m.tab], <<1000, 0>>)
      of(i, ac) == LET e == per(i)
                       k == SelectSeq([j \in 1..(Len(e) \div 2) |-> j], LAMBDA j : e[2 * j - 1] = ac)
                   IN IF k = <<>> THEN <<>> ELSE <<e[2 * k[1]]>>
      one(ac) == LET vs == Flat([i \in 1..Len(ms) |-> of(i, ac)])
                 IN IF vs = <<>> THEN <<>> ELSE <<ac, SumSeq(vs)>>
  IN one(1) \o one(2) \o one(3)
Apply(st, ev) ==
  CASE ev.op = "load" -> R(st, LoadObs(st, ev.a))
    [] ev.op = "timeframe" -> R(st, <<Hull2(st).s, Hull2(st).e>>)
    [] ev.op = "period" -> R(st, <<Period(st)>>)
    [] ev.op = "energy" -> R(st, EnergyObs(st))
    [] OTHER -> R(st, <<-99>>)
Accepts(st, ev, r) == r.res = ev.res
===========================================================================
