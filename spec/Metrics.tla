------------------------------- MODULE Metrics -------------------------------
(* How good is a prediction: losses of two aligned series of readings, and     *)
(* metrics of a predicted group of meters against the true one.                *)
EXTENDS Chunking
GS == INSTANCE GoodSections
EN == INSTANCE Energy
None == 777

RECURSIVE Digits(_, _, _)
\* num / den in units of 10^-k, rounded down, with no large intermediate results
Digits(num, den, k) == IF k = 0 THEN num \div den
                       ELSE 10 * Digits(num, den, k - 1)
                            + LET RECURSIVE Rest(_, _)
                                  Rest(r, j) == IF j = 0 THEN r ELSE Rest((10 * r) % den, j - 1)
                              IN (10 * Rest(num % den, k - 1)) \div den
Sq(x) == x * x
\* the observed r is the square root of num / den in hundredths, to within one
IsRoot(r, num, den) == LET v == Digits(num, den, 4) IN r >= 0 /\ Sq(Max2(0, r - 1)) <= v /\ v <= Sq(r + 1)
Close(r, v, tol) == Abs(r - v) <= tol

(* ---------------- losses of aligned series ---------------- *)
Z(g, p, F(_, _)) == [i \in 1..Len(g) |-> F(g[i], p[i])]
AbsErr(g, p) == SumSeq(Z(g, p, LAMBDA x, y : Abs(x - y)))
SqErr(g, p) == SumSeq(Z(g, p, LAMBDA x, y : Sq(x - y)))
Total(g) == SumSeq(g)
SqTotal(g) == SumSeq([i \in 1..Len(g) |-> Sq(g[i])])
Mae(g, p) == Digits(AbsErr(g, p), Len(g), 3)
Nep(g, p) == Digits(AbsErr(g, p), Total(g), 3)
F1Of(tp, fp, fn, k) == IF 2 * tp + fp + fn = 0 THEN 0 ELSE Digits(2 * tp, 2 * tp + fp + fn, k)
Count(g, p, P(_, _)) == Cardinality({i \in 1..Len(g) : P(g[i], p[i])})
F1(g, p, thr, k) == F1Of(Count(g, p, LAMBDA x, y : x >= thr /\ y >= thr),
                         Count(g, p, LAMBDA x, y : x < thr /\ y >= thr),
                         Count(g, p, LAMBDA x, y : x >= thr /\ y < thr), k)
\* thousandths of a thousandth per reading, then the mean in thousandths
Rel(g, p) == SumSeq(Z(g, p, LAMBDA x, y : Digits(Abs(x - y), 1 + y, 6))) \div (1000 * Len(g))
\* total variation of the truth, times the number of readings
Var(g) == Len(g) * SqTotal(g) - Sq(Total(g))
R2(g, p) == 1000 - Digits(Len(g) * SqErr(g, p), Var(g), 3)
LossOK(op, g, p, r) ==
  CASE op = "mae" -> Close(r, Mae(g, p), 1)
    [] op = "rmse" -> IsRoot(r, SqErr(g, p), Len(g))
    [] op = "f1" -> Close(r, F1(g, p, 10, 3), 1)
    [] op = "rel" -> Close(r, Rel(g, p), 1)
    [] op = "nde" -> SqTotal(g) = 0 \/ IsRoot(r, SqErr(g, p), SqTotal(g))
    [] op = "nep" -> Total(g) = 0 \/ Close(r, Nep(g, p), 1)
    [] op = "r2" -> IF Len(g) < 2 THEN TRUE
                    ELSE IF Var(g) = 0 THEN r = (IF g = p THEN 1000 ELSE 0) ELSE Close(r, R2(g, p), 1)

(* ---------------- aligning two meters ---------------- *)
\* a pair: [maxp, sp, pred, truth], tables of <<time, watts>> rows
Tab3(t) == [i \in 1..Len(t) |-> <<t[i][1], IF t[i][2] = NaN THEN 0 ELSE 1, 0>>]
Good(m) == GS!Good(Tab3(m.pred), m.maxp, GS!Whole(Tab3(m.pred)))
\* the last good section includes its last instant
Part(t, s, e, inc) == SelectSeq(t, LAMBDA r : s <= r[1] /\ (r[1] < e \/ (inc /\ r[1] = e)))
\* the bins compared in one section: <<predictions in the bin, truths in the bin>> (sequences of readings)
Bin(t, b, sp) == LET x == SelectSeq(t, LAMBDA r : r[1] \div sp = b) IN [i \in 1..Len(x) |-> x[i][2]]
Bins(m, sec) ==
  LET g == Good(m)
      p == Part(m.pred, sec[1], sec[2], sec = g[Len(g)]) IN
  IF Len(p) < 2 THEN <<>>
  ELSE LET t == Part(m.truth, p[1][1], p[Len(p)][1], FALSE) IN
       IF t = <<>> THEN <<>>
       ELSE LET bs == SortedSeq({t[i][1] \div m.sp : i \in 1..Len(t)} \cup {p[i][1] \div m.sp : i \in 1..Len(p)})
            IN [k \in 1..Len(bs) |-> <<Bin(p, bs[k], m.sp), Bin(t, bs[k], m.sp)>>]
Known(x) == SelectSeq(x, LAMBDA v : v # NaN)
\* mean of the readings of a bin, or missing (readings are multiples of the bin width)
Mean(x) == LET k == Known(x) IN IF k = <<>> THEN NaN ELSE Total(k) \div Len(k)
Means(m, sec) == LET b == Bins(m, sec) IN [k \in 1..Len(b) |-> <<Mean(b[k][1]), Mean(b[k][2])>>]
AllMeans(m) == LET g == Good(m) IN Flat([k \in 1..Len(g) |-> Means(m, g[k])])
Both(m) == SelectSeq(AllMeans(m), LAMBDA x : x[1] # NaN /\ x[2] # NaN)
Col(x, j) == [i \in 1..Len(x) |-> x[i][j]]
\* on throughout the bin; a missing reading is not on
State(x, thr) == IF x = <<>> THEN NaN ELSE IF \A i \in 1..Len(x) : x[i] # NaN /\ x[i] >= thr THEN 1 ELSE 0
States(m, sec) == LET b == Bins(m, sec)
                      s == [k \in 1..Len(b) |-> <<State(b[k][1], 10), State(b[k][2], 10)>>]
                  IN SelectSeq(s, LAMBDA x : x[1] # NaN /\ x[2] # NaN)

(* ---------------- metrics of groups ---------------- *)
Mne(m, r) == LET b == Both(m) g == Col(b, 2) p == Col(b, 1)
                 all == Total(Known(Col(AllMeans(m), 2)))
             IN \/ Total(g) = 0                                  \* nothing used: not defined
                \/ Close(r, Digits(AbsErr(g, p), Total(g), 3), 1)
                \/ all # Total(g) /\ Close(r, Digits(AbsErr(g, p), all, 3), 1)
Rms(m, r) == LET b == Both(m) IN b = <<>> \/ IsRoot(r, SqErr(Col(b, 2), Col(b, 1)), Len(b))
Samples(m) == LET g == Good(m) IN SumSeq([k \in 1..Len(g) |-> Len(States(m, g[k]))])
F1Score(m, r) ==
  LET g == Good(m)
      n == Samples(m)
      one(k) == LET s == States(m, g[k]) IN
                IF s = <<>> THEN 0 ELSE Len(s) * F1(Col(s, 2), Col(s, 1), 1, 6)
  IN IF n = 0 THEN r = NaN ELSE Close(r, (SumSeq([k \in 1..Len(g) |-> one(k)]) \div n) \div 1000, 1)
Frames_(g) == [k \in 1..Len(g) |-> Frame(g[k][1], g[k][2], FALSE, k = Len(g))]
EnergyIn(m, t) == EN!Total(t, <<11>>, 1, Frames_(Good(m)), m.maxp)
AnyIn(t, g) == \E k \in 1..Len(g) : Rows(t, Frames_(g)[k]) # <<>>
ErrEnergy(m, r) == \/ ~AnyIn(m.pred, Good(m)) \/ ~AnyIn(m.truth, Good(m))
                   \/ Close(r, Abs(EnergyIn(m, m.pred) - EnergyIn(m, m.truth)), 0)
WholeEnergy(t, maxp) == EN!Total(t, <<11>>, 1, <<Frame(t[1][1], t[Len(t)][1], FALSE, TRUE)>>, maxp)
FracOK(ms, r) ==
  LET ep(k) == WholeEnergy(ms[k].pred, ms[k].maxp)
      et(k) == WholeEnergy(ms[k].truth, ms[k].maxp)
      sp == SumSeq([k \in 1..Len(ms) |-> ep(k)])
      stt == SumSeq([k \in 1..Len(ms) |-> et(k)])
  IN sp = 0 \/ stt = 0
     \/ Close(r, SumSeq([k \in 1..Len(ms) |-> Min2(Digits(ep(k), sp, 6), Digits(et(k), stt, 6))]) \div 1000, 1)

(* ---------------- errors of tables with a column per appliance ---------------- *)
\* a table: [ids, rows], a row being its time and a value per column; ten times the building plus the instance
\* identify an appliance, its type being the remainder by three
TypeOf(id) == id % 3
ColOf(t, id) == CHOOSE j \in 1..Len(t.ids) : t.ids[j] = id
\* what is known of one appliance in both tables, by time
Matched(g, p, id) ==
  Flat([i \in 1..Len(g.rows) |->
     LET x == g.rows[i]
         y == SelectSeq(p.rows, LAMBDA r : r[1] = x[1] /\ r[1 + ColOf(p, id)] # NaN)
     IN IF x[1 + ColOf(g, id)] = NaN \/ y = <<>> THEN <<>> ELSE <<<<x[1 + ColOf(g, id)], y[1][1 + ColOf(p, id)]>>>>])
\* appliances of the truth which are predicted as well
Listed(g, p) == SelectSeq(g.ids, LAMBDA id : \E j \in 1..Len(p.ids) : p.ids[j] = id)
\* a label is enough unless another one listed has the same: 1000 + type, otherwise the appliance itself
Labelled(ids, k, pretty) == IF pretty = 1 /\ \A j \in 1..Len(ids) : j # k => TypeOf(ids[j]) # TypeOf(ids[k])
                            THEN 1000 + TypeOf(ids[k]) ELSE ids[k]
\* r: pairs of what an entry is called and its value; an appliance without readings in common has none
RmseOK(st, pretty, r) ==
  LET ids == Listed(st.g, st.p)
      has(k) == Matched(st.g, st.p, ids[k]) # <<>>
      known == SelectSeq([k \in 1..Len(ids) |-> k], has)
  IN /\ Len(r) = 2 * Len(known)
     /\ \A k \in 1..Len(known) :
          LET b == Matched(st.g, st.p, ids[known[k]]) IN
          /\ r[2 * k - 1] = Labelled(ids, known[k], pretty)
          /\ IsRoot(r[2 * k], SqErr(Col(b, 1), Col(b, 2)), Len(b))

(* ---------------- interface ---------------- *)
\* begin: kind 1, number of readings, truth, prediction
\*        kind 2, number of pairs, then per pair: maxp, sp, rows predicted, rows true, the rows
RowsAt(a, i, n) == [k \in 1..n |-> <<a[i + 2 * (k - 1)], a[i + 2 * (k - 1) + 1]>>]
RECURSIVE Pairs(_, _)
Pairs(a, n) == IF n = 0 THEN <<>>
               ELSE <<[maxp |-> a[1], sp |-> a[2], pred |-> RowsAt(a, 5, a[3]), truth |-> RowsAt(a, 5 + 2 * a[3], a[4])]>>
                    \o Pairs(SubSeq(a, 5 + 2 * a[3] + 2 * a[4], Len(a)), n - 1)
InitSt(a) == IF a = <<>> THEN [k |-> 0]
             ELSE IF a[1] = 1 THEN [k |-> 1, g |-> SubSeq(a, 3, 2 + a[2]), p |-> SubSeq(a, 3 + a[2], 2 + 2 * a[2])]
             ELSE IF a[1] = 3
             THEN \* columns true and predicted, rows true and predicted, then the columns and the rows
                  LET ng == a[2] np == a[3] lg == a[4] lp == a[5] o == 5 + ng + np
                      table(n, l, i, q) == [ids |-> SubSeq(a, i + 1, i + n),
                                            rows |-> [x \in 1..l |-> SubSeq(a, q + (x - 1) * (n + 1) + 1, q + x * (n + 1))]]
                  IN [k |-> 3, g |-> table(ng, lg, 5, o), p |-> table(np, lp, 5 + ng, o + lg * (ng + 1))]
             ELSE [k |-> 2, m |-> Pairs(SubSeq(a, 3, Len(a)), a[2])]
\* one number per pair of meters, in the order of the pairs
Apply(st, ev) ==
  LET r == ev.res
      each(P(_, _)) == Len(r) = Len(st.m) /\ \A k \in 1..Len(r) : P(st.m[k], r[k])
      \* undefined when some meter has nothing to compare: what is returned then is left open
      undef == \E k \in 1..Len(st.m) : Both(st.m[k]) = <<>>
      noenergy == \E k \in 1..Len(st.m) : ~AnyIn(st.m[k].pred, Good(st.m[k])) \/ ~AnyIn(st.m[k].truth, Good(st.m[k]))
      ok == CASE st.k = 3 -> RmseOK(st, ev.a[1], r)
              [] st.k = 1 -> Len(r) = 1 /\ LossOK(ev.op, st.g, st.p, r[1])
              [] ev.op = "g_mne" -> (undef /\ IsExc(r)) \/ each(Mne)
              [] ev.op = "g_rms" -> (undef /\ IsExc(r)) \/ each(Rms)
              [] ev.op = "g_f1" -> each(F1Score)
              [] ev.op = "g_energy" -> (noenergy /\ IsExc(r)) \/ each(ErrEnergy)
              [] ev.op = "g_fraction" -> Len(r) = 1 /\ FracOK(st.m, r[1])
              [] OTHER -> FALSE
  IN R(st, IF ok THEN r ELSE <<-99>>)
Accepts(st, ev, r) == r.res = ev.res
===========================================================================
