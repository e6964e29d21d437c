----------------------------- MODULE HartTrain ------------------------------
(* Training an event detector: the edges of the mains are paired, the sizes of *)
(* the pairs form groups, every group gives one level, and every appliance is  *)
(* given the level whose switching follows its own record best.                *)
EXTENDS Codes
HT == INSTANCE Hart

OpenV == -98
(* ---- edges (whole numbers) and pairs ---- *)
Den(e) == e.new.n * e.old.n
Whole(out) == \A k \in 1..Len(out) : HT!Gap(out[k].new, out[k].old, 1) % Den(out[k]) = 0
Size(e) == HT!Gap(e.new, e.old, 1) \div Den(e)
Buffer(st) == [size |-> st.size, tol |-> st.tol, pct |-> st.pct, large |-> st.large, nc |-> 1,
               buf |-> <<>>, next |-> 1, pairs |-> <<>>]
\* twice the sizes of the matched pairs
PairSizes(st, es) ==
  LET p == HT!PairAll(Buffer(st), [k \in 1..Len(es) |-> <<es[k]>>]).pairs
  IN [k \in 1..Len(p) |-> Abs(es[p[k][1]]) + Abs(es[p[k][2]])]
\* sizes on the border of the tolerance are left open
TieE(st, es) == \E i, j \in 1..Len(es) : i < j /\ es[i] > 0 /\
   LET m == Max2(Abs(es[i]), Abs(es[j])) IN m >= st.large /\ 1000 * Abs(es[i] + es[j]) = st.pct * m

(* ---- groups ---- *)
RECURSIVE Ordered(_)
Ordered(s) == IF s = <<>> THEN <<>>
              ELSE LET m == SetMin({s[i] : i \in 1..Len(s)}) k == Cardinality({i \in 1..Len(s) : s[i] = m})
                   IN [i \in 1..k |-> m] \o Ordered(SelectSeq(s, LAMBDA x : x # m))
\* the distance within which three tenths of the sizes lie, summed over the sizes
Reach(ds) == LET n == Len(ds) k == Max2(1, (3 * n) \div 10) IN
             TLCEval([i \in 1..n |-> Ordered([j \in 1..n |-> Abs(ds[i] - ds[j])])[k]])
RECURSIVE SumS(_)
SumS(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumS(Tail(s))
\* sorted sizes cut where the gap is more than twice the mean reach (S / n)
RECURSIVE Cut(_, _, _, _)
Cut(ds, cur, S, n) ==
  IF ds = <<>> THEN <<cur>>
  ELSE IF cur = <<>> \/ (Head(ds) - cur[Len(cur)]) * n <= 2 * S THEN Cut(Tail(ds), Append(cur, Head(ds)), S, n)
  ELSE <<cur>> \o Cut(Tail(ds), <<Head(ds)>>, S, n)
Groups(ds) == LET n == Len(ds) IN Cut(Ordered(ds), <<>>, SumS(Reach(ds)), n)
\* every group lies within reach of itself
Tight(ds, gs) == LET n == Len(ds) S == SumS(Reach(ds)) IN
                 \A k \in 1..Len(gs) : (gs[k][Len(gs[k])] - gs[k][1]) * n <= S
\* a level: the mean size of its group, as a fraction; the largest group first, then the largest level
Level(g) == [num |-> SumS(g), den |-> 2 * Len(g), size |-> Len(g)]
Before(x, y) == x.size > y.size \/ (x.size = y.size /\ x.num * y.den > y.num * x.den)
RECURSIVE Ranked(_)
Ranked(ls) == IF ls = {} THEN <<>>
              ELSE LET f == CHOOSE x \in ls : \A y \in ls \ {x} : Before(x, y) IN <<f>> \o Ranked(ls \ {f})
Levels(ds) == Ranked({Level(Groups(ds)[k]) : k \in 1..Len(Groups(ds))})

(* ---- switching ---- *)
Dist(e, l) == Abs(Abs(Size(e)) * l.den - l.num)       \* times l.den
Nearer(e, l, m) == Dist(e, l) * m.den < Dist(e, m) * l.den
NearestTo(e, ls) == SetMin({k \in 1..Len(ls) : \A j \in 1..Len(ls) : ~Nearer(e, ls[j], ls[k])})
Unclear(e, ls) == \E j, k \in 1..Len(ls) : j # k /\ Dist(e, ls[k]) * ls[j].den = Dist(e, ls[j]) * ls[k].den
Power(l) == l.num \div l.den
\* of level k at row i (edges at row numbers): as for prediction from given levels
PowerAt(out, ls, k, n, i) ==
  LET mine == SelectSeq(out, LAMBDA e : NearestTo(e, ls) = k)
      before == SelectSeq(mine, LAMBDA e : e.at < i)
  IN IF i = n \/ \E j \in 1..Len(mine) : mine[j].at = i THEN OpenV
     ELSE IF before = <<>> \/ ~HT!Rise(before[Len(before)]) THEN 0 ELSE Power(ls[k])
Detected(st, vals) == HT!States([i \in 1..Len(vals) |-> <<i, <<vals[i]>>>>], st.thr, st.noise, 1)
Vague(x, ls) == x.tie \/ ~Whole(x.out) \/ \E k \in 1..Len(x.out) : Unclear(x.out[k], ls)
Column(st, vals, ls, k) ==
  LET x == TLCEval(Detected(st, vals)) v == TLCEval(Vague(x, ls)) IN
  [i \in 1..Len(vals) |-> IF v THEN OpenV ELSE PowerAt(x.out, ls, k, Len(vals), i)]

(* ---- which level an appliance is given ---- *)
Sq(x) == x * x
\* squared error of a column against a record: smallest and largest possible
Lo(v, g, l) == IF v = OpenV THEN Min2(Sq(g), Sq(g - l)) ELSE Sq(v - g)
Hi(v, g, l) == IF v = OpenV THEN Max2(Sq(g), Sq(g - l)) ELSE Sq(v - g)
\* (an edge in the last row of the record leaves what was before the first edge open)
Loose(st, vals) == LET x == Detected(st, vals) IN x.out # <<>> /\ x.out[Len(x.out)].at = Len(vals)
GoodMatch(st, vals, ls, rec, m) ==
  /\ m \in 1..Len(ls)
  /\ LET n == Min2(Len(vals), Len(rec))
         col == TLCEval([k \in 1..Len(ls) |-> IF Loose(st, vals) THEN [i \in 1..Len(vals) |-> OpenV] ELSE Column(st, vals, ls, k)])
         lo == SumS([i \in 1..n |-> Lo(col[m][i], rec[i], Power(ls[m]))])
     IN \A j \in 1..Len(ls) : lo <= SumS([i \in 1..n |-> Hi(col[j][i], rec[i], Power(ls[j]))])

(* ---- interface ---- *)
\* begin: kind (1: one chunk with the appliances, 2: chunks of a meter group), threshold, noise level,
\*   buffer size, tolerance, percentage (per mille), large transition
InitSt(a) == IF a = <<>> THEN <<>>
             ELSE [kind |-> a[1], thr |-> a[2], noise |-> a[3], size |-> a[4], tol |-> a[5], pct |-> a[6], large |-> a[7],
                   known |-> FALSE, ls |-> <<>>, apps |-> <<>>]
\* a list of records: number of them, then for each its length and values
RECURSIVE Recs(_, _)
Recs(a, n) == IF n = 0 THEN <<>> ELSE <<SubSeq(a, 2, 1 + a[1])>> \o Recs(SubSeq(a, 2 + a[1], Len(a)), n - 1)
RECURSIVE Width(_, _)
Width(a, n) == IF n = 0 THEN 0 ELSE 1 + a[1] + Width(SubSeq(a, 2 + a[1], Len(a)), n - 1)
RECURSIVE EdgesOf(_, _, _)
EdgesOf(st, recs, t) ==
  IF recs = <<>> THEN [ok |-> TRUE, es |-> <<>>]
  ELSE LET x == Detected(st, Head(recs)) y == EdgesOf(st, Tail(recs), t)
       IN [ok |-> y.ok /\ ~x.tie /\ Whole(x.out), es |-> IF x.tie \/ ~Whole(x.out) THEN <<>> ELSE [k \in 1..Len(x.out) |-> Size(x.out[k])] \o y.es]
Train(st, a) ==
  LET nr == a[1]
      recs == Recs(Tail(a), nr)
      rest == SubSeq(a, 2 + Width(Tail(a), nr), Len(a))
      gts == Recs(Tail(rest), rest[1])
      used == IF st.kind = 1 THEN <<recs[1]>> ELSE recs
      e == TLCEval(EdgesOf(st, used, 0))
      ds == IF e.ok /\ ~TieE(st, e.es) THEN TLCEval(PairSizes(st, e.es)) ELSE <<>>
      ok == ds # <<>> /\ Tight(ds, Groups(ds))
  IN [ok |-> ok, ls |-> IF ok THEN TLCEval(Levels(ds)) ELSE <<>>, vals |-> recs[1], gts |-> gts, ds |-> ds]
\* levels in thousandths
LevelsObs(ls) == <<Len(ls)>> \o [k \in 1..Len(ls) |-> HT!Milli(ls[k].num, ls[k].den)]
Observed(ev) == IF "res" \in DOMAIN ev THEN ev.res ELSE <<>>
Given(st, tr, res) ==      \* the appliances' levels: observed, else any good one
  IF ~tr.ok THEN <<>>
  ELSE IF Len(res) = 1 + Len(tr.ls) + Len(tr.gts) THEN SubSeq(res, 2 + Len(tr.ls), Len(res))
  ELSE [j \in 1..Len(tr.gts) |-> CHOOSE m \in 1..Len(tr.ls) : GoodMatch(st, tr.vals, tr.ls, tr.gts[j], m)]
Predicted(st, vals) ==
  <<Len(vals)>> \o Flat([j \in 1..Len(st.apps) |-> Column(st, vals, st.ls, st.apps[j])])
Apply(st, ev) ==
  LET a == ev.a IN
  CASE ev.op = "train" ->
         LET tr == TLCEval(Train(st, a)) apps == TLCEval(Given(st, tr, Observed(ev)))
             ok == tr.ok /\ \A j \in 1..Len(tr.gts) : GoodMatch(st, tr.vals, tr.ls, tr.gts[j], apps[j])
         IN R([st EXCEPT !.known = ok, !.ls = tr.ls, !.apps = apps],
              IF tr.ok THEN LevelsObs(tr.ls) \o (IF ok THEN apps ELSE <<-97>>) ELSE <<-98>>)
    [] ev.op = "levels" -> R(st, IF st.known THEN LevelsObs(st.ls) \o st.apps ELSE <<-98>>)
    [] ev.op = "predict" -> LET cs == Recs(Tail(a), a[1]) IN
         R(st, IF st.known THEN Flat([k \in 1..Len(cs) |-> Predicted(st, cs[k])]) ELSE <<-98>>)
    [] ev.op = "reload" -> R(st, IF st.known THEN <<1>> ELSE <<-98>>)
    [] OTHER -> R(st, <<-99>>)
Near(exp, got) == Len(exp) = Len(got) /\ \A i \in 1..Len(exp) :
                    exp[i] = got[i] \/ (i > 1 /\ i <= 1 + exp[1] /\ got[i] - exp[i] = 1)
Accepts(st, ev, r) ==
  \/ r.res = <<-98>>
  \/ ev.op \in {"train", "levels"} /\ Near(r.res, ev.res)
  \/ ev.op = "predict" /\ HT!Matches(r.res, ev.res)
  \/ r.res = ev.res
=============================================================================
