------------------------------ MODULE Disagg --------------------------------
(* Combinatorial optimisation: each appliance has a few power states; a mains  *)
(* reading is explained by the combination of states closest to it.            *)
EXTENDS Codes

\* models: sequence of [id, states] (states sorted)
RECURSIVE Sums(_)
Sums(models) == IF models = <<>> THEN {0}
                ELSE {x + y : x \in {models[1].states[k] : k \in 1..Len(models[1].states)}, y \in Sums(Tail(models))}
Best(models, reading) == SetMin({Abs(reading - s) : s \in Sums(models)})
HasState(m, x) == \E k \in 1..Len(m.states) : m.states[k] = x
\* the explanation xs (one value per appliance) of a reading
Explains(models, xs, reading) ==
  /\ Len(xs) = Len(models)
  /\ \A k \in 1..Len(xs) : HasState(models[k], xs[k])
  /\ Abs(reading - SumSeq(xs)) = Best(models, reading)

(* ---- learning: the levels above 10 W, and off ---- *)
Above(vals) == SelectSeq(vals, LAMBDA v : v # NaN /\ v > 10)
LevelSet(vals) == {Above(vals)[i] : i \in 1..Len(Above(vals))}
Learnt(vals) == IF Len(Above(vals)) < 20 THEN <<0>> ELSE <<0>> \o SortedSeq(LevelSet(vals))
\* with three or more levels the clusters lie among them
Plausible(vals, got) ==
  IF Len(Above(vals)) < 20 \/ Cardinality(LevelSet(vals)) <= 2 THEN got = Learnt(vals)
  ELSE /\ got # <<>> /\ got[1] = 0 /\ Len(got) <= 3 /\ Len(got) >= 2
       /\ \A i \in 2..Len(got) : got[i - 1] < got[i] /\ SetMin(LevelSet(vals)) <= got[i] /\ got[i] <= SetMax(LevelSet(vals))

RECURSIVE ModelsOf(_)
ModelsOf(a) == IF a = <<>> THEN <<>>
               ELSE <<[id |-> a[1], states |-> SubSeq(a, 3, 2 + a[2])]>> \o ModelsOf(SubSeq(a, 3 + a[2], Len(a)))
RECURSIVE Train(_, _)
Train(models, a) ==
  IF a = <<>> THEN models
  ELSE LET rest == SubSeq(a, 3 + a[2], Len(a)) IN
       Train(IF \E k \in 1..Len(models) : models[k].id = a[1] THEN models
             ELSE Append(models, [id |-> a[1], states |-> Learnt(SubSeq(a, 3, 2 + a[2]))]), rest)
ModelObs(models) == Flat([k \in 1..Len(models) |-> <<models[k].id, Len(models[k].states)>> \o models[k].states])
RECURSIVE Readings(_)
Readings(a) == IF a = <<>> THEN <<>> ELSE SubSeq(a, 2, 1 + a[1]) \o Readings(SubSeq(a, 2 + a[1], Len(a)))
RECURSIVE RowCounts(_)
RowCounts(a) == IF a = <<>> THEN <<>> ELSE <<a[1]>> \o RowCounts(SubSeq(a, 2 + a[1], Len(a)))

(* ---- looking up the nearest number ---- *)
Near(known, x) == SetMin({Abs(x - known[i]) : i \in 1..Len(known)})
(* the same by search in the sorted list (what is checked against the definition) *)
NearBySearch(known, x) ==
  LET ks == SortedSeq({known[i] : i \in 1..Len(known)})
      pos == Cardinality({i \in 1..Len(ks) : ks[i] < x})          \* numbers below x
      lo == ks[Max2(1, pos)]  hi == ks[Min2(Len(ks), pos + 1)]
  IN IF hi - x <= x - lo THEN hi ELSE lo

(* ---- interface ---- *)
InitSt(a) == [m |-> ModelsOf(a)]
Apply(st, ev) ==
  LET a == ev.a IN
  CASE ev.op = "nearest" -> R(st, LET k == SubSeq(a, 2, 1 + a[1]) t == SubSeq(a, 2 + a[1], Len(a))
                                  IN [i \in 1..Len(t) |-> Near(k, t[i])])
    [] ev.op = "train" -> LET m == Train(st.m, a) IN R([st EXCEPT !.m = m], ModelObs(m))
    [] ev.op = "levels" -> R(st, Learnt(a))
    \* row counts, then the smallest distance for every reading
    [] ev.op = "predict" -> LET r == Readings(a) IN R(st, RowCounts(a) \o [i \in 1..Len(r) |-> Best(st.m, r[i])])
    [] OTHER -> R(st, <<-99>>)
Accepts(st, ev, r) ==
  LET a == ev.a g == ev.res IN
  IF g = <<>> \/ IsExc(g) THEN r.res = g
  ELSE CASE ev.op = "nearest" ->      \* observed: chosen number and what is left, per value
              LET k == SubSeq(a, 2, 1 + a[1]) t == SubSeq(a, 2 + a[1], Len(a)) IN
              /\ Len(g) = 2 * Len(t)
              /\ \A i \in 1..Len(t) : /\ \E j \in 1..Len(k) : k[j] = g[2 * i - 1]
                                      /\ Abs(t[i] - g[2 * i - 1]) = r.res[i] /\ g[2 * i] = t[i] - g[2 * i - 1]
         [] ev.op = "levels" -> Plausible(a, g)
         [] ev.op = "predict" ->      \* observed: row counts, then one value per appliance and reading
              LET rd == Readings(a) c == RowCounts(a) n == Len(st.m) IN
              /\ Len(g) = Len(c) + n * Len(rd) /\ SubSeq(g, 1, Len(c)) = c
              /\ \A i \in 1..Len(rd) : Explains(st.m, SubSeq(g, Len(c) + (i - 1) * n + 1, Len(c) + i * n), rd[i])
         [] OTHER -> r.res = g
=============================================================================
