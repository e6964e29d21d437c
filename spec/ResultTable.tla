---------------------------- MODULE ResultTable ----------------------------
(* Two tables of results of the same kind (0 total energy, 1 dropout rate,    *)
(* 2 good sections).  A table is a sequence of entries [s, e, v] in order of   *)
(* start; v is <<active, reactive>> energy, <<rate in 1/1024, samples>>, or     *)
(* the starts and ends of good sections.                                       *)
EXTENDS Frames

Clash(r, q) == r.s < q.e /\ q.s < r.e
Free(t, r) == \A i \in 1..Len(t) : ~Clash(t[i], r)
RECURSIVE Insert(_, _)
Insert(t, r) == IF t = <<>> THEN <<r>>
                ELSE IF r.s < t[1].s THEN <<r>> \o t ELSE <<t[1]>> \o Insert(Tail(t), r)
RECURSIVE InsertAll(_, _)
InsertAll(t, u) == IF u = <<>> THEN t ELSE InsertAll(Insert(t, Head(u)), Tail(u))
CanMerge(t, u) == \A j \in 1..Len(u) : Free(t, u[j])
SamePeriods(t, u) == Len(t) = Len(u) /\ \A i \in 1..Len(t) : t[i].s = u[i].s /\ t[i].e = u[i].e

Add(x, y) == IF x = NaN \/ y = NaN THEN NaN ELSE x + y
Pairs(v) == [i \in 1..(Len(v) \div 2) |-> Frame(v[2 * i - 1], v[2 * i], FALSE, FALSE)]
\* the rate of several meters is the mean of theirs: v stands for m of them, w for n
UnifyV(k, v, w, m, n) ==
  CASE k = 0 -> <<Add(v[1], w[1]), Add(v[2], w[2])>>
    [] k = 1 -> <<IF v[1] = NaN \/ w[1] = NaN THEN NaN ELSE (v[1] * m + w[1] * n) \div (m + n), v[2] + w[2]>>
    [] k = 2 -> LET p == PairInter(Pairs(v), Pairs(w)) IN Flat([i \in 1..Len(p) |-> <<p[i].s, p[i].e>>])
Unify(k, t, u, m, n) == [i \in 1..Len(t) |-> [t[i] EXCEPT !.v = UnifyV(k, t[i].v, u[i].v, m, n)]]

Known(t, j) == SelectSeq(t, LAMBDA r : r.v[j] # NaN)
Total(t, j) == LET q == Known(t, j) IN SumSeq([i \in 1..Len(q) |-> q[i].v[j]])
Combined(k, t) ==
  CASE k = 0 -> (IF Known(t, 1) = <<>> THEN <<>> ELSE <<1, Total(t, 1)>>)
                 \o (IF Known(t, 2) = <<>> THEN <<>> ELSE <<3, Total(t, 2)>>)
    [] k = 1 -> LET q == Known(t, 1)
                    n == SumSeq([i \in 1..Len(q) |-> q[i].v[2]])
                IN IF n = 0 THEN <<NaN>>
                   ELSE <<(SumSeq([i \in 1..Len(q) |-> q[i].v[1] * q[i].v[2]]) * 1000) \div (1024 * n)>>
    [] k = 2 -> Flat([i \in 1..Len(t) |-> t[i].v])
RowsObs(t) == <<Len(t)>> \o Flat([i \in 1..Len(t) |-> <<t[i].s, t[i].e, Len(t[i].v)>> \o t[i].v])

(* ---- interface: the first argument names a table, 1 or 2 ---- *)
InitSt(a) == [k |-> IF a = <<>> THEN 0 ELSE a[1], t |-> <<<<>>, <<>>>>, n |-> <<1, 1>>, mixed |-> FALSE]
Apply(st, ev) ==
  LET a == ev.a
      x == a[1]
      t == st.t[x]
  IN CASE ev.op = "append" ->
            LET r == [s |-> a[2], e |-> a[3], v |-> SubSeq(a, 4, Len(a))] IN
            IF Free(t, r) THEN R([st EXCEPT !.t[x] = Insert(t, r), !.mixed = @ \/ st.n[x] > 1], <<1>>) ELSE R(st, ValueErr)
       [] ev.op = "update" ->
            LET u == st.t[a[2]] IN
            IF CanMerge(t, u) THEN R([st EXCEPT !.t[x] = InsertAll(t, u), !.mixed = @ \/ (u # <<>> /\ (st.n[x] > 1 \/ st.n[a[2]] > 1))], <<1>>) ELSE R(st, ValueErr)
       [] ev.op = "unify" ->
            LET u == st.t[3 - x] IN
            IF SamePeriods(t, u) THEN R([st EXCEPT !.t[x] = Unify(st.k, t, u, st.n[x], st.n[3 - x]), !.n[x] = @ + st.n[3 - x]], <<1>>) ELSE R(st, OtherErr)
       \* results of another kind, or an entry that is no period with a dictionary, are turned away
       [] ev.op = "foreign" -> R(st, OtherErr)
       [] ev.op = "rows" -> R(st, RowsObs(t))
       [] ev.op = "combined" -> R(st, Combined(st.k, t))
       [] ev.op = "timeframes" -> R(st, Flat([i \in 1..Len(t) |-> <<t[i].s, t[i].e>>]))
       [] OTHER -> R(st, <<-99>>)
\* entries that stand for different numbers of meters in one table: rates unified after that are left open (mixed)
Vague(st) == st.k = 1 /\ st.mixed
Many(st) == st.k = 1 /\ (st.n[1] > 2 \/ st.n[2] > 2)      \* thirds: rates are rounded
RowsNear(st, x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) :
   x[i] = y[i] \/ (i % 5 = 0 /\ x[i] # NaN /\ y[i] # NaN /\ (Vague(st) \/ (Many(st) /\ Abs(x[i] - y[i]) <= 4)))
Near(x, y) == Len(x) = 1 /\ Len(y) = 1 /\ x[1] # NaN /\ y[1] >= 0 /\ Abs(x[1] - y[1]) <= 1
Accepts(st, ev, r) == \/ r.res = ev.res
                      \/ ev.op = "foreign" /\ IsExc(ev.res)
                      \/ st.k = 1 /\ ev.op = "combined" /\ (Near(r.res, ev.res) \/ (Len(r.res) = Len(ev.res) /\ r.res # <<NaN>> /\
                           (Vague(st) \/ (Many(st) /\ Abs(r.res[1] - ev.res[1]) <= 5))))
                      \/ st.k = 1 /\ ev.op = "rows" /\ RowsNear(st, r.res, ev.res)
===========================================================================
