------------------------------- MODULE Hart --------------------------------
(* Event detection: steady states and transitions of a power series, pairing  *)
(* of rising with falling edges in a bounded buffer, and the on/off power     *)
(* predicted from them.  Power is a sequence of 1 (active) or 2 (active and   *)
(* reactive) components; running means are exact fractions sum/count.         *)
EXTENDS Codes

AnyComp(n, P(_)) == \E i \in 1..n : P(i)
Zero(nc) == [i \in 1..nc |-> 0]

(* ---- steady states: a fold over the rows ---- *)
\* a level: sum and count of its readings; flat: all readings equal
Level0(nc) == [s |-> Zero(nc), n |-> 1, flat |-> TRUE]
Gap(a, b, i) == a.s[i] * b.n - b.s[i] * a.n          \* (a - b) * a.n * b.n
Big(a, b, noise, nc) == AnyComp(nc, LAMBDA i : Abs(Gap(a, b, i)) > noise * a.n * b.n)
Tie(a, b, noise, nc) == AnyComp(nc, LAMBDA i : Abs(Gap(a, b, i)) = noise * a.n * b.n) /\ ~(a.flat /\ b.flat)
Start(nc) == [est |-> Level0(nc), cnt |-> 0, last |-> Level0(nc), prev |-> Zero(nc), moving |-> FALSE,
              at |-> 0, out |-> <<>>, tie |-> FALSE]
Entry(q) == [at |-> q.at, new |-> q.est, old |-> q.last]
Report(q, noise, nc) == [q EXCEPT !.tie = @ \/ Tie(q.est, q.last, noise, nc),
                                  !.out = IF Big(q.est, q.last, noise, nc) THEN Append(@, Entry(q)) ELSE @]
Row(q, t, v, thr, noise, nc) ==
  LET jump == AnyComp(nc, LAMBDA i : Abs(v[i] - q.prev[i]) > thr)
      q1 == IF jump /\ ~q.moving THEN [Report(q, noise, nc) EXCEPT !.last = q.est, !.at = t] ELSE q
      fresh == jump \/ q1.cnt = 0
      est == IF fresh THEN [s |-> v, n |-> 1, flat |-> TRUE]
             ELSE [s |-> [i \in 1..nc |-> q1.est.s[i] + v[i]], n |-> q1.cnt + 1,
                   flat |-> q1.est.flat /\ \A i \in 1..nc : v[i] * q1.est.n = q1.est.s[i]]
  IN [q1 EXCEPT !.est = est, !.cnt = est.n, !.moving = jump, !.prev = v]
RECURSIVE Fold(_, _, _, _, _)
Fold(q, rows, thr, noise, nc) ==
  IF rows = <<>> THEN q ELSE Fold(Row(q, rows[1][1], rows[1][2], thr, noise, nc), Tail(rows), thr, noise, nc)
\* rows: <<time, components>>
States(rows, thr, noise, nc) ==
  LET q == Report(Fold([Start(nc) EXCEPT !.at = rows[1][1]], rows, thr, noise, nc), noise, nc)
      o == q.out
      \* the first level of the series is not an event
      fake == o # <<>> /\ o[1].at = rows[1][1] /\ AnyComp(nc, LAMBDA i : o[1].new.s[i] > noise * o[1].new.n)
  IN [tie |-> q.tie \/ (o # <<>> /\ Tie(o[1].new, Level0(nc), noise, nc)), out |-> IF fake THEN Tail(o) ELSE o]
\* a fraction in thousandths, rounded down
Milli(num, den) == (num * 1000) \div den
StatesObs(x, nc) == <<Len(x)>> \o Flat([k \in 1..Len(x) |->
                      <<x[k].at>> \o [i \in 1..nc |-> Milli(Gap(x[k].new, x[k].old, i), x[k].new.n * x[k].old.n)]
                                  \o [i \in 1..nc |-> Milli(x[k].new.s[i], x[k].new.n)]])
Close(exp, got) == Len(exp) = Len(got) /\ \A i \in 1..Len(exp) : exp[i] = got[i] \/ (exp[i] # NaN /\ Abs(got[i]) < 10000000 /\ Abs(exp[i] - got[i]) <= 1)

RECURSIVE RowsOf(_, _)
RowsOf(a, nc) == IF a = <<>> THEN <<>>
                 ELSE <<<<a[1], [i \in 1..nc |-> a[1 + i]]>>>> \o RowsOf(SubSeq(a, 2 + nc, Len(a)), nc)
RECURSIVE RowsIn(_, _, _)      \* a chunk: number of rows, rows
RowsIn(a, nc, t) == IF a = <<>> THEN <<>>
                    ELSE LET w == a[1] * (1 + nc) IN <<RowsOf(SubSeq(a, 2, 1 + w), nc)>> \o RowsIn(SubSeq(a, 2 + w, Len(a)), nc, t)
Clean(rows) == SelectSeq(rows, LAMBDA r : \A i \in 1..Len(r[2]) : r[2][i] # NaN)

(* ---- pairing of edges ---- *)
\* begin: buffer size, minimum tolerance, percentage (per mille), large transition, components
\* an edge in the buffer: id, components, taken
Fits(st, x, y) ==
  /\ ~x.taken /\ ~y.taken /\ x.v[1] > 0
  /\ \A i \in 1..st.nc : LET m == Max2(Abs(x.v[i]), Abs(y.v[i])) d == Abs(x.v[i] + y.v[i]) IN
       IF m < st.large THEN d < st.tol ELSE 1000 * d < st.pct * m
TieP(st, x, y) == x.v[1] > 0 /\ \E i \in 1..st.nc : LET m == Max2(Abs(x.v[i]), Abs(y.v[i])) IN
       m >= st.large /\ 1000 * Abs(x.v[i] + y.v[i]) = st.pct * m
\* nearest neighbours first, earliest first among equally near
Order(n) == Flat([d \in 1..(n - 1) |-> [i \in 1..(n - d) |-> <<i, i + d>>]])
RECURSIVE Match(_, _, _, _)
Match(st, buf, ps, got) ==
  IF ps = <<>> THEN [buf |-> buf, got |-> got]
  ELSE LET i == ps[1][1] j == ps[1][2] IN
       IF Fits(st, buf[i], buf[j])
       THEN Match(st, [buf EXCEPT ![i].taken = TRUE, ![j].taken = TRUE], Tail(ps), Append(got, <<buf[i].id, buf[j].id>>))
       ELSE Match(st, buf, Tail(ps), got)
Matched(st) == Match(st, st.buf, Order(Len(st.buf)), <<>>)
Untaken(buf) == SelectSeq(buf, LAMBDA x : ~x.taken)
Added(st, v) == LET b == Append(st.buf, [id |-> st.next, v |-> v, taken |-> FALSE])
                IN [st EXCEPT !.next = @ + 1, !.buf = IF Len(b) > st.size THEN Tail(b) ELSE b]
RECURSIVE PairAll(_, _)        \* the whole detector: make room when full, add, match
PairAll(st, edges) ==
  IF edges = <<>> THEN st
  ELSE LET s1 == IF Len(st.buf) = st.size THEN [st EXCEPT !.buf = Untaken(@)] ELSE st
           s2 == Added(s1, Head(edges))
           m == Matched(s2)
       IN PairAll([s2 EXCEPT !.buf = m.buf, !.pairs = @ \o m.got], Tail(edges))
BufObs(st) == <<Len(st.buf)>> \o Flat([i \in 1..Len(st.buf) |-> <<st.buf[i].id, B(st.buf[i].taken)>>])
              \o Flat(st.pairs)
Ties(buf, st) == \E i, j \in 1..Len(buf) : i < j /\ TieP(st, buf[i], buf[j])

(* ---- prediction: on at the level of the nearest learnt cluster ---- *)
Dist(e, c) == Abs(Abs(Gap(e.new, e.old, 1)) - c * e.new.n * e.old.n)
Nearest(e, cs) == SetMin({k \in 1..Len(cs) : \A j \in 1..Len(cs) : Dist(e, cs[k]) <= Dist(e, cs[j])})
Unclear(e, cs) == \E j, k \in 1..Len(cs) : j # k /\ Dist(e, cs[k]) = Dist(e, cs[j])
Rise(e) == Gap(e.new, e.old, 1) > 0
OpenV == -98
\* power of cluster k at row i (times are row numbers): the rows of the edges themselves and
\* the last row are left open
Power(out, cs, k, n, i) ==
  LET mine == SelectSeq(out, LAMBDA e : Nearest(e, cs) = k)
      before == SelectSeq(mine, LAMBDA e : e.at < i)
  IN IF i = n \/ \E j \in 1..Len(mine) : mine[j].at = i THEN OpenV
     ELSE IF before = <<>> \/ ~Rise(before[Len(before)]) THEN 0 ELSE cs[k]
PredictChunk(st, vals) ==
  LET rows == [i \in 1..Len(vals) |-> <<i, <<vals[i]>>>>]
      x == States(rows, st.thr, st.noise, 1)
      un == x.tie \/ \E k \in 1..Len(x.out) : Unclear(x.out[k], st.cs)
  IN <<Len(vals)>> \o Flat([j \in 1..Len(st.apps) |-> [i \in 1..Len(vals) |->
        IF un THEN OpenV ELSE Power(x.out, st.cs, st.apps[j], Len(vals), i)]])
RECURSIVE Chunks(_)
Chunks(a) == IF a = <<>> THEN <<>> ELSE <<SubSeq(a, 2, 1 + a[1])>> \o Chunks(SubSeq(a, 2 + a[1], Len(a)))
Matches(exp, got) == Len(exp) = Len(got) /\ \A i \in 1..Len(exp) : exp[i] = OpenV \/ exp[i] = got[i]

(* ---- interface ---- *)
InitSt(a) == IF a = <<>> THEN <<>>
             ELSE IF a[1] = 1 THEN [size |-> a[2], tol |-> a[3], pct |-> a[4], large |-> a[5], nc |-> a[6],
                                    buf |-> <<>>, next |-> 1, pairs |-> <<>>]
             ELSE IF a[1] = 2 THEN [thr |-> a[2], noise |-> a[3], nc |-> a[4]]
             ELSE [thr |-> a[2], noise |-> a[3], cs |-> SubSeq(a, 5, 4 + a[4]), apps |-> SubSeq(a, 5 + a[4], Len(a))]
RECURSIVE CatStates(_, _)
CatStates(st, chs) == IF chs = <<>> THEN [tie |-> FALSE, out |-> <<>>]
  ELSE LET r == Clean(Head(chs)) x == IF r = <<>> THEN [tie |-> FALSE, out |-> <<>>] ELSE States(r, st.thr, st.noise, st.nc)
           y == CatStates(st, Tail(chs))
       IN [tie |-> x.tie \/ y.tie, out |-> x.out \o y.out]
Apply(st, ev) ==
  LET a == ev.a IN
  CASE ev.op = "add" -> LET s == Added(st, a) IN R(s, BufObs(s))
    [] ev.op = "match" -> LET m == Matched(st) s == [st EXCEPT !.buf = m.buf, !.pairs = @ \o m.got]
                          IN R(s, IF Ties(st.buf, st) THEN <<-98>> ELSE <<B(m.got # <<>>)>> \o BufObs(s))
    [] ev.op = "clean" -> LET s == [st EXCEPT !.buf = Untaken(@)] IN R(s, BufObs(s))
    [] ev.op = "pair" -> LET s == PairAll(st, [k \in 1..(Len(a) \div st.nc) |-> [i \in 1..st.nc |-> a[(k - 1) * st.nc + i]]])
                         IN R(st, Flat(s.pairs))
    [] ev.op = "states" -> LET x == States(RowsOf(a, st.nc), st.thr, st.noise, st.nc)
                           IN R(st, IF x.tie THEN <<-98>> ELSE StatesObs(x.out, st.nc))
    [] ev.op = "chunks" -> LET x == CatStates(st, RowsIn(a, st.nc, 0))
                           IN R(st, IF x.tie THEN <<-98>> ELSE StatesObs(x.out, st.nc))
    [] ev.op = "predict" -> LET cs == Chunks(a) IN R(st, Flat([k \in 1..Len(cs) |-> PredictChunk(st, cs[k])]))
    [] OTHER -> R(st, <<-99>>)
Accepts(st, ev, r) ==
  \/ r.res = <<-98>>
  \/ ev.op \in {"states", "chunks"} /\ Close(r.res, ev.res)
  \/ ev.op = "predict" /\ Matches(r.res, ev.res)
  \/ r.res = ev.res
============================================================================
