------------------------------- MODULE Fhmm ---------------------------------
(* Factorial hidden Markov models: several appliance chains and their product. *)
(* Probabilities are whole numbers of 1/D.                                     *)
EXTENDS Codes
D == 4
\* a chain: means m, start probabilities p, transitions t (rows), all indexed 1..n
N(c) == Len(c.m)
RECURSIVE Count(_)
Count(cs) == IF cs = <<>> THEN 1 ELSE N(cs[1]) * Count(Tail(cs))
\* joint states are numbered from 0 with the first appliance varying slowest:
\* the states (from 0) of the appliances in joint state j
RECURSIVE Decode(_, _)
Decode(cs, j) == IF cs = <<>> THEN <<>>
                 ELSE LET rest == Count(Tail(cs)) IN <<j \div rest>> \o Decode(Tail(cs), j % rest)
RECURSIVE Encode(_, _)
Encode(cs, d) == IF cs = <<>> THEN 0 ELSE d[1] * Count(Tail(cs)) + Encode(Tail(cs), Tail(d))
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
Mean(cs, j) == LET d == Decode(cs, j) IN SumSeq([k \in 1..Len(cs) |-> cs[k].m[d[k] + 1]])
StartP(cs, j) == LET d == Decode(cs, j) IN Prod([k \in 1..Len(cs) |-> cs[k].p[d[k] + 1]])
TransP(cs, i, j) == LET d == Decode(cs, i) e == Decode(cs, j)
                    IN Prod([k \in 1..Len(cs) |-> cs[k].t[d[k] + 1][e[k] + 1]])
Joint(cs) == 0..(Count(cs) - 1)
Pow(k) == IF k = 0 THEN 1 ELSE D ^ k

(* ---- sorting the states of a chain by power ---- *)
\* a reordering (positions from 1) that sorts the means
Sorts(m, o) == /\ {o[i] : i \in 1..Len(o)} = 1..Len(m) /\ Len(o) = Len(m)
               /\ \A i \in 1..(Len(m) - 1) : m[o[i]] <= m[o[i + 1]]
Reorder(c, v, o) == [m |-> [i \in 1..N(c) |-> c.m[o[i]]], p |-> [i \in 1..N(c) |-> c.p[o[i]]],
                     t |-> [i \in 1..N(c) |-> [j \in 1..N(c) |-> c.t[o[i]][o[j]]]], v |-> [i \in 1..N(c) |-> v[o[i]]]]
SortObs(x) == x.m \o x.p \o Flat(x.t) \o x.v
Orders(c) == {o \in [1..N(c) -> 1..N(c)] : Sorts(c.m, o)}

(* ---- decoding: with all joint states and changes equally likely, each reading is *)
(* explained by a joint state whose mean is nearest ---- *)
Nearest(cs, x) == SetMin({Abs(x - Mean(cs, j)) : j \in Joint(cs)})
Power(cs, j) == LET d == Decode(cs, j) IN [k \in 1..Len(cs) |-> cs[k].m[d[k] + 1]]

(* ---- interface ---- *)
\* a chain as numbers: n, means, start, transition rows
RECURSIVE ChainsOf(_)
ChainsOf(a) ==
  IF a = <<>> THEN <<>>
  ELSE LET n == a[1] IN
       <<[m |-> SubSeq(a, 2, 1 + n), p |-> SubSeq(a, 2 + n, 1 + 2 * n),
          t |-> [i \in 1..n |-> SubSeq(a, 2 + 2 * n + (i - 1) * n, 1 + 2 * n + i * n)]]>>
       \o ChainsOf(SubSeq(a, 2 + 2 * n + n * n, Len(a)))
InitSt(a) == [cs |-> ChainsOf(a)]
RECURSIVE Rows(_)
Rows(a) == IF a = <<>> THEN <<>> ELSE <<SubSeq(a, 2, 1 + a[1])>> \o Rows(SubSeq(a, 2 + a[1], Len(a)))
Apply(st, ev) ==
  LET a == ev.a cs == st.cs n == Count(cs) IN
  CASE ev.op = "means" -> R(st, [j \in 1..n |-> Mean(cs, j - 1)])
    [] ev.op = "start" -> R(st, [j \in 1..n |-> StartP(cs, j - 1)])
    [] ev.op = "trans" -> R(st, Flat([i \in 1..n |-> [j \in 1..n |-> TransP(cs, i - 1, j - 1)]]))
    [] ev.op = "decode" ->     \* joint states -> per appliance: states, powers
         R(st, Flat([k \in 1..Len(cs) |-> [i \in 1..Len(a) |-> Decode(cs, a[i])[k]]
                                          \o [i \in 1..Len(a) |-> Power(cs, a[i])[k]]]))
    [] ev.op = "sort" ->       \* first chain, with variances a
         LET o == CHOOSE o \in Orders(cs[1]) : TRUE IN R(st, SortObs(Reorder(cs[1], a, o)))
    [] ev.op = "predict" -> R(st, Flat([k \in 1..Len(Rows(a)) |-> <<Len(Rows(a)[k])>> \o
                                  [i \in 1..Len(Rows(a)[k]) |-> Nearest(cs, Rows(a)[k][i])]]))
    [] ev.op = "learnt" -> R(st, <<1>>)
    [] OTHER -> R(st, <<-99>>)

\* observed prediction: per chunk its length and per reading one power per appliance
RECURSIVE ExplainsAll(_, _, _)
ExplainsAll(cs, rows, g) ==
  IF rows = <<>> THEN g = <<>>
  ELSE LET r == Head(rows) n == Len(cs) w == 1 + n * Len(r) IN
       /\ Len(g) >= w /\ g[1] = Len(r)
       /\ \A i \in 1..Len(r) :
            LET xs == SubSeq(g, 2 + (i - 1) * n, 1 + i * n) IN
            \E j \in Joint(cs) : xs = Power(cs, j) /\ Abs(r[i] - Mean(cs, j)) = Nearest(cs, r[i])
       /\ ExplainsAll(cs, Tail(rows), SubSeq(g, w + 1, Len(g)))
\* learnt models as recorded (thousandths): number of appliances; per appliance n, means, start, rows;
\* then the joint means, start and transition probabilities
RECURSIVE Take(_, _)
Take(g, k) == IF k = 0 THEN <<>>
              ELSE <<ChainsOf(SubSeq(g, 1, 1 + 2 * g[1] + g[1] * g[1]))[1]>> \o
                   Take(SubSeq(g, 2 + 2 * g[1] + g[1] * g[1], Len(g)), k - 1)
Off(x, y, tol) == Abs(x - y) <= tol
\* product of thousandths, in thousandths
RECURSIVE MilliProd(_)
MilliProd(s) == IF s = <<>> THEN 1000 ELSE (Head(s) * MilliProd(Tail(s))) \div 1000
Learnt(g) ==
  LET cs == Take(Tail(g), g[1]) n == Count(cs) k == g[1]
      used == 1 + SumSeq([i \in 1..k |-> 1 + 2 * N(cs[i]) + N(cs[i]) * N(cs[i])])
      j == SubSeq(g, used + 1, Len(g))
  IN /\ Len(j) = 2 * n + n * n
     /\ \A i \in 1..k : /\ \A x \in 1..(N(cs[i]) - 1) : cs[i].m[x] <= cs[i].m[x + 1]
                        /\ Off(SumSeq(cs[i].p), 1000, 5)
     /\ \A s \in 0..(n - 1) : LET d == Decode(cs, s) IN
          /\ Off(j[s + 1], Mean(cs, s), 5)
          /\ Off(j[n + s + 1], MilliProd([i \in 1..k |-> cs[i].p[d[i] + 1]]), 8)
          /\ \A u \in 0..(n - 1) : LET e == Decode(cs, u) IN
               Off(j[2 * n + s * n + u + 1], MilliProd([i \in 1..k |-> cs[i].t[d[i] + 1][e[i] + 1]]), 8)
Accepts(st, ev, r) ==
  LET g == ev.res IN
  IF g = <<>> \/ IsExc(g) THEN r.res = g
  ELSE CASE ev.op = "sort" -> \E o \in Orders(st.cs[1]) : g = SortObs(Reorder(st.cs[1], ev.a, o))
         [] ev.op = "predict" -> ExplainsAll(st.cs, Rows(ev.a), g)
         [] ev.op = "learnt" -> Learnt(g)
         [] OTHER -> r.res = g
=============================================================================
