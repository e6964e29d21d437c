----------------------------- MODULE Information -----------------------------
(* Entropy of a meter and mutual information of two meters, as estimated from  *)
(* the distances of every reading to its k-th nearest neighbour (Kozachenko-   *)
(* Leonenko, Kraskov).  A series longer than the most that are looked at       *)
(* together is cut into equal pieces and the estimates are averaged.           *)
(* Everything is counted in thousandths of a bit; the digamma function is      *)
(* only needed at integers, where it is a harmonic sum up to a constant that   *)
(* cancels.                                                                    *)
EXTENDS Codes
Tolerance == 6

(* ---- arithmetic ---- *)
\* log2 of an integer in thousandths, by repeated squaring of the mantissa
RECURSIVE Expo(_), Bits(_, _, _)
Expo(n) == IF n < 2 THEN 0 ELSE 1 + Expo(n \div 2)
Pow2(e) == 2 ^ e
Bits(m, n, acc) == IF n = 0 THEN acc
                   ELSE LET q == (m * m) \div 16384 IN
                        IF q >= 32768 THEN Bits(q \div 2, n - 1, 2 * acc + 1) ELSE Bits(q, n - 1, 2 * acc)
Log2(n) == LET e == Expo(n) IN 1000 * e + (1000 * Bits(n * Pow2(14 - e), 10, 0)) \div 1024
\* 1/1 + ... + 1/n in hundred-thousandths
RECURSIVE Harmonic(_)
Harmonic(n) == IF n = 0 THEN 0 ELSE 100000 \div n + Harmonic(n - 1)
\* natural units in hundred-thousandths -> thousandths of a bit
ToBits(v) == (v * 1443) \div 100000

(* ---- neighbours: readings are distinct points even where they are equal ---- *)
Kth(d, k) == SetMin({d[j] : j \in {j \in 1..Len(d) : Cardinality({l \in 1..Len(d) : d[l] <= d[j]}) >= k}})
Others(n, i) == [j \in 1..(n - 1) |-> IF j < i THEN j ELSE j + 1]
Nearest(x, k, i) == LET o == Others(Len(x), i) IN Kth([j \in 1..Len(o) |-> Abs(x[i] - x[o[j]])], k)
Joint(x, y, k, i) == LET o == Others(Len(x), i)
                     IN Kth([j \in 1..Len(o) |-> Max2(Abs(x[i] - x[o[j]]), Abs(y[i] - y[o[j]]))], k)
Inside(x, i, d) == Cardinality({j \in 1..Len(x) : Abs(x[i] - x[j]) < d})
OnEdge(x, i, d) == Cardinality({j \in 1..Len(x) : Abs(x[i] - x[j]) = d})

(* ---- the estimates of one piece ---- *)
Entropy(x, k) ==
  ToBits(Harmonic(Len(x) - 1) - Harmonic(k - 1)) + 1000
    + SumSeq([i \in 1..Len(x) |-> Log2(Nearest(x, k, i))]) \div Len(x)
Mutual(x, y, k) ==
  LET n == Len(x)
      d == TLCEval([i \in 1..n |-> Joint(x, y, k, i)])
      avg(z) == SumSeq([i \in 1..n |-> Harmonic(Inside(z, i, d[i]) - 1)]) \div n
  IN ToBits(Harmonic(k - 1) + Harmonic(n - 1) - avg(x) - avg(y))
\* the estimate does not hang on how ties are broken
Spread(x, k) == Len(x) > k /\ \A i \in 1..Len(x) : Nearest(x, k, i) > 0
NoTies(x, y, k) == Len(x) > k /\ \A i \in 1..Len(x) :
                     LET d == Joint(x, y, k, i) IN d > 0 /\ OnEdge(x, i, d) + OnEdge(y, i, d) = 1

(* ---- pieces ---- *)
Count(n, most) == IF n > most THEN n \div most + 1 ELSE 1
Start(n, s, p) == (p - 1) * (n \div s) + Min2(p - 1, n % s)
Parts(x, most) == LET n == Len(x) s == Count(n, most)
                  IN [p \in 1..s |-> SubSeq(x, Start(n, s, p) + 1, Start(n, s, p + 1))]
Mean(s) == SumSeq(s) \div Len(s)

(* ---- interface ---- *)
InitSt(a) == IF a = <<>> THEN [most |-> 1, x |-> <<>>, y |-> <<>>] ELSE
             [most |-> a[1], x |-> SubSeq(a, 3, 2 + a[2]), y |-> SubSeq(a, 3 + a[2], 2 + 2 * a[2])]
Apply(st, ev) ==
  LET a == ev.a IN
  CASE ev.op = "entropy" ->     \* which meter, k, bits per unit
         LET ps == Parts(IF a[1] = 1 THEN st.x ELSE st.y, st.most) IN
         R(st, IF \A p \in 1..Len(ps) : Spread(ps[p], a[2])
               THEN <<Mean([p \in 1..Len(ps) |-> Entropy(ps[p], a[2])]) \div a[3]>> ELSE <<-98>>)
    [] ev.op = "mutual" ->      \* of which meter with the other, k, bits per unit
         LET ps == Parts(st.x, st.most) qs == Parts(st.y, st.most) IN
         R(st, IF \A p \in 1..Len(ps) : NoTies(ps[p], qs[p], a[2])
               THEN <<Mean([p \in 1..Len(ps) |-> Mutual(ps[p], qs[p], a[2])]) \div a[3]>> ELSE <<-98>>)
    [] OTHER -> R(st, <<-99>>)
Accepts(st, ev, r) ==
  \/ r.res = <<-98>>
  \/ Len(ev.res) = 1 /\ Abs(r.res[1] - ev.res[1]) <= Tolerance
===========================================================================
