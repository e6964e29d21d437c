------------------------------ MODULE Histogram ------------------------------
(* Counting a stream of chunks of readings into bins.                          *)
EXTENDS Codes
None == 777

Known(x) == SelectSeq(x, LAMBDA v : v # NaN)
Set(x) == {x[i] : i \in 1..Len(x)}
(* ---- which bins: fixed by the arguments, or by the first chunk with readings ---- *)
First(chunks) == LET k == SelectSeq(chunks, LAMBDA c : Known(c) # <<>>) IN IF k = <<>> THEN <<>> ELSE Known(k[1])
Lo(chunks, lo) == IF lo = None THEN SetMin(Set(First(chunks))) ELSE lo
Hi(chunks, hi) == IF hi = None THEN SetMax(Set(First(chunks))) ELSE hi
\* defined when there is something to count in at least one bin
Defined(chunks, nb, lo, hi) ==
  /\ (lo = None \/ hi = None) => First(chunks) # <<>>
  /\ LET l == Lo(chunks, lo) h == Hi(chunks, hi) IN l < h /\ (nb # None => nb > 0)
(* ---- counts: bin b of n over [lo, hi]; the last bin includes its upper edge ---- *)
InBin(v, b, n, lo, hi) ==
  /\ (v - lo) * n >= (b - 1) * (hi - lo)
  /\ \/ (v - lo) * n < b * (hi - lo)
     \/ b = n /\ v = hi
CountIn(x, b, n, lo, hi) == Cardinality({i \in 1..Len(x) : x[i] # NaN /\ InBin(x[i], b, n, lo, hi)})
Counts(x, n, lo, hi) == [b \in 1..n |-> CountIn(x, b, n, lo, hi)]
Whole(chunks, nb, lo, hi) ==
  LET l == Lo(chunks, lo) h == Hi(chunks, hi) n == IF nb = None THEN h - l ELSE nb
  IN [n |-> n, lo |-> l, hi |-> h, c |-> Counts(Flat(chunks), n, l, h)]
RECURSIVE Adding(_, _, _, _)
Adding(chunks, n, lo, hi) == IF chunks = <<>> THEN [b \in 1..n |-> 0]
                             ELSE LET h == Counts(chunks[1], n, lo, hi) r == Adding(Tail(chunks), n, lo, hi)
                                  IN [b \in 1..n |-> h[b] + r[b]]
\* counts, and edges in thousandths
Obs(w) == <<w.n>> \o w.c \o [k \in 1..(w.n + 1) |-> 1000 * w.lo + (1000 * (k - 1) * (w.hi - w.lo)) \div w.n]

(* ---- interface ---- *)
RECURSIVE Chunks(_)
Chunks(a) == IF a = <<>> THEN <<>> ELSE <<SubSeq(a, 2, 1 + a[1])>> \o Chunks(SubSeq(a, 2 + a[1], Len(a)))
InitSt(a) == Chunks(a)
Apply(st, ev) ==
  LET a == ev.a IN
  CASE ev.op = "hist" ->
         R(st, IF ~Defined(st, a[1], a[2], a[3]) THEN <<-98>> ELSE Obs(Whole(st, a[1], a[2], a[3])))
    \* of the power of a meter whose readings are all the chunks, from its power threshold of 10 by default
    [] ev.op = "plot" ->
         LET lo == IF a[2] = None THEN 10 ELSE a[2] IN
         R(st, IF ~Defined(st, a[1], lo, a[3]) THEN <<-98>>
               ELSE LET w == Whole(st, a[1], lo, a[3]) IN <<w.n>> \o w.c)
    [] OTHER -> R(st, <<-99>>)
Accepts(st, ev, r) == r.res = ev.res \/ r.res = <<-98>>
===========================================================================
