------------------------------ MODULE Resample ------------------------------
(* Resampling a table to a coarser period: bins of p units of time, each the   *)
(* mean of its readings; short gaps repeat the last value.                     *)
EXTENDS Chunking

\* repeated time stamps count once
RECURSIVE Dedup(_)
Dedup(rows) == IF Len(rows) < 2 THEN rows
               ELSE LET d == Dedup(SubSeq(rows, 1, Len(rows) - 1))
                        last == rows[Len(rows)]
                    IN IF \E i \in 1..Len(d) : d[i][1] = last[1] THEN d ELSE Append(d, last)
BinOf(t, p) == t \div p
MeanOf(vs) == IF vs = <<>> THEN NaN ELSE SumSeq(vs) \div Len(vs)
\* what stands for the readings of a bin: 0 mean, 1 greatest, 2 least, 3 first, 4 last
Agg(how, vs) == IF vs = <<>> THEN NaN
                ELSE CASE how = 0 -> MeanOf(vs)
                       [] how = 1 -> SetMax({vs[i] : i \in 1..Len(vs)})
                       [] how = 2 -> SetMin({vs[i] : i \in 1..Len(vs)})
                       [] how = 3 -> vs[1]
                       [] how = 4 -> vs[Len(vs)]
InBin(rows, j, b, p) ==
  LET r == SelectSeq(rows, LAMBDA x : BinOf(x[1], p) = b /\ x[j + 1] # NaN)
  IN [i \in 1..Len(r) |-> r[i][j + 1]]
\* repeat the last value over at most lim empty bins
FFill(vs, lim) ==
  [k \in 1..Len(vs) |->
     IF vs[k] # NaN THEN vs[k]
     ELSE LET back == {i \in Max2(1, k - lim)..(k - 1) : vs[i] # NaN}
          IN IF back = {} THEN NaN ELSE vs[SetMax(back)]]
BFill(vs, lim) ==
  [k \in 1..Len(vs) |->
     IF vs[k] # NaN THEN vs[k]
     ELSE LET on == {i \in (k + 1)..Min2(Len(vs), k + lim) : vs[i] # NaN}
          IN IF on = {} THEN NaN ELSE vs[SetMin(on)]]
\* <<time, v1, ...>> of every bin from the first to the last row
ResampledBy(rows0, ncols, p, lim, how, back) ==
  IF rows0 = <<>> THEN <<>>
  ELSE LET rows == Dedup(rows0)
           b0 == BinOf(rows[1][1], p)
           b1 == BinOf(rows[Len(rows)][1], p)
           bins(j) == [k \in 1..(b1 - b0 + 1) |-> Agg(how, InBin(rows, j, b0 + k - 1, p))]
           col(j) == IF back THEN BFill(bins(j), lim) ELSE FFill(bins(j), lim)
           cols == [j \in 1..ncols |-> col(j)]
       IN [k \in 1..(b1 - b0 + 1) |-> <<(b0 + k - 1) * p>> \o [j \in 1..ncols |-> cols[j][k]]]
Resampled(rows, ncols, p, lim) == ResampledBy(rows, ncols, p, lim, 0, FALSE)
Limit(maxp, p) == (maxp + p - 1) \div p

(* ---- interface ---- *)
\* begin: maximum sample period, number of columns, rows
InitSt(a) == IF a = <<>> THEN [maxp |-> 1, n |-> 1, tab |-> <<>>]
             ELSE LET n == a[2] m == (Len(a) - 2) \div (n + 1) IN
                  [maxp |-> a[1], n |-> n,
                   tab |-> [i \in 1..m |-> [k \in 1..(n + 1) |-> a[2 + (i - 1) * (n + 1) + k]]]]
Secs(a, i) == [k \in 1..((Len(a) - i + 1) \div 3) |->
                 Frame(a[i + 3 * (k - 1)], a[i + 3 * (k - 1) + 1], FALSE, a[i + 3 * (k - 1) + 2] = 1)]
\* load: period, chunk size, sections (none: everything)
\* (period 0: as stored); what the caller passed for one load says nothing about the next
LoadBy(st, a, n, lim, how, back) ==
  LET secs == IF Len(a) < n THEN <<Open>> ELSE Secs(a, n)
      cs == AllChunks(0, st.tab, Open, secs, a[2])
      seen(t) == IF a[1] = 0 THEN t ELSE ResampledBy(t, st.n, a[1], lim, how, back)
      one(c) == LET r == IF c.data THEN seen(SubSeq(st.tab, c.lo, c.hi)) ELSE <<>>
                IN <<Len(r)>> \o Flat(r)
  IN Flat([i \in 1..Len(cs) |-> one(cs[i])])
LoadObs(st, a) == LoadBy(st, a, 3, Limit(st.maxp, Max2(1, a[1])), 0, FALSE)
Apply(st, ev) ==
  CASE ev.op = "load" -> R(st, LoadObs(st, ev.a))
    \* loadby: period, chunk size, how, 1 to fill backwards, most bins to fill (0: as by default), sections
    [] ev.op = "loadby" -> R(st, LoadBy(st, ev.a, 6, IF ev.a[5] = 0 THEN Limit(st.maxp, ev.a[1]) ELSE ev.a[5],
                                        ev.a[3], ev.a[4] = 1))
    [] OTHER -> R(st, <<-99>>)
Accepts(st, ev, r) == r.res = ev.res
===========================================================================
