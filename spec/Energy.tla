------------------------------- MODULE Energy -------------------------------
(* Total energy of a meter.                                                  *)
(*                                                                           *)
(* A column is 10 * quantity + AC type; quantities: 1 power, 2 energy,       *)
(* 3 cumulative energy, 4 voltage; AC types: 1 active, 2 apparent,           *)
(* 3 reactive (0: none).  One unit of energy is one unit of power over one   *)
(* unit of time.                                                             *)
EXTENDS Chunking

NoLimit == -999999
Quantity(c) == c \div 10
ACType(c) == c % 10

ClipTo(v, lo, hi) == IF v = NaN THEN v
                     ELSE IF lo # NoLimit /\ v < lo THEN lo
                     ELSE IF hi # NoLimit /\ v > hi THEN hi ELSE v

\* the column used for an AC type: cumulative energy, else energy, else power
Choice(cols, ac) ==
  LET has(q) == \E i \in 1..Len(cols) : cols[i] = 10 * q + ac
      at(q) == CHOOSE i \in 1..Len(cols) : cols[i] = 10 * q + ac
  IN IF has(3) THEN at(3) ELSE IF has(2) THEN at(2) ELSE IF has(1) THEN at(1) ELSE 0

\* readings <<time, value>> of column j in rows lo..hi, missing ones skipped
Readings(tab, j, lo, hi) ==
  SelectSeq([i \in 1..(hi - lo + 1) |-> <<tab[lo + i - 1][1], tab[lo + i - 1][j + 1]>>], LAMBDA r : r[2] # NaN)

Power(rs, maxp) == SumSeq([i \in 1..(Len(rs) - 1) |-> rs[i][2] * Min2(rs[i + 1][1] - rs[i][1], maxp)])
Cumul(rs) == IF rs = <<>> THEN 0 ELSE rs[Len(rs)][2] - rs[1][2]
Sum(rs) == SumSeq([i \in 1..Len(rs) |-> rs[i][2]])

EnergyOf(tab, cols, j, lo, hi, maxp) ==
  LET rs == Readings(tab, j, lo, hi) IN
  CASE Quantity(cols[j]) = 1 -> Power(rs, maxp)
    [] Quantity(cols[j]) = 3 -> Cumul(rs)
    [] Quantity(cols[j]) = 2 -> Sum(rs)

(* energy over sections: each section on its own, no reference to chunks *)
SectionEnergy(tab, cols, j, f, maxp) ==
  LET r == Rows(tab, f) IN IF r = <<>> THEN 0 ELSE EnergyOf(tab, cols, j, r[1], r[Len(r)], maxp)
Total(tab, cols, j, secs, maxp) ==
  SumSeq([i \in 1..Len(secs) |-> SectionEnergy(tab, cols, j, secs[i], maxp)])

(* the same, chunk by chunk; energy on a row shared by two chunks counts once *)
ChunkEnergy(tab, cols, j, c, prev, maxp) ==
  IF ~c.data THEN 0
  ELSE EnergyOf(tab, cols, j, c.lo, c.hi, maxp)
       - (IF Quantity(cols[j]) = 2 /\ prev = c.lo /\ tab[c.lo][j + 1] # NaN THEN tab[c.lo][j + 1] ELSE 0)
RECURSIVE ChunkTotal(_, _, _, _, _, _)
ChunkTotal(tab, cols, j, cs, prev, maxp) ==
  IF cs = <<>> THEN 0
  ELSE ChunkEnergy(tab, cols, j, Head(cs), prev, maxp)
       + ChunkTotal(tab, cols, j, Tail(cs), IF Head(cs).data THEN Head(cs).hi ELSE prev, maxp)

(* ---- interface ---- *)
\* begin: maxp, number of columns, then (column, lower, upper) of each, then rows of 1 + ncols integers
InitSt(a) ==
  IF a = <<>> THEN [maxp |-> 0, cols |-> <<>>, tab |-> <<>>]
  ELSE LET n == a[2]
           col(k) == a[3 * k]
           off == 2 + 3 * n
           m == (Len(a) - off) \div (n + 1)
           cell(i, k) == a[off + (i - 1) * (n + 1) + k]
       IN [maxp |-> a[1], cols |-> [k \in 1..n |-> col(k)],
           tab |-> [i \in 1..m |-> [k \in 1..(n + 1) |->
                      IF k = 1 THEN cell(i, 1) ELSE ClipTo(cell(i, k), a[3 * (k - 1) + 1], a[3 * (k - 1) + 2])]]]
Secs(a, i) == [k \in 1..((Len(a) - i + 1) \div 3) |->
                 Frame(a[i + 3 * (k - 1)], a[i + 3 * (k - 1) + 1], FALSE, a[i + 3 * (k - 1) + 2] = 1)]
\* energy: chunk size, physical quantity asked for (0 = whatever there is), sections (none = whole table)
TheSecs(st, a) == IF Len(a) < 3 THEN <<Frame(st.tab[1][1], st.tab[Len(st.tab)][1], FALSE, TRUE)>> ELSE Secs(a, 3)
Asked(st, q) == IF q = 0 THEN st.cols ELSE [i \in 1..Len(st.cols) |-> IF Quantity(st.cols[i]) = q THEN st.cols[i] ELSE 0]
AnyData(st, secs) == \E i \in 1..Len(secs) : Rows(st.tab, secs[i]) # <<>>
EnergyObs(st, a) ==
  LET secs == TheSecs(st, a)
      cols == Asked(st, a[2])
      one(ac) == LET j == Choice(cols, ac) IN
                 IF j = 0 THEN <<>> ELSE <<ac, Total(st.tab, st.cols, j, secs, st.maxp)>>
  IN IF ~AnyData(st, secs) THEN <<>> ELSE one(1) \o one(2) \o one(3)
Apply(st, ev) ==
  CASE ev.op = "energy" -> R(st, EnergyObs(st, ev.a))
    [] OTHER -> R(st, <<-99>>)
Accepts(st, ev, r) == r.res = ev.res
===========================================================================
