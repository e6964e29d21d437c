------------------------------ MODULE Convert -------------------------------
(* What a dataset converter stores, given the raw files it finds.           *)
(*                                                                          *)
(* A raw file is <<h, c, k, rows>>: house, channel (or file), which columns *)
(* it has, and rows <<t, v1, .., vn>> in the order of the file.  What is     *)
(* stored is one table per <<building, meter>>: columns and rows.           *)
(*                                                                          *)
(*  REDD     house h, channel c: one power column (apparent for the two     *)
(*           mains, active for the others), sorted by time, nothing dropped *)
(*  UK-DALE  house h, channel c: one power column of the type the metadata  *)
(*           gives for the meter, in the order of the file, later readings  *)
(*           of a repeated stamp dropped when asked; meters of type 3 are   *)
(*           read from mains.dat (k = 2): active, apparent, voltage         *)
(*  REFIT    one file per house, ten columns = meters 1 to 10, houses       *)
(*           renumbered without the missing house 14, sorted                *)
(*  DRED     one file, thirteen columns = meters 1 to 13, sorted            *)
(*  AMPds    one file per meter; the whole house first, then by name;       *)
(*           incomplete rows dropped                                        *)
(*  COMBED   up to three files (power, energy, current) per meter, joined   *)
(*           by time                                                        *)
EXTENDS Codes
Redd == 1
UkDale == 2
Refit == 3
Dred == 4
Ampds == 5
Combed == 6
\* column codes
Act == 1
App == 2
Volt == 3
React == 4
Curr == 5
EnAct == 6
Missing == 777777
AmpdsCols(k) == CASE k = 1 -> <<Act>> [] k = 2 -> <<Volt, Curr, Act>> [] k = 3 -> <<Act, EnAct, React, App>>
CombedCol(k) == CASE k = 1 -> Act [] k = 2 -> EnAct [] k = 3 -> Curr
RefitHouses == <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 18, 19, 20, 21>>
RefitNo(h) == CHOOSE i \in 1..20 : RefitHouses[i] = h

RECURSIVE LexLE(_, _)
LexLE(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE
               ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLE(Tail(a), Tail(b))
RECURSIVE Insert(_, _)
Insert(x, s) == IF s = <<>> THEN <<x>> ELSE IF LexLE(x, s[1]) THEN <<x>> \o s
                ELSE <<s[1]>> \o Insert(x, Tail(s))
RECURSIVE LexSort(_)
LexSort(s) == IF s = <<>> THEN <<>> ELSE Insert(Head(s), LexSort(Tail(s)))
\* the order of neighbouring readings of the same instant is left open:
\* runs of equal stamps are compared in canonical order
RECURSIVE Canon(_)
Canon(s) == IF s = <<>> THEN <<>> ELSE
  LET n == SetMax({i \in 1..Len(s) : \A j \in 1..i : s[j][1] = s[1][1]})
  IN LexSort(SubSeq(s, 1, n)) \o Canon(SubSeq(s, n + 1, Len(s)))
KeepFirst(rows) ==
  LET RECURSIVE KF(_, _)
      KF(s, seen) == IF s = <<>> THEN <<>>
                     ELSE IF s[1][1] \in seen THEN KF(Tail(s), seen)
                     ELSE <<s[1]>> \o KF(Tail(s), seen \cup {s[1][1]})
  IN KF(rows, {})
Complete(rows) == SelectSeq(rows, LAMBDA r : \A i \in 1..Len(r) : r[i] # Missing)
Column(rows, j) == [i \in 1..Len(rows) |-> <<rows[i][1], rows[i][j + 1]>>]

Tab(b, m, cols, rows) == [b |-> b, m |-> m, cols |-> cols, rows |-> rows]
TypeOf(types, h, c) == LET i == CHOOSE i \in 1..Len(types) : types[i][1] = h /\ types[i][2] = c IN types[i][3]

ReddTab(f) == Tab(f[1], f[2], <<IF f[2] <= 2 THEN App ELSE Act>>, LexSort(f[4]))
UkTab(f, types, dedup) ==
  Tab(f[1], f[2], IF f[3] = 2 THEN <<Act, App, Volt>> ELSE <<IF TypeOf(types, f[1], f[2]) = 2 THEN App ELSE Act>>,
      Canon(IF dedup = 1 THEN KeepFirst(f[4]) ELSE f[4]))
\* a one-second meter is read from mains.dat even if it has a channel file too
UkUsed(f, types) == TypeOf(types, f[1], f[2]) = 3 <=> f[3] = 2
CombedJoin(fs, b, m) ==
  LET mine == SelectSeq(fs, LAMBDA f : f[1] = b /\ f[2] = m)
      has == SortedSeq({mine[i][3] : i \in 1..Len(mine)})
      of(k) == (CHOOSE i \in 1..Len(mine) : mine[i][3] = k)
      ts == SortedSeq(UNION {{mine[i][4][j][1] : j \in 1..Len(mine[i][4])} : i \in 1..Len(mine)})
      val(k, t) == LET rs == SelectSeq(mine[of(k)][4], LAMBDA r : r[1] = t)
                   IN IF rs = <<>> THEN Missing ELSE rs[1][2]
  IN Tab(b, m, [i \in 1..Len(has) |-> CombedCol(has[i])],
         [i \in 1..Len(ts) |-> <<ts[i]>> \o [j \in 1..Len(has) |-> val(has[j], ts[i])]])
\* the whole house has file number 0
AmpdsRank(fs, c) == Cardinality({fs[i][2] : i \in 1..Len(fs)} \cap 0..c)

Tables(kind, dedup, types, fs) ==
  CASE kind = Redd   -> {ReddTab(fs[i]) : i \in 1..Len(fs)}
    [] kind = UkDale -> {UkTab(fs[i], types, dedup) : i \in {j \in 1..Len(fs) : UkUsed(fs[j], types)}}
    [] kind = Refit  -> {Tab(RefitNo(fs[i][1]), j, <<Act>>, LexSort(Column(fs[i][4], j))) : i \in 1..Len(fs), j \in 1..10}
    [] kind = Dred   -> {Tab(1, j, <<App>>, LexSort(Column(fs[1][4], j))) : j \in 1..13}
    [] kind = Ampds  -> {Tab(1, AmpdsRank(fs, fs[i][2]), AmpdsCols(fs[i][3]), Canon(Complete(fs[i][4]))) : i \in 1..Len(fs)}
    [] kind = Combed -> {CombedJoin(fs, fs[i][1], fs[i][2]) : i \in 1..Len(fs)}

Ordered(tabs) ==
  LET ks == SortedSeq({1000 * t.b + t.m : t \in tabs})
  IN [i \in 1..Len(ks) |-> CHOOSE t \in tabs : 1000 * t.b + t.m = ks[i]]
Code(t) == <<t.b, t.m, Len(t.cols)>> \o t.cols \o <<Len(t.rows)>> \o Flat(t.rows)
Stored(tabs) == LET o == Ordered(tabs) IN Flat([i \in 1..Len(o) |-> Code(o[i])])

InitSt(a) == <<>>
Apply(st, ev) ==
  CASE ev.op = "begin" -> R(st, <<>>)
    [] ev.op = "convert" -> R(st, Stored(Tables(ev.a[1], ev.a[2], ev.a[3], ev.a[4])))
Accepts(st, ev, r) == r.res = ev.res
=============================================================================
