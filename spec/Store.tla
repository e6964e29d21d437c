------------------------------- MODULE Store -------------------------------
(* A data store: tables under meter keys, metadata under the root and the   *)
(* buildings.  kind 0: one HDF5 file; kind 1: a directory of CSV files.     *)
(*                                                                         *)
(* Meter keys 1, 2 lie in building 1, key 3 in building 2.  A write of      *)
(* block r stores two rows, at times 10r and 10r+1.                         *)
EXTENDS Codes

Keys == 1..3
Blds == 1..2
BldOf(k) == IF k < 3 THEN 1 ELSE 2
Absent == -1          \* no metadata
AnyMeta == -98        \* metadata of a removed building: unspecified for CSV
Refused == <<Exc, 0>>
Unspecified == <<-98>>

InitSt(a) == [kind |-> IF a = <<>> THEN 0 ELSE a[1],
              tab |-> [k \in Keys |-> <<>>],          \* blocks written, in order
              has |-> [k \in Keys |-> FALSE],
              bld |-> [b \in Blds |-> FALSE],         \* the building exists
              meta |-> [b \in 0..2 |-> Absent]]

RowsOf(bs) == Flat([i \in 1..Len(bs) |-> <<10 * bs[i], 10 * bs[i] + 1>>])
TabObs(st, k) == IF st.has[k] THEN <<2 * Len(st.tab[k])>> \o RowsOf(st.tab[k]) ELSE KeyErr
MetaObs(st, b) == IF st.meta[b] = Absent THEN Refused
                  ELSE IF st.meta[b] = AnyMeta THEN Unspecified ELSE <<st.meta[b]>>

Write(st, k, bs) == [st EXCEPT !.tab[k] = bs, !.has[k] = TRUE, !.bld[BldOf(k)] = TRUE]
SetToSeqBy(S) == SortedSeq(S)
Meters(st, b) == {k \in Keys : BldOf(k) = b /\ st.has[k]}
Number(k) == IF k = 2 THEN 2 ELSE 1      \* the meter's number within its building

\* everything a conversion carries over
Contents(st) ==
  <<st.meta[0]>> \o
  Flat([b \in 1..2 |-> IF st.bld[b] THEN <<b, st.meta[b]>> ELSE <<0>>]) \o
  Flat([k \in 1..3 |-> IF st.has[k] THEN TabObs(st, k) ELSE <<-2>>])
Convertible(st) ==
  /\ st.meta[0] >= 0
  /\ \A b \in Blds : st.bld[b] => (st.meta[b] >= 0 /\ Meters(st, b) # {})

Apply(st, ev) ==
  LET a == ev.a IN
  CASE ev.op = "put" -> R(Write(st, a[1], <<a[2]>>), <<0>>)
    [] ev.op = "append" -> R(Write(st, a[1], Append(st.tab[a[1]], a[2])), <<0>>)
    [] ev.op = "remove" ->
         IF st.has[a[1]] THEN R([st EXCEPT !.tab[a[1]] = <<>>, !.has[a[1]] = FALSE], <<0>>)
         ELSE R(st, Refused)
    [] ev.op = "remove_building" ->
         IF st.bld[a[1]]
         THEN R([st EXCEPT !.tab = [k \in Keys |-> IF BldOf(k) = a[1] THEN <<>> ELSE @[k]],
                           !.has = [k \in Keys |-> IF BldOf(k) = a[1] THEN FALSE ELSE @[k]],
                           !.bld[a[1]] = FALSE,
                           !.meta[a[1]] = IF st.kind = 0 \/ @ = Absent THEN Absent ELSE AnyMeta], <<0>>)
         ELSE R(st, Refused)
    \* an HDF5 file keeps the metadata of a building in the building
    [] ev.op = "save" ->
         IF st.kind = 0 /\ a[1] > 0 /\ ~st.bld[a[1]] THEN R(st, Refused)
         ELSE R([st EXCEPT !.meta[a[1]] = a[2]], <<0>>)
    [] ev.op = "meta" -> R(st, MetaObs(st, a[1]))
    [] ev.op = "load" -> R(st, TabObs(st, a[1]))
    [] ev.op = "get" -> R(st, TabObs(st, a[1]))
    [] ev.op = "buildings" -> R(st, SortedSeq({b \in Blds : st.bld[b]}))
    [] ev.op = "utilities" -> IF st.bld[a[1]] THEN R(st, <<1>>) ELSE R(st, Unspecified)
    [] ev.op = "meters" ->
         IF st.bld[a[1]] THEN R(st, SortedSeq({Number(k) : k \in Meters(st, a[1])}))
         ELSE R(st, Unspecified)
    [] ev.op = "reopen" -> R(st, <<0>>)
    \* no name, a name or a format of no known kind: refused
    [] ev.op = "unopenable" -> R(st, Refused)
    \* convert into a store of kind a[1] and observe everything there
    [] ev.op = "convert" -> IF Convertible(st) THEN R(st, Contents(st)) ELSE R(st, Unspecified)
    [] OTHER -> R(st, <<-99>>)

Accepts(st, ev, r) == r.res = Unspecified \/ r.res = ev.res
===========================================================================
