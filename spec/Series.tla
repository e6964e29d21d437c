------------------------------- MODULE Series -------------------------------
(* Power of a meter as series: chunk by chunk, and all of it at once.         *)
(* Columns are coded 10 * quantity + AC type as in Columns; power is 1.       *)
EXTENDS Chunking
CO == INSTANCE Columns

(* ---- one number per row: the sum over the columns asked for ---- *)
ColsOf(st, acs) == CO!Select({st.cols[i] : i \in 1..Len(st.cols)}, <<1>>, acs)
Value(st, row, cs) ==
  LET vs == [k \in 1..Len(cs) |-> row[1 + (CHOOSE i \in 1..Len(st.cols) : st.cols[i] = cs[k])]]
  IN IF \E k \in 1..Len(vs) : vs[k] = NaN THEN NaN ELSE SumSeq(vs)
Series_(st, cs, lo, hi) == [i \in 1..(hi - lo + 1) |-> <<st.tab[lo + i - 1][1], Value(st, st.tab[lo + i - 1], cs)>>]

(* ---- what all of it is: each reading of each section, once ---- *)
RECURSIVE Once(_, _)
Once(xs, seen) == IF xs = <<>> THEN <<>>
                  ELSE IF xs[1] \in seen THEN Once(Tail(xs), seen)
                  ELSE <<xs[1]>> \o Once(Tail(xs), seen \cup {xs[1]})
WholeRows(tab, win, secs) == Once(Flat([k \in 1..Len(secs) |-> Rows(tab, Inter(win, secs[k]))]), {})
(* ---- how it is put together from chunks ---- *)
Joined(tab, win, secs, size) ==
  LET cs == AllChunks(0, tab, win, secs, size)
      rs == [k \in 1..Len(cs) |-> IF cs[k].data THEN [i \in 1..(cs[k].hi - cs[k].lo + 1) |-> cs[k].lo + i - 1] ELSE <<>>]
  IN Once(Flat(rs), {})

(* ---- interface ---- *)
\* begin: number of columns, the columns, rows of 1 + that many integers
InitSt(a) == IF a = <<>> THEN <<>>
             ELSE LET n == a[1] m == (Len(a) - 1 - n) \div (n + 1) IN
                  [cols |-> SubSeq(a, 2, 1 + n), win |-> Open,
                   tab |-> [i \in 1..m |-> SubSeq(a, 2 + n + (i - 1) * (n + 1), 1 + n + i * (n + 1))]]
\* arguments: chunk size, number of AC types asked for, those, then sections
Acs(a) == SubSeq(a, 3, 2 + a[2])
SecsOf(a) == LET i == 3 + a[2] IN
             IF Len(a) < i THEN <<Open>>
             ELSE [k \in 1..((Len(a) - i + 1) \div 3) |->
                     Frame(a[i + 3 * (k - 1)], a[i + 3 * (k - 1) + 1], FALSE, a[i + 3 * (k - 1) + 2] = 1)]
Apply(st, ev) ==
  LET a == ev.a IN
  CASE ev.op = "window" -> R([st EXCEPT !.win = Frame(a[1], a[2], FALSE, FALSE)], <<0>>)
    [] ev.op \in {"chunks", "all"} ->
       LET cs == ColsOf(st, Acs(a)) IN
       IF IsExc(cs) THEN R(st, cs)
       ELSE IF ev.op = "chunks"
            THEN LET ch == AllChunks(0, st.tab, st.win, SecsOf(a), a[1])
                     one(c) == IF ~c.data THEN <<0, c.s, c.e>>
                               ELSE LET s == Series_(st, cs, c.lo, c.hi) IN <<Len(s)>> \o Flat(s) \o <<c.s, c.e>> \o cs
                 IN R(st, Flat([k \in 1..Len(ch) |-> one(ch[k])]))
            ELSE LET r == WholeRows(st.tab, st.win, SecsOf(a)) IN
                 R(st, IF r = <<>> THEN <<-1>>
                       ELSE cs \o Flat([k \in 1..Len(r) |-> <<st.tab[r[k]][1], Value(st, st.tab[r[k]], cs)>>]))
    \* base load: the smallest reading of all
    [] ev.op = "vampire" ->
       LET cs == ColsOf(st, <<9>>)
           r == WholeRows(st.tab, st.win, <<Open>>)
           v == {Value(st, st.tab[r[k]], cs) : k \in 1..Len(r)} \ {NaN}
       IN R(st, IF IsExc(cs) THEN cs ELSE IF r = <<>> THEN <<-98>> ELSE <<IF v = {} THEN NaN ELSE SetMin(v)>>)
    [] OTHER -> R(st, <<-99>>)
Accepts(st, ev, r) == r.res = ev.res \/ r.res = <<-98>>
===========================================================================
