------------------------------- MODULE Load -------------------------------
(* The loader as a machine: a table, a window and an open cursor; every     *)
(* next() delivers one chunk.                                               *)
EXTENDS Chunking

(* ---- observation of a chunk ---- *)
Cells2(row, cols) == CASE cols = 0 -> <<row[1], row[2], row[3]>>
                       [] cols = 1 -> <<row[1], row[2]>>
                       [] cols = 2 -> <<row[1], row[3]>>
                       [] cols = 3 -> <<row[1], row[3], row[2]>>
RowsObs(tab, lo, hi, cols) ==
  <<hi - lo + 1>> \o Flat([i \in 1..(hi - lo + 1) |-> Cells2(tab[lo + i - 1], cols)])
\* the CSV store gives the look-ahead without column names: all columns
ChunkObs(kind, tab, c, cols, la) ==
  IF ~c.data THEN <<0, c.s, c.e>>
  ELSE RowsObs(tab, c.lo, c.hi, cols) \o <<c.s, c.e>>
       \o (IF la = 0 THEN <<>>
           ELSE RowsObs(tab, c.hi + 1, Min2(c.hi + la, Len(tab)), IF kind = 0 THEN cols ELSE 0))

(* ---- state: table, window, open cursor ---- *)
\* arguments of begin: kind of store, then the rows
ParseTab(a) == [i \in 1..(Len(a) \div 3) |-> <<a[3 * i - 2], a[3 * i - 1], a[3 * i]>>]
Secs(a, i) == [k \in 1..((Len(a) - i + 1) \div 3) |->
                 Frame(a[i + 3 * (k - 1)], a[i + 3 * (k - 1) + 1], FALSE, a[i + 3 * (k - 1) + 2] = 1)]
InitSt(a) == [kind |-> IF a = <<>> THEN 0 ELSE a[1],
              tab |-> IF a = <<>> THEN <<>> ELSE ParseTab(Tail(a)), win |-> Open, todo |-> <<>>, cols |-> 0, la |-> 0]

Apply(st, ev) ==
  LET a == ev.a IN
  CASE ev.op = "window" -> R([st EXCEPT !.win = Frame(a[1], a[2], FALSE, FALSE)], <<0>>)
    \* open: chunk size, columns, look-ahead, then the sections (none = the whole table)
    [] ev.op = "open" ->
         LET secs == IF Len(a) = 3 THEN <<Open>> ELSE Secs(a, 4)
         IN R([st EXCEPT !.todo = AllChunks(st.kind, st.tab, st.win, secs, a[1]), !.cols = a[2], !.la = a[3]], <<0>>)
    [] ev.op = "next" ->
         IF st.todo = <<>> THEN R(st, <<-1>>)
         ELSE R([st EXCEPT !.todo = Tail(st.todo)], ChunkObs(st.kind, st.tab, Head(st.todo), st.cols, st.la))
    \* the time frame of the table, seen through the window (tables of two rows or more)
    [] ev.op = "frame" ->
         R(st, SEObs(Inter(st.win, Frame(st.tab[1][1], st.tab[Len(st.tab)][1], FALSE, FALSE))))
    [] ev.op = "missing" -> R(st, KeyErr)
    [] OTHER -> R(st, <<-99>>)

Accepts(st, ev, r) == r.res = ev.res
===========================================================================
