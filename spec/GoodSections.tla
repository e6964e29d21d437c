--------------------------- MODULE GoodSections ---------------------------
(* Good sections: maximal runs of samples whose gaps do not exceed maxp.    *)
(*                                                                         *)
(* A table is a sequence of rows <<time, ok, 0>>; ok = 0 marks a row with a  *)
(* missing reading, which is no sample.  secs are disjoint bounded frames    *)
(* in time order.                                                           *)
EXTENDS Chunking

None == -424243
Valid(tab, lo, hi) == LET r == [i \in 1..(hi - lo + 1) |-> lo + i - 1]
                          v == SelectSeq(r, LAMBDA i : tab[i][2] = 1)
                      IN [j \in 1..Len(v) |-> tab[v[j]][1]]
\* the first sample stored after row hi, or None
NextSample(tab, hi) == LET v == Valid(tab, hi + 1, Len(tab)) IN IF v = <<>> THEN None ELSE v[1]

(* ------------------ what good sections are ---------------------------- *)
\* split sample times into runs <<first, last>>
RECURSIVE Runs(_, _)
Runs(v, maxp) ==
  IF v = <<>> THEN <<>>
  ELSE LET rest == Runs(Tail(v), maxp) IN
       IF rest # <<>> /\ rest[1][1] - v[1] <= maxp
       THEN <<<<v[1], rest[1][2]>>>> \o Tail(rest)
       ELSE <<<<v[1], v[1]>>>> \o rest

\* close an open run at time t; a lone sample is no section
CloseAt(done, from, t) == IF from = None \/ from = t THEN done ELSE Append(done, <<from, t>>)

\* acc: <<finished runs, start of the open run or None, end of the previous section>>
RECURSIVE Sweep(_, _, _, _, _)
Sweep(tab, maxp, secs, acc, unused) ==
  IF secs = <<>> THEN CloseAt(acc[1], acc[2], acc[3])
  ELSE
    LET f == Head(secs)
        pos == Rows(tab, f)
        v == IF pos = <<>> THEN <<>> ELSE Valid(tab, pos[1], pos[Len(pos)])
        touching == acc[3] # None /\ f.s <= acc[3]
        done0 == IF touching THEN acc[1] ELSE CloseAt(acc[1], acc[2], acc[3])
        open0 == IF touching THEN acc[2] ELSE None
        runs == Runs(v, maxp)
        n == Len(runs)
        start(i) == IF i = 1 /\ open0 # None THEN open0 ELSE runs[i][1]
        nxt == IF pos = <<>> THEN None ELSE NextSample(tab, pos[Len(pos)])
        stays == n > 0 /\ nxt # None /\ nxt - runs[n][2] <= maxp
        closed == IF stays THEN n - 1 ELSE n
        new == SelectSeq([i \in 1..closed |-> <<start(i), runs[i][2]>>], LAMBDA r : r[1] < r[2])
    IN IF v = <<>> THEN Sweep(tab, maxp, Tail(secs), <<done0, open0, f.e>>, 0)
       ELSE Sweep(tab, maxp, Tail(secs), <<done0 \o new, IF stays THEN start(n) ELSE None, f.e>>, 0)
Good(tab, maxp, secs) == Sweep(tab, maxp, secs, <<<<>>, None, None>>, 0)

(* ------------------ how they are computed, chunk by chunk --------------- *)
\* sections of one chunk: <<start or None, end or None>>, given that the previous chunk was left open
ChunkSections(tab, maxp, c, wasOpen) ==
  LET v == IF c.data THEN Valid(tab, c.lo, c.hi) ELSE <<>>
      runs == Runs(v, maxp)
      n == Len(runs)
      nxt == IF c.data THEN NextSample(tab, c.hi) ELSE None
      stays == n > 0 /\ nxt # None /\ nxt - runs[n][2] <= maxp
      sec(i) == <<IF i = 1 /\ wasOpen THEN None ELSE runs[i][1], IF i = n /\ stays THEN None ELSE runs[i][2]>>
  IN IF n = 0 THEN (IF wasOpen THEN <<<<None, None>>>> ELSE <<>>)
     ELSE SelectSeq([i \in 1..n |-> sec(i)], LAMBDA x : x[1] = None \/ x[1] # x[2])

RECURSIVE ByChunk(_, _, _, _, _)
ByChunk(tab, maxp, cs, wasOpen, prevEnd) ==      \* <<chunk start, chunk end, sections>> of every chunk that has some
  IF cs = <<>> THEN <<>>
  ELSE LET c == Head(cs)
           w == wasOpen /\ prevEnd # None /\ c.s <= prevEnd
           ss == ChunkSections(tab, maxp, c, w)
           o == ss # <<>> /\ ss[Len(ss)][2] = None
       IN (IF ss = <<>> THEN <<>> ELSE <<<<c.s, c.e, ss>>>>) \o ByChunk(tab, maxp, Tail(cs), o, c.e)

\* merging of the rows of the result table
RECURSIVE Combine(_, _, _)
Combine(rows, acc, prevEnd) ==
  LET Close(a, t) == IF a # <<>> /\ a[Len(a)][2] = None
                     THEN IF a[Len(a)][1] = t THEN SubSeq(a, 1, Len(a) - 1)
                          ELSE [a EXCEPT ![Len(a)] = <<@[1], t>>]
                     ELSE a
  IN IF rows = <<>> THEN Close(acc, prevEnd)
     ELSE LET r == Head(rows)
              ss == r[3]
              join == prevEnd # None /\ r[1] <= prevEnd /\ ss[1][1] = None
              acc1 == IF join THEN [acc EXCEPT ![Len(acc)] = <<@[1], ss[1][2]>>]
                      ELSE IF prevEnd = None THEN acc ELSE Close(acc, prevEnd)
          IN Combine(Tail(rows), acc1 \o (IF join THEN Tail(ss) ELSE ss), r[2])
GoodChunked(tab, maxp, secs, size) ==
  Combine(ByChunk(tab, maxp, AllChunks(0, tab, Open, secs, size), FALSE, None), <<>>, None)

(* ------------------ state machine interface ---------------------------- *)
\* begin: <<time, ok, 0>> rows;  good: maximum sample period, chunk size, sections (s, e, inc)
ParseTab(a) == [i \in 1..(Len(a) \div 3) |-> <<a[3 * i - 2], a[3 * i - 1], a[3 * i]>>]
Secs(a, i) == [k \in 1..((Len(a) - i + 1) \div 3) |->
                 Frame(a[i + 3 * (k - 1)], a[i + 3 * (k - 1) + 1], FALSE, a[i + 3 * (k - 1) + 2] = 1)]
\* by default: the whole table, last instant included
Whole(tab) == <<Frame(tab[1][1], tab[Len(tab)][1], FALSE, TRUE)>>
TheSecs(tab, a, i) == IF Len(a) < i THEN Whole(tab) ELSE Secs(a, i)
Obs(g) == <<Len(g)>> \o Flat(g)
InitSt(a) == ParseTab(a)
Apply(st, ev) ==
  CASE ev.op \in {"good", "good_again"} -> R(st, Obs(Good(st, ev.a[1], TheSecs(st, ev.a, 3))))
    [] OTHER -> R(st, <<-99>>)
Accepts(st, ev, r) == r.res = ev.res
===========================================================================
