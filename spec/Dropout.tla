------------------------------ MODULE Dropout ------------------------------
(* Dropout rate: the proportion of the expected samples that are missing.    *)
(* Rates are in units of 1/100000, rounded down.  A sample is a stored row,  *)
(* with or without a reading.                                                *)
EXTENDS Chunking
GS == INSTANCE GoodSections

Unit == 100000
MinSamples == 5
\* round half to even
RoundDiv(a, b) == LET q == a \div b r == a % b
                  IN IF 2 * r < b THEN q ELSE IF 2 * r > b THEN q + 1 ELSE IF q % 2 = 0 THEN q ELSE q + 1
Expected(dur, sp) == RoundDiv(dur, sp) + 1
Lost(n, dur, sp) == LET e == Expected(dur, sp) IN IF n >= e THEN 0 ELSE e - n

\* a stretch: <<number of samples, duration>>; its rate, or NaN
Rate(s, sp) == IF s[1] < MinSamples THEN NaN
               ELSE (Lost(s[1], s[2], sp) * Unit) \div Expected(s[2], sp)
Weighted(s, sp) == (s[1] * Lost(s[1], s[2], sp) * Unit) \div Expected(s[2], sp)
Combined(ss, sp) ==
  LET d == SelectSeq(ss, LAMBDA s : s[1] >= MinSamples)
      n == SumSeq([i \in 1..Len(d) |-> d[i][1]])
  IN IF d = <<>> THEN NaN ELSE SumSeq([i \in 1..Len(d) |-> Weighted(d[i], sp)]) \div n

Stretch(tab, c) == IF c.data THEN <<c.hi - c.lo + 1, tab[c.hi][1] - tab[c.lo][1]>> ELSE <<0, 0>>
Stretches(tab, secs, size) == LET cs == AllChunks(0, tab, Open, secs, size)
                              IN [i \in 1..Len(cs) |-> Stretch(tab, cs[i])]

\* the good sections, the last instant included in the last one only
GoodFrames(tab, maxp, secs) ==
  LET g == GS!Good(tab, maxp, secs) IN [i \in 1..Len(g) |-> Frame(g[i][1], g[i][2], FALSE, i = Len(g))]

(* ---- interface: begin as in GoodSections (a table of <<time, ok, 0>> rows) ---- *)
InitSt(a) == GS!InitSt(a)
Apply(st, ev) ==
  LET a == ev.a IN
  \* rate: sample period, of the whole table
  CASE ev.op = "rate" -> R(st, <<Rate(<<Len(st), st[Len(st)][1] - st[1][1]>>, a[1])>>)
    \* dropout: sample period, maximum sample period, chunk size, ignore gaps?, sections
    \* full: the same from the results object
    [] ev.op \in {"dropout", "full"} ->
         LET secs == GS!TheSecs(st, a, 5)
             use == IF a[4] = 1 THEN GoodFrames(st, a[2], secs) ELSE secs
         IN R(st, <<Combined(Stretches(st, use, a[3]), a[1])>>)
    [] OTHER -> R(st, <<-99>>)
Accepts(st, ev, r) == \/ r.res = ev.res
                      \/ /\ Len(r.res) = 1 /\ Len(ev.res) = 1
                         /\ r.res[1] # NaN /\ ev.res[1] >= 0 /\ Abs(r.res[1] - ev.res[1]) <= 1
===========================================================================
