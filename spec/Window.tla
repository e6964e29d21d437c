------------------------------- MODULE Window -------------------------------
(* Datasets with a window: whatever is loaded or computed through a dataset    *)
(* concerns the stored readings inside its current window.                     *)
(* A meter: [d, b, i, tab], tab of rows <<time, power>>; meter 1 of each       *)
(* building is its site meter.                                                 *)
EXTENDS Chunking
En == INSTANCE Energy
GS == INSTANCE GoodSections
None == 777

Eff(w) == IF w.on THEN w.f ELSE Open
Flag(tab) == [k \in 1..Len(tab) |-> <<tab[k][1], 1, 0>>]
Data(tab) == Frame(tab[1][1], tab[Len(tab)][1], FALSE, TRUE)
\* the data of a meter seen through the window
Seen(st, m) == Inter(Eff(st.win[m.d]), Data(m.tab))
\* what statistics are about: the same, with its last instant
Sections(st, m) == LET f == Seen(st, m) IN IF f.em THEN <<>> ELSE <<[f EXCEPT !.inc = TRUE]>>
GoodOf(st, m) == GS!Good(Flag(m.tab), st.maxp, Sections(st, m))
MetersOf(st, d, b) == SelectSeq(st.meters, LAMBDA m : m.d = d /\ m.b = b)
HullOf(fs) == LET g == SelectSeq(fs, LAMBDA f : ~f.em) IN
              IF g = <<>> THEN Void
              ELSE Frame(SetMin({g[k].s : k \in 1..Len(g)}), SetMax({g[k].e : k \in 1..Len(g)}), FALSE, FALSE)

(* ---- where to split the recordings of a building for training ---- *)
\* in units of 1/den: the instant before which num/den of the good time lies
RECURSIVE SplitAt(_, _, _)
SplitAt(good, left, den) ==
  LET g == good[1] len == (g[2] - g[1]) * den IN
  IF left > len THEN SplitAt(Tail(good), left - len, den)
  ELSE IF left = len THEN good[2][1] * den
  ELSE g[1] * den + left
GoodTime(good) == SumSeq([k \in 1..Len(good) |-> good[k][2] - good[k][1]])

(* ---- interface ---- *)
\* begin: maximum sample period, number of meters, then dataset, building, instance, number of rows, rows
RECURSIVE Parse(_, _)
Parse(a, n) == IF n = 0 THEN <<>>
               ELSE <<[d |-> a[1], b |-> a[2], i |-> a[3], tab |-> [k \in 1..a[4] |-> <<a[3 + 2 * k], a[4 + 2 * k]>>]]>>
                    \o Parse(SubSeq(a, 5 + 2 * a[4], Len(a)), n - 1)
NoWin == [f |-> Open, on |-> TRUE]
InitSt(a) == IF a = <<>> THEN <<>>
             ELSE [maxp |-> a[1], meters |-> Parse(SubSeq(a, 3, Len(a)), a[2]), win |-> <<NoWin, NoWin>>]
Frames3(a, i) == [k \in 1..((Len(a) - i + 1) \div 3) |->
                   Frame(a[i + 3 * (k - 1)], a[i + 3 * (k - 1) + 1], FALSE, a[i + 3 * (k - 1) + 2] = 1)]
InWin(st, m, f) == LET r == Rows(m.tab, Inter(Eff(st.win[m.d]), f)) IN <<Len(r)>> \o Flat([k \in 1..Len(r) |-> m.tab[r[k]]])
Apply(st, ev) ==
  LET a == ev.a IN
  CASE ev.op = "set" ->
         IF a[2] >= a[3] THEN R(st, ValueErr)
         ELSE R([st EXCEPT !.win[a[1]] = [f |-> Frame(a[2], a[3], FALSE, FALSE), on |-> TRUE]], <<0>>)
    [] ev.op = "bad" -> R(st, ValueErr)
    [] ev.op = "enable" -> R([st EXCEPT !.win[a[1]].on = (a[2] = 1)], <<0>>)
    [] ev.op = "reopen" -> R([st EXCEPT !.win[a[1]] = NoWin], <<0>>)
    [] ev.op = "load" ->
         LET m == st.meters[a[1]] secs == IF Len(a) < 2 THEN <<Open>> ELSE Frames3(a, 2)
         IN R(st, Flat([k \in 1..Len(secs) |-> InWin(st, m, secs[k])]))
    [] ev.op = "frame" -> R(st, SEObs(Seen(st, st.meters[a[1]])))
    [] ev.op = "group" -> LET ms == MetersOf(st, a[1], a[2]) IN R(st, SEObs(HullOf([k \in 1..Len(ms) |-> Seen(st, ms[k])])))
    [] ev.op = "energy" ->
         LET m == st.meters[a[1]] s == Sections(st, m)
         IN R(st, IF s = <<>> \/ Rows(m.tab, s[1]) = <<>> THEN <<>> ELSE <<En!Total(m.tab, <<11>>, 1, s, st.maxp)>>)
    [] ev.op = "good" -> R(st, GS!Obs(GoodOf(st, st.meters[a[1]])))
    \* split: dataset, building, fraction
    [] ev.op = "split" ->
         LET m == SelectSeq(MetersOf(st, a[1], a[2]), LAMBDA x : x.i = 1)[1]
             g == GoodOf(st, m)
         IN R(st, IF g = <<>> THEN <<-98>> ELSE <<SplitAt(g, GoodTime(g) * a[3], a[4])>>)
    [] OTHER -> R(st, <<-99>>)
\* an unreadable bound, a data set never opened or of an unknown time zone is refused, however that is put
Accepts(st, ev, r) == (ev.op = "bad" /\ IsExc(ev.res)) \/ (r.res = ev.res \/ r.res = <<-98>>)
===========================================================================
