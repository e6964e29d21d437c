----------------------------- MODULE StatsCache -----------------------------
(* Statistics of several meters of several datasets, asked for one after      *)
(* another through a shared cache, under windows that change.                 *)
(*                                                                            *)
(* What a request returns depends on the stored data, the window and the      *)
(* request only: the cache appears in MCStatsCache as the mechanism and is    *)
(* shown there to be invisible.                                               *)
(* Instances above 100 stand for pairs: 102 is (1, 2).                         *)
(* A meter: [b, i, d, tab], tab of rows <<time, active power, reactive power>> *)
EXTENDS Chunking
En == INSTANCE Energy
GS == INSTANCE GoodSections
Dr == INSTANCE Dropout
Cols == <<11, 13>>

Flag(tab) == [k \in 1..Len(tab) |-> <<tab[k][1], 1, 0>>]
Data(tab) == Frame(tab[1][1], tab[Len(tab)][1], FALSE, TRUE)
Clip(win, secs) == SelectSeq([k \in 1..Len(secs) |-> Inter(win, secs[k])], LAMBDA f : ~f.em)

(* the sections a request is about: those asked for, or all the data there is *)
Win(st, m) == st.win[st.meters[m].d]
Wanted(st, m, secs) ==
  IF secs = <<>>
  THEN LET f == Inter(Win(st, m), Data(st.meters[m].tab)) IN
       IF f.em THEN <<>> ELSE Clip(Win(st, m), <<[f EXCEPT !.inc = TRUE]>>)
  ELSE Clip(Win(st, m), secs)

EnergyIn(tab, maxp, ac, secs) ==
  LET one(x) == IF ac \in {0, x} THEN <<x, En!Total(tab, Cols, IF x = 1 THEN 1 ELSE 2, secs, maxp)>> ELSE <<>>
  IN IF \A k \in 1..Len(secs) : Rows(tab, secs[k]) = <<>> THEN <<>> ELSE one(1) \o one(3)
GoodIn(tab, maxp, secs) == GS!Good(Flag(tab), maxp, secs)
DropoutIn(tab, sp, size, secs) == <<Dr!Combined(Dr!Stretches(tab, secs, size), sp)>>

Frames3(a, i) == [k \in 1..((Len(a) - i + 1) \div 3) |->
                   Frame(a[i + 3 * (k - 1)], a[i + 3 * (k - 1) + 1], FALSE, a[i + 3 * (k - 1) + 2] = 1)]

(* begin: maximum sample period, sample period, number of meters, then building,
   instance, dataset, number of rows and the rows of each meter *)
RECURSIVE ParseMeters(_, _, _)
ParseMeters(a, i, n) ==
  IF n = 0 THEN <<>>
  ELSE <<[b |-> a[i], i |-> a[i + 1], d |-> a[i + 2],
          tab |-> [k \in 1..a[i + 3] |-> <<a[i + 1 + 3 * k], a[i + 2 + 3 * k], a[i + 3 + 3 * k]>>]]>>
       \o ParseMeters(a, i + 4 + 3 * a[i + 3], n - 1)
InitSt(a) == IF a = <<>> THEN [maxp |-> 0, sp |-> 0, meters |-> <<>>, win |-> <<Open, Open>>]
             ELSE [maxp |-> a[1], sp |-> a[2], meters |-> ParseMeters(a, 4, a[3]), win |-> <<Open, Open>>]

\* the answer to a request, computed from the stored data
Answer(st, op, a) ==
  LET m == a[1]
      tab == st.meters[m].tab
  IN CASE op = "energy" -> EnergyIn(tab, st.maxp, a[3], Wanted(st, m, Frames3(a, 4)))
       [] op = "good" -> GS!Obs(GoodIn(tab, st.maxp, Wanted(st, m, Frames3(a, 3))))
       [] op = "dropout" ->
            LET w == Wanted(st, m, Frames3(a, 4))
                g == GoodIn(tab, st.maxp, w)
                gf == [k \in 1..Len(g) |-> Frame(g[k][1], g[k][2], FALSE, k = Len(g))]
            IN DropoutIn(tab, st.sp, a[2], IF a[3] = 1 THEN Clip(Win(st, m), gf) ELSE w)
Apply(st, ev) ==
  LET a == ev.a IN
  CASE ev.op \in {"energy", "good", "dropout"} -> R(st, Answer(st, ev.op, a))
    [] ev.op = "clear" -> R(st, <<>>)
    [] ev.op = "window" -> R([st EXCEPT !.win[a[1]] = Frame(a[2], a[3], FALSE, FALSE)], <<>>)
    [] OTHER -> R(st, <<-99>>)
Near(x, y) == Len(x) = 1 /\ Len(y) = 1 /\ x[1] # NaN /\ y[1] >= 0 /\ Abs(x[1] - y[1]) <= 1
Accepts(st, ev, r) == r.res = ev.res \/ (ev.op = "dropout" /\ Near(r.res, ev.res))
===========================================================================
