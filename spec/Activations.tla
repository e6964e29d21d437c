---------------------------- MODULE Activations ----------------------------
(* When is an appliance on: activations, on/off, switching and base load of a  *)
(* power series.  The series is a sequence of <<time, watts>> rows.            *)
EXTENDS Chunking
RS == INSTANCE Resample

T(s, i) == s[i][1]
On(s, i, thr) == s[i][2] # NaN /\ s[i][2] >= thr
\* complete runs: <<first reading that is on, first reading that is off again>>
Runs(s, thr) ==
  LET starts == SortedSeq({i \in 2..Len(s) : On(s, i, thr) /\ ~On(s, i - 1, thr)})
      ends(i) == {j \in (i + 1)..Len(s) : ~On(s, j, thr)}
      done == SelectSeq(starts, LAMBDA i : ends(i) # {})
  IN [k \in 1..Len(done) |-> <<done[k], SetMin(ends(done[k]))>>]
RECURSIVE Bridge(_, _, _)
Bridge(s, runs, minoff) ==
  IF Len(runs) < 2 THEN runs
  ELSE LET a == runs[1] b == runs[2] IN
       IF T(s, b[1]) - T(s, a[2]) < minoff
       THEN Bridge(s, <<<<a[1], b[2]>>>> \o SubSeq(runs, 3, Len(runs)), minoff)
       ELSE <<a>> \o Bridge(s, Tail(runs), minoff)
Long(s, runs, minon) == SelectSeq(runs, LAMBDA r : T(s, r[2]) - T(s, r[1]) >= minon)
\* the rows of an activation: the run, the reading before it and the border on either side
Rows_(s, r, border) == SubSeq(s, Max2(1, r[1] - 1 - border), Min2(Len(s), r[2] - 1 + border))
Whole(s, r, border) == LET x == Rows_(s, r, border) IN \A i \in 1..Len(x) : x[i][2] # NaN
Activations(s, thr, minoff, minon, border) ==
  LET rs == SelectSeq(Long(s, Bridge(s, Runs(s, thr), minoff), minon), LAMBDA r : Whole(s, r, border))
  IN [k \in 1..Len(rs) |-> Rows_(s, rs[k], border)]
ActObs(s, thr, minoff, minon, border) ==
  LET x == Activations(s, thr, minoff, minon, border)
  IN <<Len(x)>> \o Flat([k \in 1..Len(x) |-> <<Len(x[k])>> \o Flat(x[k])])

\* the script of a data set: when activations start (1) and end (0), in order
Script(acts) == LET n == Len(acts)
                    o == SortedSeq({2 * acts[k][1][1] + 1 : k \in 1..n} \cup {2 * acts[k][Len(acts[k])][1] : k \in 1..n})
                IN Flat([k \in 1..Len(o) |-> <<(o[k] - (o[k] % 2)) \div 2, o[k] % 2>>])

(* ---- what is known about appliance types (times in units of the clock) ---- *)
TypeThr(t) == CASE t = 1 -> 50 [] t = 2 -> 20 [] OTHER -> 10
TypeMinOn(t) == CASE t = 2 -> 2 [] t = 3 -> 1 [] OTHER -> 0
TypeMinOff(t) == CASE t = 2 -> 3 [] t = 4 -> 2 [] OTHER -> 0
None == 777
MeterThr(apps) == IF apps = <<>> THEN 10
                  ELSE SetMin({IF apps[k][2] = None THEN TypeThr(apps[k][1]) ELSE apps[k][2] : k \in 1..Len(apps)})
MeterMinOn(apps) == SetMax({0} \cup {TypeMinOn(apps[k][1]) : k \in 1..Len(apps)})
MeterMinOff(apps) == SetMax({0} \cup {TypeMinOff(apps[k][1]) : k \in 1..Len(apps)})

(* ---- interface ---- *)
\* begin: sample period, maximum sample period, number of appliances, (type, own threshold)..., rows
InitSt(a) == IF a = <<>> THEN <<>>
             ELSE LET n == a[3] o == 3 + 2 * n IN
                  [sp |-> a[1], maxp |-> a[2], apps |-> [k \in 1..n |-> <<a[2 + 2 * k], a[3 + 2 * k]>>],
                   s |-> [i \in 1..((Len(a) - o) \div 2) |-> <<a[o + 2 * i - 1], a[o + 2 * i]>>]]
Or(x, y) == IF x = None THEN y ELSE x
Loaded(st) == RS!Resampled(st.s, 1, st.sp, RS!Limit(st.maxp, st.sp))
Switches(s, thr) == SelectSeq([i \in 1..Len(s) |-> i],
                      LAMBDA i : i > 1 /\ s[i][2] # NaN /\ s[i - 1][2] # NaN /\ Abs(s[i][2] - s[i - 1][2]) > thr)
Apply(st, ev) ==
  LET a == ev.a s == st.s IN
  CASE ev.op = "activations" -> R(st, ActObs(s, a[1], a[2], a[3], a[4]))
    [] ev.op = "meter" -> R(st, ActObs(Loaded(st), Or(a[1], MeterThr(st.apps)), Or(a[2], MeterMinOff(st.apps)),
                                       Or(a[3], MeterMinOn(st.apps)), a[4]))
    [] ev.op = "script" -> R(st, Script(Activations(Loaded(st), MeterThr(st.apps), MeterMinOff(st.apps),
                                                    MeterMinOn(st.apps), 1)))
    [] ev.op = "when_on" -> R(st, Flat([i \in 1..Len(s) |-> <<T(s, i), B(On(s, i, Or(a[1], MeterThr(st.apps))))>>]))
    [] ev.op = "switch" -> LET w == Switches(s, a[1]) IN R(st, [k \in 1..Len(w) |-> T(s, w[k])])
    [] ev.op = "base" -> LET v == {s[i][2] : i \in 1..Len(s)} \ {NaN} IN R(st, <<IF v = {} THEN NaN ELSE SetMin(v)>>)
    [] ev.op = "defaults" -> R(st, <<MeterThr(st.apps), MeterMinOn(st.apps), MeterMinOff(st.apps)>>)
    [] OTHER -> R(st, <<-99>>)
Accepts(st, ev, r) == r.res = ev.res
===========================================================================
