----------------------------- MODULE MeanModel ------------------------------
(* The mean model: per appliance the sum and number of its training readings   *)
(* (quarter watts), fed piece by piece, saved to and loaded from folders.      *)
EXTENDS Codes
Slots == 1..2
\* m: sequence of [id, s, n] in order of first training; disk: folder -> saved model or <<>>; auto: folder or 0
New(auto, m) == [m |-> m, auto |-> auto]
InitSt(a) == [disk |-> [k \in Slots |-> <<>>], saved |-> [k \in Slots |-> FALSE], m |-> <<>>, auto |-> 0]
Real(vals) == SelectSeq(vals, LAMBDA v : v # NaN)
Learn(m, id, vals) ==
  LET r == Real(vals) known == {k \in 1..Len(m) : m[k].id = id} IN
  IF known = {} THEN Append(m, [id |-> id, s |-> SumSeq(r), n |-> Len(r)])
  ELSE [m EXCEPT ![SetMin(known)] = [id |-> id, s |-> @.s + SumSeq(r), n |-> @.n + Len(r)]]
RECURSIVE Fit(_, _)
Fit(m, a) == IF a = <<>> THEN m
             ELSE Fit(Learn(m, a[1], SubSeq(a, 3, 2 + a[2])), SubSeq(a, 3 + a[2], Len(a)))
\* thousandths of a watt, rounded down
Mean(x) == (x.s * 250) \div x.n
Undefined(m) == m = <<>> \/ \E k \in 1..Len(m) : m[k].n = 0
Predict(m, lens) == Flat([c \in 1..Len(lens) |-> <<lens[c], Len(m)>> \o
                       Flat([k \in 1..Len(m) |-> <<m[k].id>> \o (IF lens[c] = 0 THEN <<>> ELSE <<Mean(m[k])>>)])])
Write(st, k) == [st EXCEPT !.disk[k] = st.m, !.saved[k] = TRUE]
Apply(st, ev) ==
  LET a == ev.a IN
  CASE ev.op = "fit" -> LET s == [st EXCEPT !.m = Fit(@, a)]
                        IN R(IF st.auto = 0 THEN s ELSE Write(s, st.auto), <<0>>)
    [] ev.op = "predict" -> R(st, IF Undefined(st.m) THEN <<-98>> ELSE Predict(st.m, a))
    [] ev.op = "save" -> R(Write(st, a[1]), <<0>>)
    [] ev.op = "load" -> IF st.saved[a[1]] THEN R([st EXCEPT !.m = st.disk[a[1]]], <<0>>) ELSE R(st, OtherErr)
    \* a new model: pretrained from a folder (or 0), saving itself to a folder after training (or 0)
    [] ev.op = "new" -> IF a[1] = 0 THEN R([st EXCEPT !.m = <<>>, !.auto = a[2]], <<0>>)
                        ELSE IF st.saved[a[1]] THEN R([st EXCEPT !.m = st.disk[a[1]], !.auto = a[2]], <<0>>)
                        ELSE R(st, OtherErr)
    [] OTHER -> R(st, <<-99>>)
Close(exp, got) == Len(exp) = Len(got) /\ \A i \in 1..Len(exp) : exp[i] = got[i] \/ (got[i] \in {exp[i] - 1, exp[i] + 1})
Accepts(st, ev, r) == r.res = ev.res \/ r.res = <<-98>> \/ (ev.op = "predict" /\ Close(r.res, ev.res))
=============================================================================
