--------------------------- MODULE TimeFrames ---------------------------
(* One frame object mutated through its public operations; lists of frames *)
(* are passed to the list operations.                                      *)
EXTENDS Frames

(* ---------------- the transition function ----------------------------- *)
Apply(st, ev) ==
  LET a == ev.a IN
  CASE ev.op = "new" ->
         IF Legal(a[1], a[2]) THEN R(Frame(a[1], a[2], FALSE, FALSE), FObs(Frame(a[1], a[2], FALSE, FALSE)))
         ELSE R(st, ValueErr)
    [] ev.op = "set_start" ->
         IF Legal(a[1], st.e) THEN R([st EXCEPT !.s = a[1]], FObs([st EXCEPT !.s = a[1]]))
         ELSE R(st, ValueErr)
    [] ev.op = "set_end" ->
         IF Legal(st.s, a[1]) THEN R([st EXCEPT !.e = a[1]], FObs([st EXCEPT !.e = a[1]]))
         ELSE R(st, ValueErr)
    [] ev.op = "enable" -> R([st EXCEPT !.on = a[1] = 1], FObs([st EXCEPT !.on = a[1] = 1]))
    [] ev.op = "include_end" -> R([st EXCEPT !.inc = a[1] = 1], FObs([st EXCEPT !.inc = a[1] = 1]))
    [] ev.op = "clear" -> R([Open EXCEPT !.inc = st.inc], SEObs(Open))
    [] ev.op = "inter" ->
         LET r == Inter(st, Arg(a, 1)) IN R(r, FObs(r))
    [] ev.op = "rinter" ->
         LET r == Inter(Arg(a, 1), st) IN R(r, FObs(r))
    \* neither operand of an intersection is changed by it
    [] ev.op = "inter_pure" -> R(st, FObs(st) \o SubSeq(a, 1, 4))
    [] ev.op = "overlap" ->
         IF Inter(st, Arg(a, 1)).em THEN R(st, <<0>>) ELSE R(st, ValueErr)
    [] ev.op = "slice" -> R(st, SortedSeq(Instants(st, {a[i] : i \in 1..Len(a)})))
    [] ev.op = "delta" -> R(st, DeltaObs(st))
    [] ev.op = "truth" -> R(st, <<B(~st.em /\ (S(st) # NegInf \/ E(st) # PosInf))>>)
    [] ev.op = "roundtrip" -> R(st, <<S(st), E(st)>>)
    [] ev.op = "copy" -> R(st, FObs(st))
    [] ev.op = "eq" ->
         LET g == Arg(a, 1) IN R(st, <<B(S(st) = S(g) /\ E(st) = E(g) /\ st.em = g.em)>>)
    [] ev.op = "union" -> LET r == Hull(st, Arg(a, 1)) IN R(r, SEObs(r))
    [] ev.op = "adjacent" -> R(st, <<B(Adjacent(st, Arg(a, 1), a[5]))>>)
    [] ev.op = "split" ->
         IF Bounded(st)
         THEN LET p == Pieces(S(st), E(st), a[1]) IN R(st, <<Len(p)>> \o Flat(p))
         ELSE R(st, ValueErr)
    \* merge: gap, then n frames
    [] ev.op = "merge" ->
         LET m == Merge(Args2(a, 2, (Len(a) - 1) \div 2), a[1])
         IN R(st, <<Len(m)>> \o Flat([i \in 1..Len(m) |-> <<m[i].s, m[i].e>>]))
    \* split_all: duration, then n frames
    [] ev.op = "split_all" ->
         LET fs == Args2(a, 2, (Len(a) - 1) \div 2)
             p == Flat([i \in 1..Len(fs) |-> Pieces(fs[i].s, fs[i].e, a[1])])
         IN R(st, <<Len(p)>> \o Flat(p))
    \* ginter: number of frames in the first group, then the frames of both
    [] ev.op = "ginter" ->
         LET n == a[1]
             m == ((Len(a) - 1) \div 2) - n
             p == PairInter(Args2(a, 2, n), Args2(a, 2 + 2 * n, m))
         IN R(st, <<Len(p)>> \o Flat([i \in 1..Len(p) |-> <<p[i].s, p[i].e>>]))
    \* in the order of their starts (an open start comes first; frames with the
    \* same start are compared in the order of their ends)
    [] ev.op = "order" ->
         LET fs == Args2(a, 1, Len(a) \div 2)
             before(f, g) == f.s < g.s \/ (f.s = g.s /\ f.e <= g.e)
             o == SortSeq(fs, before)
         IN R(st, <<Len(fs)>> \o Flat([i \in 1..Len(o) |-> <<o[i].s, o[i].e>>]))
    \* periods of equal length: start, length, number
    [] ev.op = "periods" -> R(st, <<a[3]>> \o Flat([i \in 1..a[3] |-> <<a[1] + (i - 1) * a[2], a[1] + i * a[2]>>]))
    [] ev.op = "uptime" ->
         LET fs == Args2(a, 1, Len(a) \div 2)
         IN R(st, <<SumSeq([i \in 1..Len(fs) |-> Delta(fs[i])])>>)
    \* remove_short: threshold, then n frames
    [] ev.op = "remove_short" ->
         LET k == SelectSeq(Args2(a, 2, (Len(a) - 1) \div 2), LAMBDA f : Delta(f) >= a[1])
         IN R(st, <<Len(k)>> \o Flat([i \in 1..Len(k) |-> <<k[i].s, k[i].e>>]))
    [] OTHER -> R(st, <<-99>>)

InitSt(a) == Open
Accepts(st, ev, r) == r.res = ev.res
==========================================================================
