------------------------------ MODULE Estimates ------------------------------
(* Disaggregating the mains of a building into a data store: the estimates of  *)
(* every modelled meter, a copy of the mains and the metadata needed to load   *)
(* the result as a data set again.                                             *)
EXTENDS Chunking
RS == INSTANCE Resample
CO == INSTANCE Disagg
HT == INSTANCE Hart
GS == INSTANCE GoodSections

Big == 100000
OpenV == -98
(* ---- what is read from the mains: one piece per section ---- *)
\* mains: rows <<time, value>>; p: sample period; maxp: longest gap of the mains meter
Piece(st, c, p) == RS!Resampled(SubSeq(st.tab, c.lo, c.hi), 1, p, RS!Limit(st.maxp, p))
RECURSIVE Runs(_, _, _, _)
Runs(st, secs, p, min) ==
  IF secs = <<>> THEN <<>>
  ELSE LET c == SectionChunks(st.tab, Open, Head(secs), Big)[1]
           rows == IF c.data THEN Piece(st, c, p) ELSE <<>>
       IN (IF Len(rows) >= min THEN <<[s |-> c.s, e |-> c.e, rows |-> rows]>> ELSE <<>>)
          \o Runs(st, Tail(secs), p, min)
\* by default: the good sections of the mains (the last one includes its end)
GoodSecs(st) ==
  LET v == SelectSeq(st.tab, LAMBDA r : r[2] # NaN)
      g == SelectSeq(GS!Runs([i \in 1..Len(v) |-> v[i][1]], st.maxp), LAMBDA r : r[1] < r[2])
  IN [i \in 1..Len(g) |-> Frame(g[i][1], g[i][2], FALSE, i = Len(g))]
Rows1(ps) == Flat([k \in 1..Len(ps) |-> ps[k].rows])

(* ---- state ---- *)
\* begin: kind (1 combinatorial, 2 factorial HMM, 3 event detection), maximum sample period,
\*   number of rows, rows, number of models, then per model: instance, appliances (number, types),
\*   states (number, values); kind 3: one state per model, plus threshold and noise level at the end
RECURSIVE ModelsAt(_, _)
ModelsAt(a, n) ==
  IF n = 0 THEN <<>>
  ELSE LET na == a[2] ns == a[3 + na] IN
       <<[inst |-> a[1], apps |-> SubSeq(a, 3, 2 + na), states |-> SubSeq(a, 4 + na, 3 + na + ns)]>>
       \o ModelsAt(SubSeq(a, 4 + na + ns, Len(a)), n - 1)
InitSt(a) ==
  IF a = <<>> THEN [kind |-> 0]
  ELSE LET nr == a[5]
           nm == a[6 + 2 * nr]
       IN [kind |-> a[1], maxp |-> a[2], thr |-> a[3], noise |-> a[4],
           tab |-> [k \in 1..nr |-> <<a[4 + 2 * k], a[5 + 2 * k]>>],
           ms |-> ModelsAt(SubSeq(a, 7 + 2 * nr, Len(a)), nm),
           ps |-> <<>>, p |-> 0, pend |-> <<>>]
ModelSeq(st) == [k \in 1..Len(st.ms) |-> [id |-> st.ms[k].inst, states |-> st.ms[k].states]]

(* ---- the estimates ---- *)
\* one row: any known states if the mains is not known, else a nearest combination
RowOk(st, xs, v) ==
  IF v = NaN /\ st.kind = 2 THEN \A k \in 1..Len(xs) : xs[k] = 777777     \* no estimate
  ELSE IF v = NaN THEN \A k \in 1..Len(xs) : CO!HasState(ModelSeq(st)[k], xs[k])
  ELSE CO!Explains(ModelSeq(st), xs, v)
\* event detection: per piece, from its own transitions
HartSt(st) == [thr |-> st.thr, noise |-> st.noise, cs |-> [k \in 1..Len(st.ms) |-> st.ms[k].states[1]],
               apps |-> [k \in 1..Len(st.ms) |-> k]]
HartPiece(st, pc) == Tail(HT!PredictChunk(HartSt(st), [i \in 1..Len(pc.rows) |-> pc.rows[i][2]]))
HartOk(st, pc, ests) ==       \* ests: per row, one value per model
  LET want == HartPiece(st, pc) n == Len(pc.rows) IN
  \A i \in 1..n : \A k \in 1..Len(st.ms) :
     want[(k - 1) * n + i] = OpenV \/ pc.rows[i][2] = NaN \/ ests[i][k] = want[(k - 1) * n + i]
RECURSIVE HartAll(_, _, _)
HartAll(st, ps, ests) ==
  ps = <<>> \/ LET n == Len(Head(ps).rows) IN
               HartOk(st, Head(ps), SubSeq(ests, 1, n)) /\ HartAll(st, Tail(ps), SubSeq(ests, n + 1, Len(ests)))

(* ---- observations ---- *)
\* of the mains and the estimates: number of rows; per row time, mains, one value per model
EstObs(st) == LET r == Rows1(st.ps) IN <<Len(r)>> \o Flat([i \in 1..Len(r) |-> r[i]])
Split(g, w, n) == [i \in 1..n |-> SubSeq(g, 2 + (i - 1) * w, 1 + i * w)]
EstOk(st, g) ==
  LET r == Rows1(st.ps) n == Len(st.ms) w == 2 + n IN
  /\ Len(g) = 1 + w * Len(r) /\ g[1] = Len(r)
  /\ LET s == Split(g, w, Len(r)) IN
     /\ \A i \in 1..Len(r) : SubSeq(s[i], 1, 2) = r[i]
     /\ IF st.kind = 3 THEN HartAll(st, st.ps, [i \in 1..Len(r) |-> SubSeq(s[i], 3, w)])
        ELSE \A i \in 1..Len(r) : RowOk(st, SubSeq(s[i], 3, w), r[i][2])
\* of the metadata: sample period, first and last instant, then the meters by instance:
\* instance, meter above (0: site meter), number of appliances, their types and instances
Inst(st, k) == IF st.kind = 3 THEN k + 1 ELSE st.ms[k].inst
MeterObs(st, k) == <<Inst(st, k), 1>> \o
   (IF st.kind = 3 THEN <<1, 0, k>>        \* an unknown appliance
    ELSE <<Len(st.ms[k].apps)>> \o Flat([j \in 1..Len(st.ms[k].apps) |-> <<SortedSeq({st.ms[k].apps[x] : x \in 1..Len(st.ms[k].apps)})[j], 1>>]))
ByInst(st) == SortedSeq({Inst(st, k) : k \in 1..Len(st.ms)})
ModelAt(st, i) == CHOOSE k \in 1..Len(st.ms) : Inst(st, k) = ByInst(st)[i]
MetaObs(st) ==
  IF st.ps = <<>> THEN <<>>
  ELSE <<st.p, st.ps[1].s, st.ps[Len(st.ps)].e, 1, 0, 0>> \o
       Flat([i \in 1..Len(st.ms) |-> MeterObs(st, ModelAt(st, i))])

(* ---- learning: each submeter passes through its states in turn ---- *)
Series(st, m) == [i \in 1..Len(st.tab) |-> m.states[((i - 1 + m.inst) % Len(m.states)) + 1]]
Learn1(st, m) == [m EXCEPT !.states = CO!Learnt(Series(st, m))]
Learned(st, k) == Learn1(st, st.ms[k]).states

(* ---- interface ---- *)
\* run: sample period, shortest piece, sections (start, end)
RECURSIVE SecsOf(_)
SecsOf(a) == IF a = <<>> THEN <<>> ELSE <<Frame(a[1], a[2], FALSE, FALSE)>> \o SecsOf(SubSeq(a, 3, Len(a)))
Apply(st, ev) ==
  LET a == ev.a IN
  CASE ev.op = "run" ->
         LET s == [st EXCEPT !.p = a[1], !.ps = Runs(st, IF Len(a) = 2 THEN GoodSecs(st) ELSE SecsOf(SubSeq(a, 3, Len(a))), a[1], a[2])]
         IN R(s, <<B(s.ps # <<>>)>>)
    [] ev.op = "train" -> LET s == [st EXCEPT !.ms = TLCEval([k \in 1..Len(st.ms) |-> [st.ms[k] EXCEPT !.states = Learned(st, k)]])]
                          IN R(s, Flat([i \in 1..Len(st.ms) |-> LET k == ModelAt(st, i) IN
                                          <<st.ms[k].inst, Len(s.ms[k].states)>> \o s.ms[k].states]))
    \* only the first models are there as yet; a further one is learnt
    [] ev.op = "only" -> R([st EXCEPT !.ms = SubSeq(st.ms, 1, a[1]), !.pend = SubSeq(st.ms, a[1] + 1, Len(st.ms))], <<1>>)
    [] ev.op = "more" -> LET x == TLCEval(Learn1(st, Head(st.pend)))
                         IN R([st EXCEPT !.ms = st.ms \o <<x>>, !.pend = Tail(st.pend)], <<x.inst, Len(x.states)>> \o x.states)
    [] ev.op = "estimates" -> R(st, EstObs(st))
    [] ev.op = "metadata" -> R(st, MetaObs(st))
    [] ev.op = "reload" -> R(st, <<1>>)
    [] OTHER -> R(st, <<-99>>)
Accepts(st, ev, r) ==
  IF ev.op = "estimates" /\ ev.res # <<>> /\ ~IsExc(ev.res) THEN EstOk(st, ev.res) ELSE r.res = ev.res
==============================================================================
