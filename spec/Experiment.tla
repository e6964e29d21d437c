---------------------------- MODULE Experiment -----------------------------
(* Experiments: what every algorithm is given to train on and to predict      *)
(* from, and what its predictions are compared with.                          *)
(* A meter: [d, b, role, cols, tab]; role 0 is a site meter, role k measures  *)
(* appliance k.  A series is a sequence of rows <<time, value>>.              *)
EXTENDS Chunking
RS == INSTANCE Resample
GL == INSTANCE GroupLoad
MX == INSTANCE Metrics
Whole == 100000
Single == -1

(* ---------------- loading ---------------- *)
Of(st, d, b, role) == SelectSeq(st.meters, LAMBDA m : m.d = d /\ m.b = b /\ m.role = role)
\* of the columns asked for, the first that the meter has
Pick(m, acs) == LET j == SetMin({j \in 1..Len(acs) : \E i \in 1..Len(m.cols) : m.cols[i] % 10 = acs[j]})
                IN CHOOSE i \in 1..Len(m.cols) : m.cols[i] % 10 = acs[j]
Series(m, lo, hi, st, cfg, acs) ==
  LET j == Pick(m, acs)
      r == TLCEval(RS!Resampled([i \in 1..(hi - lo + 1) |-> <<m.tab[lo + i - 1][1], m.tab[lo + i - 1][1 + j]>>], 1, cfg.p, RS!Limit(st.maxp, cfg.p)))
  IN TLCEval([k \in 1..Len(r) |-> <<r[k][1], r[k][2]>>])
During(m, f, st, cfg, acs) ==
  LET r == Rows(m.tab, f) IN IF r = <<>> THEN <<>> ELSE Series(m, r[1], r[Len(r)], st, cfg, acs)
\* the mains in pieces of at most size rows
MainsPieces(st, d, b, w, cfg, size) ==
  LET ms == Of(st, d, b, 0) IN
  IF Len(ms) = 1
  THEN LET cs == SectionChunks(ms[1].tab, w, Open, size) IN
       [k \in 1..Len(cs) |-> IF cs[k].data THEN Series(ms[1], cs[k].lo, cs[k].hi, st, cfg, cfg.acm) ELSE <<>>]
  ELSE LET gm == [k \in 1..Len(ms) |-> [sp |-> 1, maxp |-> st.maxp, cols |-> <<ms[k].cols[Pick(ms[k], cfg.acm)]>>,
                                        tab |-> [i \in 1..Len(ms[k].tab) |-> <<ms[k].tab[i][1], ms[k].tab[i][1 + Pick(ms[k], cfg.acm)]>>]]]
           seen(k) == Inter(w, Frame(gm[k].tab[1][1], gm[k].tab[Len(gm[k].tab)][1], FALSE, TRUE))
           vis == {k \in 1..Len(gm) : ~seen(k).em}
           f == Frame(SetMin({seen(k).s : k \in vis}), SetMax({seen(k).e : k \in vis}), FALSE, FALSE)
           ps == IF vis = {} THEN <<>> ELSE GL!Stretches(f, cfg.p, size)
           cut == [k \in 1..Len(gm) |-> [gm[k] EXCEPT !.tab = LET r == Rows(@, w) IN [i \in 1..Len(r) |-> gm[k].tab[r[i]]]]]
       IN TLCEval([k \in 1..Len(ps) |-> GL!Steps(cut, ps[k], cfg.p, gm[1].cols)])
\* complete samples only
Clean(s) == SelectSeq(s, LAMBDA r : r[2] # NaN)
TimesOf(s) == {s[i][1] : i \in 1..Len(s)}
Common(ss) == {t \in TimesOf(Clean(ss[1])) : \A k \in 1..Len(ss) : t \in TimesOf(Clean(ss[k]))}
Keep(s, ts) == SelectSeq(Clean(s), LAMBDA r : r[1] \in ts)
Prepare(cfg, mains, apps) ==
  LET ts == Common(<<mains>> \o apps)
      m1 == IF cfg.drop THEN Keep(mains, ts) ELSE mains
      a1 == IF cfg.drop THEN [k \in 1..Len(apps) |-> Keep(apps[k], ts)] ELSE apps
      sum(i) == <<a1[1][i][1], SumSeq([k \in 1..Len(a1) |-> a1[k][i][2]])>>
  IN TLCEval([mains |-> IF cfg.art THEN [i \in 1..Len(a1[1]) |-> sum(i)] ELSE m1, apps |-> a1])
Win(x) == Frame(x[3], x[4], FALSE, FALSE)
\* everything of one place of the plan: a sequence of pieces [mains, apps]
Pieces_(st, cfg, x, size) ==
  LET ps == TLCEval(MainsPieces(st, x[1], x[2], Win(x), cfg, size))
      app(k, m) == LET mt == Of(st, x[1], x[2], cfg.apps[k])[1] IN
                   IF size = Whole THEN During(mt, Win(x), st, cfg, cfg.aca)
                   ELSE IF m = <<>> THEN <<>>
                   ELSE During(mt, Inter(Win(x), Frame(m[1][1], m[Len(m)][1] + cfg.p, FALSE, FALSE)), st, cfg, cfg.aca)
  IN TLCEval([i \in 1..Len(ps) |-> Prepare(cfg, ps[i], TLCEval([k \in 1..Len(cfg.apps) |-> app(k, ps[i])]))])
Joint(st, cfg, x) == LET p == Pieces_(st, cfg, x, Whole)[1] IN
                     IF cfg.site THEN [mains |-> LET m == MainsPieces(st, x[1], x[2], Win(x), cfg, Whole)[1]
                                                 IN IF cfg.drop THEN Clean(m) ELSE m, apps |-> <<>>]
                     ELSE p
\* what a joint experiment needs: readings of every meter in every window
Loadable(st, cfg) ==
  \A x \in {cfg.train[i] : i \in 1..Len(cfg.train)} \cup {cfg.test[i] : i \in 1..Len(cfg.test)} :
    LET p == MainsPieces(st, x[1], x[2], Win(x), cfg, Whole) IN
    /\ p # <<>> /\ p[1] # <<>>
    /\ \A k \in 1..Len(cfg.apps) : Rows(Of(st, x[1], x[2], cfg.apps[k])[1].tab, Win(x)) # <<>>

(* ---------------- the course of an experiment ---------------- *)
TrainOf(st, cfg, j) ==
  LET alg == cfg.algs[j]
      one(p, ep) == [kind |-> 1, alg |-> j, ep |-> ep, mains |-> <<p.mains>>, apps |-> [k \in 1..Len(p.apps) |-> <<p.apps[k]>>]]
      pass(ep) == Flat([i \in 1..Len(cfg.train) |->
                    LET ps == Pieces_(st, cfg, cfg.train[i], cfg.size) IN [k \in 1..Len(ps) |-> one(ps[k], ep)]])
      js == [i \in 1..Len(cfg.train) |-> Pieces_(st, cfg, cfg.train[i], Whole)[1]]
  IN IF alg.pre THEN <<>>
     ELSE IF cfg.size > 0 /\ alg.cw THEN Flat([e \in 1..Max2(1, alg.n) |-> pass(e - 1)])
     ELSE << [kind |-> 1, alg |-> j, ep |-> Single, mains |-> [i \in 1..Len(js) |-> js[i].mains],
              apps |-> [k \in 1..Len(cfg.apps) |-> [i \in 1..Len(js) |-> js[i].apps[k]]]] >>
Algs(cfg) == [j \in 1..Len(cfg.algs) |-> j]
Trainings(st, cfg) == Flat([j \in 1..Len(cfg.algs) |-> TrainOf(st, cfg, j)])
\* test pieces in order: [key, mains, apps]
Tests(st, cfg) ==
  Flat([i \in 1..Len(cfg.test) |->
    LET x == cfg.test[i] IN
    IF cfg.size = 0 THEN LET p == Joint(st, cfg, x) IN << [key |-> <<x[1], x[2], Single>>, mains |-> p.mains, apps |-> p.apps] >>
    ELSE LET ps == Pieces_(st, cfg, x, cfg.size) IN
         [k \in 1..Len(ps) |-> [key |-> <<x[1], x[2], k - 1>>, mains |-> ps[k].mains, apps |-> ps[k].apps]]])
Predictions(st, cfg) ==
  LET ts == Tests(st, cfg) IN
  Flat([i \in 1..Len(ts) |-> [j \in 1..Len(cfg.algs) |->
         [kind |-> 2, alg |-> j, ep |-> Single, mains |-> <<ts[i].mains>>, apps |-> <<>>]]])
Log(st, cfg) == TLCEval(Trainings(st, cfg) \o Predictions(st, cfg))

(* ---------------- comparing ---------------- *)
\* what algorithm j says about appliance a when the mains read v
Says(j, a, v) == (((IF v = NaN THEN 0 ELSE v) \div 12) * a + 7 * j) % 50
Vals(s) == [i \in 1..Len(s) |-> s[i][2]]
PredAt(mains, t, j, a) == LET r == SelectSeq(mains, LAMBDA x : x[1] = t) IN IF r = <<>> THEN NaN ELSE Says(j, a, r[1][2])
TruthAt(s, t) == LET r == SelectSeq(s, LAMBDA x : x[1] = t) IN IF r = <<>> THEN NaN ELSE r[1][2]
Instants_(test) == SortedSeq(UNION {TimesOf(test.apps[k]) : k \in 1..Len(test.apps)})
Judged(cfg, test) == Instants_(test) # <<>>
Errors(st, cfg) ==
  IF cfg.site THEN <<>>
  ELSE LET ts == Tests(st, cfg) IN
       Flat([i \in 1..Len(ts) |->
         LET t == ts[i] IN
         IF Judged(cfg, t) THEN [k \in 1..Len(cfg.metrics) |-> [key |-> t.key, m |-> cfg.metrics[k], test |-> t]] ELSE <<>>])
MNames == <<"mae", "rmse", "f1", "rel", "nde", "nep", "r2">>
\* r: one value per appliance and algorithm
ErrOK(cfg, e, r) ==
  LET na == Len(cfg.apps) nj == Len(cfg.algs) IN
  /\ Len(r) = na * nj
  /\ \A a \in 1..na, j \in 1..nj :
       LET g == Vals(e.test.apps[a])
           p == [i \in 1..Len(e.test.mains) |-> Says(j, cfg.apps[a], e.test.mains[i][2])]
           v == r[(a - 1) * nj + j] IN
       /\ Len(g) = Len(p)
       /\ MX!LossOK(MNames[e.m], g, p, v)

(* ---------------- interface ---------------- *)
\* begin: maximum sample period, number of meters, then per meter: dataset, building, role, number of columns,
\*        columns, number of rows, rows
RECURSIVE Parse(_, _)
Parse(a, n) == IF n = 0 THEN <<>>
               ELSE LET nc == a[4] nr == a[5 + nc] off == 5 + nc IN
                    <<[d |-> a[1], b |-> a[2], role |-> a[3], cols |-> SubSeq(a, 5, 4 + nc),
                       tab |-> [i \in 1..nr |-> [k \in 1..(nc + 1) |-> a[off + (i - 1) * (nc + 1) + k]]]]>>
                    \o Parse(SubSeq(a, off + nr * (nc + 1) + 1, Len(a)), n - 1)
None_ == [apps |-> <<>>]
InitSt(a) == IF a = <<>> THEN [maxp |-> 1, meters |-> <<>>, cfg |-> None_, log |-> <<>>, errs |-> <<>>]
             ELSE [maxp |-> a[1], meters |-> Parse(SubSeq(a, 3, Len(a)), a[2]), cfg |-> None_, log |-> <<>>, errs |-> <<>>]
\* a length-prefixed list of items of n integers starting at i
List(a, i, n) == [k \in 1..a[i] |-> SubSeq(a, i + 1 + n * (k - 1), i + n * k)]
Ints(a, i) == SubSeq(a, i + 1, i + a[i])
\* config: period, chunk size, drop, artificial, site only, then lists: algorithms (3), mains AC types,
\*         appliance AC types, appliances, training places (4), test places (4), metrics
Config(a) ==
  LET i1 == 6             i2 == i1 + 1 + 3 * a[i1]
      i3 == i2 + 1 + a[i2] i4 == i3 + 1 + a[i3]
      i5 == i4 + 1 + a[i4] i6 == i5 + 1 + 4 * a[i5]
      i7 == i6 + 1 + 4 * a[i6]
      al == List(a, i1, 3)
  IN [p |-> a[1], size |-> a[2], drop |-> a[3] = 1, art |-> a[4] = 1, site |-> a[5] = 1,
      algs |-> [k \in 1..Len(al) |-> [cw |-> al[k][1] = 1, n |-> al[k][2], pre |-> al[k][3] = 1]],
      acm |-> Ints(a, i2), aca |-> Ints(a, i3), apps |-> Ints(a, i4),
      train |-> List(a, i5, 4), test |-> List(a, i6, 4), metrics |-> Ints(a, i7)]
SerObs(s) == <<Len(s)>> \o Flat(s)
EntryObs(e) == <<e.kind, e.alg, e.ep, Len(e.mains)>> \o Flat([i \in 1..Len(e.mains) |-> SerObs(e.mains[i])])
               \o <<Len(e.apps)>> \o Flat([k \in 1..Len(e.apps) |-> <<Len(e.apps[k])>> \o
                     Flat([i \in 1..Len(e.apps[k]) |-> SerObs(e.apps[k][i])])])
LastObs(st, cfg) ==
  LET ts == Tests(st, cfg) t == ts[Len(ts)] is == Instants_(t) IN
  <<Len(is)>> \o Flat([i \in 1..Len(is) |-> <<is[i]>> \o
     Flat([k \in 1..Len(cfg.apps) |-> <<TruthAt(t.apps[k], is[i])>> \o
        [j \in 1..Len(cfg.algs) |-> PredAt(t.mains, is[i], j, cfg.apps[k])]])])
Apply(st, ev) ==
  LET a == ev.a cfg == st.cfg IN
  CASE ev.op = "run" ->
         LET c == TLCEval(Config(a)) IN
         IF ~Loadable(st, c) THEN R([st EXCEPT !.cfg = None_], <<-98>>)
         ELSE LET s == TLCEval([st EXCEPT !.cfg = c, !.log = Log(st, c), !.errs = Errors(st, c)])
              IN R(s, <<Len(s.log), Len(s.errs)>>)
    [] cfg.apps = <<>> -> R(st, <<-98>>)
    [] ev.op = "given" -> LET l == st.log IN R(st, IF a[1] > Len(l) THEN <<-97>> ELSE EntryObs(l[a[1]]))
    [] ev.op = "error" ->
         LET l == st.errs IN
         IF a[1] > Len(l) THEN R(st, <<-97>>)
         ELSE LET e == l[a[1]] IN
              R(st, IF Len(ev.res) > 4 /\ SubSeq(ev.res, 1, 4) = e.key \o <<e.m>> /\ ErrOK(cfg, e, SubSeq(ev.res, 5, Len(ev.res)))
                    THEN ev.res ELSE e.key \o <<e.m>>)
    [] ev.op = "last" -> R(st, IF cfg.site \/ Tests(st, cfg) = <<>> THEN <<-98>> ELSE LastObs(st, cfg))
    [] OTHER -> R(st, <<-99>>)
Accepts(st, ev, r) == r.res = ev.res \/ r.res = <<-98>>
===========================================================================
