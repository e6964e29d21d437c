---------------------------- MODULE MCExperiment ----------------------------
(* Small homes with every pattern of missing samples, under every way of      *)
(* running an experiment.                                                     *)
EXTENDS Experiment, Json
CONSTANTS Rows_, Sizes, Shifts
VARIABLES raw, conf, st
\* readings at 0..Rows_-1, those in `gone` not recorded and those in `nan` missing
Tab(f, gone, nan) == LET ts == SelectSeq([i \in 1..Rows_ |-> i - 1], LAMBDA t : t \notin gone) IN
  [i \in 1..Len(ts) |-> <<ts[i], IF ts[i] \in nan THEN NaN ELSE 12 * (f + ((f * ts[i]) % 5))>>]
Meter(d, b, role, t) == <<d, b, role, 1, 11, Len(t)>> \o Flat(t)
Gone == {{}, {1}, {1, 2}}
Nan == {{}, {2}}
Shift(s) == IF s = 0 THEN {} ELSE 0..(s - 1)
Init ==
  /\ \E gm \in Gone, g1 \in Gone, s2 \in Shifts, nm \in Nan, n1 \in Nan, n2 \in {{}, {3}} :
       raw = <<1, 6>> \o Meter(1, 1, 0, Tab(1, gm, nm)) \o Meter(1, 1, 1, Tab(2, g1, n1)) \o Meter(1, 1, 2, Tab(3, Shift(s2), n2))
             \o Meter(1, 2, 0, Tab(4, g1, n2)) \o Meter(1, 2, 1, Tab(1, gm, {})) \o Meter(1, 2, 2, Tab(5, {}, n1))
  /\ \E size \in Sizes, drop \in 0..1, mode \in 0..2, ep \in {0, 2} :
       /\ mode = 1 => drop = 1
       /\ mode = 2 => size = 0
       /\ ep = 2 => size # 0
       /\ conf = <<1, size, drop, B(mode = 1), B(mode = 2), 2, 1, ep, 0, 0, 0, 0, 1, 1, 1, 1, 2, 1, 2,
                   2, 1, 1, 0, 4, 1, 2, 0, Rows_, 2, 1, 2, 0, Rows_, 1, 1, 1, Rows_>> \o
                 (IF drop = 1 THEN <<2, 1, 3>> ELSE <<0>>)
  /\ st = Apply(InitSt(raw), [op |-> "run", a |-> conf]).st
Next == FALSE /\ UNCHANGED <<raw, conf, st>>
cfg == st.cfg
Ran == cfg.apps # <<>>
\* whatever is handed over together is complete and on the same instants
SameInstants == Ran /\ cfg.drop /\ ~cfg.site => \A k \in 1..Len(st.log) :
  LET e == st.log[k] IN e.kind = 1 =>
    \A i \in 1..Len(e.mains) : \A a \in 1..Len(e.apps) :
      /\ [j \in 1..Len(e.mains[i]) |-> e.mains[i][j][1]] = [j \in 1..Len(e.apps[a][i]) |-> e.apps[a][i][j][1]]
      /\ \A j \in 1..Len(e.mains[i]) : e.mains[i][j][2] # NaN /\ e.apps[a][i][j][2] # NaN
\* an artificial aggregate is the sum of the appliances
Sums == Ran /\ cfg.art => \A k \in 1..Len(st.log) : LET e == st.log[k] IN e.kind = 1 =>
  \A i \in 1..Len(e.mains) : \A j \in 1..Len(e.mains[i]) :
    e.mains[i][j][2] = SumSeq([a \in 1..Len(e.apps) |-> e.apps[a][i][j][2]])
\* every complete sample reaches the algorithms, whatever the chunks
Complete(x) == LET ms == <<Of(st, x[1], x[2], 0)[1].tab>> \o [k \in 1..Len(cfg.apps) |-> Of(st, x[1], x[2], cfg.apps[k])[1].tab]
               IN {t \in TimesOf(Clean(ms[1])) : \A k \in 1..Len(ms) : t \in TimesOf(Clean(ms[k])) /\ x[3] <= t /\ t < x[4]}
NothingLost == Ran /\ cfg.drop /\ ~cfg.site => \A i \in 1..Len(cfg.test) :
  LET x == cfg.test[i] IN \A t \in Complete(x) : \E k \in 1..Len(Tests(st, cfg)) :
    LET u == Tests(st, cfg)[k] IN u.key[1] = x[1] /\ u.key[2] = x[2] /\ t \in TimesOf(u.mains)
\* each algorithm is tested on the same frames, in the order of the plan
AllTested == Ran => LET p == SelectSeq(st.log, LAMBDA e : e.kind = 2) IN
  \A k \in 1..Len(p) : p[k].mains = p[((k - 1) \div 2) * 2 + 1].mains /\ p[k].alg = 1 + ((k - 1) % 2)
OwnTruth == Ran => \A k \in 1..Len(st.errs) : LET e == st.errs[k] IN
  \A a \in 1..Len(cfg.apps) : \A r \in 1..Len(e.test.apps[a]) :
    LET row == e.test.apps[a][r]
        m == Of(st, e.key[1], e.key[2], cfg.apps[a])[1].tab
    IN row[2] # NaN => \/ \E i \in 1..Len(m) : m[i] = row
       \/ \E h \in 1..Len(m) : m[h][1] < row[1] /\ m[h][2] = row[2]    \* a short gap
Ev(o, a) == LET e == [op |-> o, a |-> a, res |-> <<>>] IN e
Emit == PrintT(ToJson(<<[op |-> "begin", a |-> raw, res |-> <<>>], Ev("run", conf)>> \o
          [k \in 1..(Len(st.log) + 1) |-> Ev("given", <<k>>)] \o [k \in 1..(Len(st.errs) + 1) |-> Ev("error", <<k>>)] \o <<Ev("last", <<>>)>>))
=============================================================================
