---------------------------- MODULE MCGroupLoad ----------------------------
EXTENDS GroupLoad, Json
CONSTANTS Gaps, Periods, Sizes, Starts
VARIABLES st, raw, job
RECURSIVE Times(_, _)
Times(t, gaps) == IF gaps = <<>> THEN <<t>> ELSE <<t>> \o Times(t + Head(gaps), Tail(gaps))
Val(c, i, m) == IF c = 40 THEN 720 * (i + m) ELSE 720 * i * m
RawMeter(sp, maxp, cols, ts, miss, m) ==
  <<sp, maxp, Len(cols)>> \o cols \o <<Len(ts)>>
  \o Flat([i \in 1..Len(ts) |-> <<ts[i]>> \o [k \in 1..Len(cols) |-> IF i = miss THEN NaN ELSE Val(cols[k], i, m)]])
Init == \E g1, g2 \in [1..2 -> Gaps], t1, t2 \in Starts, miss \in {0, 2} :
        \E cs \in {<<<<11>>, <<11>>>>, <<<<11, 40>>, <<11, 40>>>>, <<<<11>>, <<13, 40>>>>} :
          LET r1 == RawMeter(1, 2, cs[1], Times(t1, g1), miss, 1)
              r2 == RawMeter(1, 1, cs[2], Times(t2, g2), 0, 2)
          IN raw = <<2>> \o r1 \o r2 /\ st = InitSt(raw) /\ job = <<>>
AskLoad == job = <<>> /\ UNCHANGED <<st, raw>> /\
  \E p \in Periods, n \in Sizes, sc \in {<<>>, <<1, 4>>, <<0, 2, 3, 5>>} : job' = <<p, n, 0>> \o sc
Next == AskLoad
P == IF job[1] = 0 THEN Period(st) ELSE job[1]
SecsOf == IF Len(job) < 4 THEN <<Hull2(st)>> ELSE Secs(job, 4)
Cols == AllCols(st, 0)
OrderIrrelevant == job # <<>> => LoadObs(st, job) = LoadObs(<<st[2], st[1]>>, job)
\* where every step has a reading of every meter, stretches make no difference
Full(f) == \A i \in 1..Len(st) : \A t \in f.s..(f.e - 1) : \E r \in 1..Len(st[i].tab) : st[i].tab[r][1] = t /\ \A k \in 2..Len(st[i].tab[r]) : st[i].tab[r][k] # NaN
SizeIrrelevant == job # <<>> => \A k \in 1..Len(SecsOf) : Full(SecsOf[k]) =>
   Steps(st, SecsOf[k], P, Cols) = Flat([i \in 1..Len(Stretches(SecsOf[k], P, job[2])) |->
                                          Steps(st, Stretches(SecsOf[k], P, job[2])[i], P, Cols)])
\* a step has no reading only if no meter has one
NoReadingLost == job # <<>> => \A k \in 1..Len(SecsOf) : \A i \in 1..Len(st) : \A r \in 1..Len(st[i].tab) : \A c \in 1..Len(st[i].cols) :
   LET t == st[i].tab[r][1] f == SecsOf[k] IN
   (t >= f.s /\ t < f.e /\ st[i].tab[r][1 + c] # NaN) =>
     LET ss == Steps(st, f, P, Cols)
         j == SelectSeq([x \in 1..Len(Cols) |-> x], LAMBDA x : Cols[x] = st[i].cols[c])[1]
     IN \E x \in 1..Len(ss) : ss[x][1] = (t \div P) * P /\ ss[x][1 + j] # NaN
Ev(o, a, r) == [op |-> o, a |-> a, res |-> r]
Emit == job # <<>> => PrintT(ToJson(<<Ev("begin", raw, <<>>), Ev("load", job, LoadObs(st, job)), Ev("energy", <<>>, EnergyObs(st)),
                                      Ev("timeframe", <<>>, Apply(st, Ev("timeframe", <<>>, <<>>)).res)>>))
===========================================================================
