-------------------------- MODULE MCFrameLists ---------------------------
(* Union, adjacency, splitting, merging and group operations, exhaustively *)
(* over small frames and small sorted lists; coverage laws checked.        *)
EXTENDS TimeFrames, Json
CONSTANTS MaxT, MaxFrames, MaxGap, Ops
VARIABLES st, hist
T == 0..MaxT
Spans == {<<s, e>> \in T \X T : s < e}
\* sorted lists of disjoint frames
RECURSIVE Lists(_)
Lists(n) == IF n = 0 THEN {<<>>}
            ELSE LET P == Lists(n - 1) IN
                 P \cup UNION {{p \o <<x[1], x[2]>> : x \in {y \in Spans : Len(p) = 0 \/ y[1] >= p[Len(p)]}}
                               : p \in {q \in P : Len(q) = 2 * (n - 1)}}
L == Lists(MaxFrames)
\* any lists, possibly out of order or overlapping
AnyL == {Flat([i \in 1..Len(q) |-> q[i]]) : q \in SeqsUpTo(Spans, MaxFrames)}
GapT == 0..MaxGap
Do(o, a) ==
  LET r == Apply(st, [op |-> o, a |-> a]) IN
  /\ st' = r.st
  /\ hist' = Append(hist, [op |-> o, a |-> a, res |-> r.res])
Init == st = Open /\ hist = <<>>
Fresh == Len(hist) = 0
New     == Fresh /\ "single" \in Ops /\ \E s \in T \cup {NegInf}, e \in T \cup {PosInf} : Legal(s, e) /\ Do("new", <<s, e>>)
Second  == Len(hist) = 1 /\ hist[1].op = "new"
Other4  == {<<x[1], x[2], 0, 0>> : x \in Spans}
Union   == Second /\ Bounded(st) /\ \E o \in Other4 \cup {<<NegInf, PosInf, 1, 0>>} : Do("union", o)
OpenUnion == Second /\ ~Bounded(st) /\ \E o \in Other4 : Do("union", o)
Adj     == Second /\ Bounded(st) /\ \E o \in Other4 \cup {<<NegInf, PosInf, 1, 0>>}, g \in GapT : Do("adjacent", Append(o, g))
Split   == Second /\ \E d \in 1..MaxT + 1 : Do("split", <<d>>)
MergeL  == Fresh /\ "lists" \in Ops /\ \E l \in L, g \in GapT : Do("merge", <<g>> \o l)
SplitL  == Fresh /\ "lists" \in Ops /\ \E l \in L, d \in 1..MaxT : Do("split_all", <<d>> \o l)
GInter  == Fresh /\ "groups" \in Ops /\ \E l \in AnyL, m \in AnyL : Do("ginter", <<Len(l) \div 2>> \o l \o m)
Uptime  == Fresh /\ "groups" \in Ops /\ \E l \in AnyL : Do("uptime", l)
Remove  == Fresh /\ "groups" \in Ops /\ \E l \in AnyL, g \in 0..MaxT + 1 : Do("remove_short", <<g>> \o l)
Next == New \/ Union \/ OpenUnion \/ Adj \/ Split \/ MergeL \/ SplitL \/ GInter \/ Uptime \/ Remove

(* ---- laws, evaluated on every operation taken ---- *)
FramesOf(a, i) == Args2(a, i, (Len(a) - i + 1) \div 2)
Cover(fs) == UNION {Cells(fs[i], 0, MaxT) : i \in 1..Len(fs)}
Last == hist[Len(hist)]
LawMerge == (Len(hist) > 0 /\ Last.op = "merge") =>
  LET fs == FramesOf(Last.a, 2) m == Merge(fs, Last.a[1]) IN
  /\ Cover(fs) \subseteq Cover(m)
  /\ \A i \in 1..Len(m) - 1 : m[i + 1].s - m[i].e > Last.a[1]
  /\ \A t \in Cover(m) \ Cover(fs) :
        \E i \in 1..Len(fs) - 1 : fs[i].e <= t /\ t < fs[i + 1].s /\ fs[i + 1].s - fs[i].e <= Last.a[1]
LawSplit == (Len(hist) > 0 /\ Last.op = "split_all") =>
  LET fs == FramesOf(Last.a, 2)
      ps == FramesOf(Last.res, 2) IN
  /\ Cover(ps) = Cover(fs)
  /\ \A i \in 1..Len(ps) : Delta(ps[i]) <= Last.a[1] /\ Delta(ps[i]) > 0
  /\ SumSeq([i \in 1..Len(ps) |-> Delta(ps[i])]) = SumSeq([i \in 1..Len(fs) |-> Delta(fs[i])])
LawGroup == (Len(hist) > 0 /\ Last.op = "ginter") =>
  LET n == Last.a[1]
      f == Args2(Last.a, 2, n)
      g == Args2(Last.a, 2 + 2 * n, ((Len(Last.a) - 1) \div 2) - n)
      r == FramesOf(Last.res, 2) IN
  /\ Cover(r) = Cover(f) \cap Cover(g)
  /\ (Len(f) <= 1 /\ Len(g) <= 1) => SumSeq([i \in 1..Len(r) |-> Delta(r[i])]) = Cardinality(Cover(r))
  /\ \A i \in 1..Len(r) : ~r[i].em
Emit == (Len(hist) > 0 /\ Last.op # "new") => PrintT(ToJson(hist))
==========================================================================
